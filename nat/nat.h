/*
 * Exhaustive enumeration of cases (operation sequences, sizes, splits, failed
 * requests) over the repository's own object code, natively, with
 * AddressSanitizer.  A scenario consists of parts, each run in a process of
 * its own; a part enumerates its cases by ordinary loops or recursion and
 * announces each by CASE().
 */
#ifndef NAT_H
#define NAT_H
#include <stddef.h>
#include <stdint.h>

struct nat_scenario {
	const char * name;
	void (*fn)(long part);
	long (*parts)(void);
	int bound_quick, bound_thorough;
	const char * props;
};
int nat_main(int argc, char ** argv, const struct nat_scenario *);
extern int nat_bound;		/* the scenario's bound in this tier */
extern int nat_thorough;

void nat_case(const char * fmt, long a, long b, long c, long d, long e, long f);
#define C6(fmt, a, b, c, d, e, f, ...) nat_case(fmt, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define CASE(...) C6(__VA_ARGS__, 0, 0, 0, 0, 0, 0)
void nat_fail(const char * tags, const char * fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void nat_note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void nat_state(uint64_t h);
void nat_outcome(uint64_t h);
void nat_trans(uint64_t n);
uint64_t nat_hash(uint64_t h, const void *, size_t);

/* The nth allocation from now on fails (0: none); how many there were. */
extern long nat_failat, nat_allocs, nat_failed;
extern void (*nat_onfree)(const void *, size_t);	/* called before a block is freed */
extern long nat_live, nat_livebytes;	/* blocks, bytes allocated and not freed */

/* The code's static data (in a binary built with "snap"). */
size_t nat_snapsize(void);
void nat_save(void *);
void nat_load(const void *);

/* Reference implementations (OpenSSL, or by the definition). */
void ref_sha256(const void *, size_t, uint8_t[32]);
void ref_hmac(const void *, size_t, const void *, size_t, uint8_t[32]);
void ref_pbkdf2(const void *, size_t, const void *, size_t, int, uint8_t *, size_t);
void ref_aes(const uint8_t *, size_t, const uint8_t[16], uint8_t[16]);
void ref_ctr(const uint8_t *, size_t, uint64_t nonce, uint64_t pos, const uint8_t *, uint8_t *, size_t);
void * ref_sha_init(void);
void ref_sha_update(void *, const void *, size_t);
void ref_sha_final(void *, uint8_t[32]);
const uint8_t * ref_prime(void);	/* group 14, 256 bytes */
#endif
