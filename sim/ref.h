/*
 * Independent reference implementation of the spiped protocol (from
 * DESIGN.md / proto descriptions of the repository), on OpenSSL primitives.
 */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

#define R_PKT 1060
#define R_YH 288

struct ref_keys { uint8_t E[32], H[32]; uint64_t pnum; };

struct ref_ep {
	int fd;
	int decr;		/* we are the server ("S") end */
	int nopfs;		/* we send y = 1 */
	int requirepfs;
	uint8_t K[32];
	uint8_t nl[32], nr[32];
	uint8_t x[32];
	uint8_t yhl[R_YH], yhr[R_YH];
	struct ref_keys c, s;	/* keys for C->S and S->C */
	const char * why;	/* reason for failure */
};

extern const uint8_t ref_p[256];

void ref_sha256(const void *, size_t, uint8_t out[32]);
void ref_hmac(const uint8_t * k, size_t kl, const void * d, size_t dl, uint8_t out[32]);
void ref_pbkdf2(const uint8_t * k, size_t kl, const uint8_t * salt, size_t sl, uint8_t * out, size_t ol);
void ref_modexp(const uint8_t base[256], const uint8_t x[32], uint8_t out[256]);
void ref_pow2(const uint8_t x[32], uint8_t out[256]);
void ref_dhmac(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32], uint8_t dc[32], uint8_t ds[32]);
void ref_mkyh(const uint8_t y[256], const uint8_t dhmac[32], uint8_t yh[R_YH]);
void ref_keyset(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32], const uint8_t ysc[256], struct ref_keys * c, struct ref_keys * s);
void ref_ctr(const uint8_t E[32], uint64_t nonce, const uint8_t * in, uint8_t * out, size_t len);
void ref_encrypt(const struct ref_keys *, uint64_t pnum, const uint8_t * d, size_t len, uint32_t lenfield, uint8_t out[R_PKT]);
ssize_t ref_decrypt(const struct ref_keys *, uint64_t pnum, const uint8_t pkt[R_PKT], uint8_t * out);

/* As an actor in the simulated world. */
void ref_init(struct ref_ep *, int fd, int decr, const void * key, size_t keylen, int seed);
int ref_handshake(struct ref_ep *);
int ref_send(struct ref_ep *, const void *, size_t);
ssize_t ref_recv(struct ref_ep *, uint8_t buf[1024]);	/* 0 EOF, -1 bad */
#endif
