#define _GNU_SOURCE
/* What held a key is zeroed before it is given back: every object, length, path through the code and failure. */
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "insecure_memzero.h"
#include "proto_crypt.h"
#include "sha256.h"

#include "nat.h"

#define T "C34"
/* What the CPU can do, as far as the code may know. */
static int mask;
enum { M_SSE2 = 1, M_SSSE3 = 2, M_SHANI = 4, M_AESNI = 8 };
int __real_cpusupport_x86_sse2_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_ssse3_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_shani_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_aesni_detect_1(void) __attribute__((weak));
int __wrap_cpusupport_x86_sse2_detect_1(void) { return ((mask & M_SSE2) && __real_cpusupport_x86_sse2_detect_1()); }
int __wrap_cpusupport_x86_ssse3_detect_1(void) { return ((mask & M_SSSE3) && __real_cpusupport_x86_ssse3_detect_1()); }
int __wrap_cpusupport_x86_shani_detect_1(void) { return ((mask & M_SHANI) && __real_cpusupport_x86_shani_detect_1()); }
int __wrap_cpusupport_x86_aesni_detect_1(void) { return ((mask & M_AESNI) && __real_cpusupport_x86_aesni_detect_1()); }
void __wrap_libcperciva_warn(const char * f, ...) { (void)f; }
void __wrap_libcperciva_warnx(const char * f, ...) { (void)f; }

static const int masks[] = { 0, M_SSE2 | M_AESNI, M_SSE2 | M_SSSE3 | M_SHANI | M_AESNI };

static uint8_t
pt(size_t i)
{

	return ((uint8_t)((i * 167 + (i >> 8) * 59 + 11) ^ (i >> 3)));
}

/* --- Watching free() --- */
/* Values which no freed block may contain. */
static struct { const char * what; uint8_t v[32]; } secret[8];
static int nsecret;
/* The object about to be freed, as it was. */
static const void * obj;
static uint8_t was[4096];
static size_t objlen;
static long nfree, nobj;
static const char * objname;
static void
freed(const void * p, size_t n)
{
	const uint8_t * b = p;
	size_t i, j;
	int k;

	nfree++;
	for (k = 0; k < nsecret; k++)
		for (i = 0; i + 32 <= n; i++)
			if (memcmp(&b[i], secret[k].v, 32) == 0)
				nat_fail(T, "a block of %zu bytes is freed which still holds %s", n, secret[k].what);
	if (p != obj)
		return;
	nobj++;
	obj = NULL;
	/* Four bytes in a row which are as they were, and were not just filling. */
	for (i = 0; i + 4 <= n && i + 4 <= objlen; i++) {
		for (j = 0; j < 4; j++)
			if (b[i + j] != was[i + j] || b[i + j] == 0 || b[i + j] == 0xbe)
				break;
		if (j == 4)
			nat_fail(T, "%s is freed, but byte %zu and the following of it have not been overwritten", objname, i);
	}
}
static void
watch(const char * name, const void * p)
{
	size_t n = p ? (size_t)malloc_usable_size((void *)(uintptr_t)p) : 0;

	obj = p;
	objname = name;
	nobj = 0;
	objlen = n > sizeof(was) ? sizeof(was) : n;
	memcpy(was, p, objlen);
}
static void
watched(void)
{

	if (nobj != 1)
		nat_fail(T, "%s is not freed", objname);
	nat_state(nat_hash(objlen, was, objlen));
}
static void
know(const char * what, const uint8_t v[32])
{

	secret[nsecret].what = what;
	memcpy(secret[nsecret++].v, v, 32);
}

/* --- The states of hashes --- */
static void
zeroed(const char * what, const void * p, size_t n)
{
	const uint8_t * b = p;
	size_t i;

	nat_outcome(n);
	for (i = 0; i < n; i++)
		if (b[i])
			nat_fail(T, "%s: byte %zu of %zu of the state is not zero afterwards", what, i, n);
}
static long shp(void) { return (3 * 8); }
static void
hashes(long part)
{
	size_t n, a, max = (size_t)nat_bound;
	uint8_t d[32], m[600];
	SHA256_CTX s;
	HMAC_SHA256_CTX h;

	mask = masks[part / 8];
	for (n = 0; n < sizeof(m); n++)
		m[n] = pt(n);
	for (n = (size_t)part % 8; n <= max; n += 8)
		for (a = 0; a <= n; a++) {
			CASE("hashing %ld + %ld bytes, path %ld", a, n - a, mask);
			memset(&s, 0xa5, sizeof(s));
			SHA256_Init(&s);
			SHA256_Update(&s, m, a);
			SHA256_Update(&s, m + a, n - a);
			nat_state(nat_hash(mask, &s, sizeof(s)));
			SHA256_Final(d, &s);
			zeroed("SHA256", &s, sizeof(s));
			memset(&h, 0xa5, sizeof(h));
			HMAC_SHA256_Init(&h, m, n);
			HMAC_SHA256_Update(&h, m, a);
			HMAC_SHA256_Final(d, &h);
			zeroed("HMAC-SHA256", &h, sizeof(h));
			nat_trans(8);
		}
}

/* --- Key schedules and streams --- */
static long aep(void) { return (3 * 2 * 4); }
static void
ciphers(long part)
{
	size_t klen = part % 2 ? 32 : 16, a, b, max = (size_t)nat_bound;
	uint8_t k[32], in[200], out[200];
	struct crypto_aes_key * K;
	struct crypto_aesctr * S;
	size_t i;
	int again;

	mask = masks[part / 8];
	for (i = 0; i < 32; i++)
		k[i] = pt(i + 5);
	for (i = 0; i < sizeof(in); i++)
		in[i] = pt(i + 9);
	nat_onfree = freed;
	for (a = (size_t)(part / 2) % 4; a <= max; a += 4)
		for (b = 0; b <= max; b++)
			for (again = 0; again < 2; again++) {
				CASE("a %ld-byte key, a stream of %ld + %ld bytes, path %ld, used again %ld", klen, a, b, mask, again);
				if ((K = crypto_aes_key_expand(k, klen)) == NULL ||
				    (S = crypto_aesctr_init(K, 0x0102030405060708ULL + a)) == NULL)
					nat_fail(T, "out of memory?");
				crypto_aesctr_stream(S, in, out, a);
				crypto_aesctr_stream(S, in, out, b);
				if (again) {
					crypto_aesctr_init2(S, K, 0x1112131415161718ULL);
					crypto_aesctr_stream(S, in, out, b);
				}
				watch("a CTR stream", S);
				crypto_aesctr_free(S);
				watched();
				crypto_aesctr_buf(K, 77, in, out, a + b > sizeof(in) ? sizeof(in) : a + b);
				watch("an AES key", K);
				crypto_aes_key_free(K);
				watched();
				nat_trans(9);
				/* Without memory. */
				for (i = 1; i <= 2; i++) {
					nat_failat = (long)i;
					K = crypto_aes_key_expand(k, klen);
					S = K ? crypto_aesctr_init(K, a) : NULL;
					nat_failat = 0;
					if (S)
						crypto_aesctr_free(S);
					if (K) {
						watch("an AES key", K);
						crypto_aes_key_free(K);
						watched();
					}
				}
			}
	nat_onfree = NULL;
	if (nat_live)
		nat_fail(T, "%ld blocks are left", nat_live);
}

/* --- The shared secret and the keys made from it --- */
static uint8_t file[20000];
static size_t flen, fpos, ffail;
static ssize_t
fget(void * c, char * b, size_t n)
{

	(void)c;
	if (fpos >= ffail) {
		errno = EIO;
		return (-1);
	}
	if (n > flen - fpos)
		n = flen - fpos;
	if (n > ffail - fpos)
		n = ffail - fpos;
	memcpy(b, file + fpos, n);
	fpos += n;
	return ((ssize_t)n);
}
FILE * __real_fopen(const char *, const char *);
FILE *
__wrap_fopen(const char * name, const char * mode)
{
	cookie_io_functions_t f = { .read = fget };

	if (strcmp(name, "the key"))
		return (__real_fopen(name, mode));
	fpos = 0;
	return (fopencookie(NULL, "r", f));
}
static const size_t lens[] = { 0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16399 };
#define NLEN (long)(sizeof(lens) / sizeof(lens[0]))
static long kep(void) { return (NLEN); }
static void
keys(long part)
{
	struct proto_secret * K;
	struct proto_keys * kc, * ks;
	uint8_t h[32], nl[32], nr[32], dl[32], dr[32], yh[PCRYPT_YH_LEN], x[PCRYPT_X_LEN], salt[320], dk[128], ob[PCRYPT_ESZ], ib[PCRYPT_ESZ];
	size_t i;
	long fail, j, m, decr, use;
	int rc;

	flen = lens[part];
	for (i = 0; i < sizeof(file); i++)
		file[i] = pt(i * 3 + 1);
	for (i = 0; i < 32; i++) {
		nl[i] = pt(i + 100);
		nr[i] = pt(i + 200);
	}
	memset(x, 0, sizeof(x));
	memset(yh, 0, sizeof(yh));
	yh[255] = 1;
	ref_sha256(file, flen, h);
	nat_onfree = freed;
	for (m = 0; m < 3; m++) {
		mask = masks[m];
		/* A file which can not be read to its end. */
		for (j = 0; j < NLEN && lens[j] <= flen; j++)
			for (fail = 0; fail < 2; fail++) {
				CASE("a key file of %ld bytes, error after %ld, path %ld, failing request %ld", flen, lens[j], mask, fail);
				nsecret = 0;
				know("the secret", h);
				ref_sha256(file, lens[j], dk);
				know("the hash of the first part of the file", dk);
				ffail = lens[j];
				nat_failat = fail;
				K = proto_crypt_secret("the key");
				nat_failat = 0;
				if (K != NULL)
					nat_fail("C34,C18", "a key file which can not be read is used");
				nat_trans(1);
			}
		ffail = sizeof(file);
		for (decr = 0; decr < 2; decr++)
			for (use = 0; use < 4; use++)
				for (fail = 0; ; fail++) {
					CASE("a key file of %ld bytes, path %ld, decrypting %ld, %ld packets, failing request %ld", flen, mask, decr, use, fail);
					nsecret = 0;
					know("the secret", h);
					if ((K = proto_crypt_secret("the key")) == NULL)
						nat_fail("C34,C18", "the key file can not be read");
					proto_crypt_dhmac(K, nl, nr, dl, dr, (int)decr);
					memcpy(salt, decr ? nr : nl, 32);
					memcpy(salt + 32, decr ? nl : nr, 32);
					memcpy(salt + 64, yh, 256);
					ref_pbkdf2(h, 32, salt, 320, 1, dk, 128);
					know("an encryption key", dk);
					know("a MAC key", dk + 32);
					know("an encryption key", dk + 64);
					know("a MAC key", dk + 96);
					nat_failed = 0;
					nat_failat = fail;
					rc = proto_crypt_mkkeys(K, nl, nr, yh, x, 1, (int)decr, &kc, &ks);
					nat_failat = 0;
					if (rc == 0) {
						for (j = 0; j < use; j++) {
							memset(ib, 'x', sizeof(ib));
							proto_crypt_enc(ib, 1 + (size_t)j * 500, ob, kc);
							nat_trans(1);
						}
						proto_crypt_free(kc);
						proto_crypt_free(ks);
					}
					watch("the secret", K);
					proto_crypt_secret_free(K);
					watched();
					nat_trans(6);
					if (fail && nat_failed == 0)
						break;
					if (rc == 0 && nat_failed)
						nat_fail("C34,C28", "a failing request is not noticed");
				}
	}
	nat_onfree = NULL;
	if (nat_live)
		nat_fail("C34,C28", "%ld blocks are left", nat_live);
}

/* --- Zeroing itself: exactly what was asked for --- */
static long zep(void) { return (16); }
static void
zeroes(long part)
{
	static uint8_t b[9000];
	size_t n, i, max = (size_t)nat_bound;

	for (n = 0; n <= max; n += n < 600 ? 1 : 61) {
		CASE("zeroing %ld bytes, misaligned by %ld", n, part);
		memset(b, 0xc3, sizeof(b));
		insecure_memzero(&b[100 + part], n);
		for (i = 0; i < sizeof(b); i++)
			if (b[i] != (i >= 100 + (size_t)part && i < 100 + (size_t)part + n ? 0 : 0xc3))
				nat_fail(T, "zeroing %zu bytes: byte %ld is %02x", n, (long)i - 100 - part, b[i]);
		nat_state(n * 16 + (size_t)part);
		nat_trans(1);
	}
}

static const struct nat_scenario scens[] = {
	{ "wp_hash", hashes, shp, 300, 550, T },
	{ "wp_aes", ciphers, aep, 90, 190, T },
	{ "wp_keys", keys, kep, 1, 1, T },
	{ "wp_zero", zeroes, zep, 4000, 8500, T },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
