#include <stdlib.h>
#include <string.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>

#include "nat.h"

void
ref_sha256(const void * p, size_t n, uint8_t out[32])
{

	EVP_Digest(p, n, out, NULL, EVP_sha256(), NULL);
}
void *
ref_sha_init(void)
{
	EVP_MD_CTX * c = EVP_MD_CTX_new();

	EVP_DigestInit_ex(c, EVP_sha256(), NULL);
	return (c);
}
void ref_sha_update(void * c, const void * p, size_t n) { EVP_DigestUpdate(c, p, n); }
void
ref_sha_final(void * c, uint8_t out[32])
{

	EVP_DigestFinal_ex(c, out, NULL);
	EVP_MD_CTX_free(c);
}

/* By RFC 2104. */
void
ref_hmac(const void * k, size_t kl, const void * p, size_t n, uint8_t out[32])
{
	uint8_t key[64], pad[64];
	void * c;
	int i;

	memset(key, 0, 64);
	if (kl > 64)
		ref_sha256(k, kl, key);
	else
		memcpy(key, k, kl);
	for (i = 0; i < 64; i++)
		pad[i] = key[i] ^ 0x36;
	c = ref_sha_init();
	ref_sha_update(c, pad, 64);
	ref_sha_update(c, p, n);
	ref_sha_final(c, out);
	for (i = 0; i < 64; i++)
		pad[i] = key[i] ^ 0x5c;
	c = ref_sha_init();
	ref_sha_update(c, pad, 64);
	ref_sha_update(c, out, 32);
	ref_sha_final(c, out);
}

void
ref_pbkdf2(const void * p, size_t pl, const void * s, size_t sl, int c, uint8_t * out, size_t n)
{
	uint8_t u[32], t[32], * m = malloc(sl + 4);
	uint32_t i;
	size_t k, off;
	int j;

	memcpy(m, s, sl);
	for (i = 1, off = 0; off < n; i++, off += 32) {
		m[sl] = i >> 24; m[sl + 1] = i >> 16; m[sl + 2] = i >> 8; m[sl + 3] = i;
		ref_hmac(p, pl, m, sl + 4, u);
		memcpy(t, u, 32);
		for (j = 1; j < c; j++) {
			ref_hmac(p, pl, u, 32, u);
			for (k = 0; k < 32; k++)
				t[k] ^= u[k];
		}
		memcpy(out + off, t, n - off < 32 ? n - off : 32);
	}
	free(m);
}

static EVP_CIPHER_CTX * ectx;
static uint8_t ekey[32];
static size_t eklen;
static void
setkey(const uint8_t * k, size_t kl)
{

	if (ectx && eklen == kl && memcmp(ekey, k, kl) == 0)
		return;
	if (ectx == NULL)
		ectx = EVP_CIPHER_CTX_new();
	EVP_EncryptInit_ex(ectx, kl == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), NULL, k, NULL);
	EVP_CIPHER_CTX_set_padding(ectx, 0);
	memcpy(ekey, k, kl);
	eklen = kl;
}
void
ref_aes(const uint8_t * k, size_t kl, const uint8_t in[16], uint8_t out[16])
{
	int n;

	setkey(k, kl);
	EVP_EncryptUpdate(ectx, out, &n, in, 16);
}

/* Block number i of the key stream is AES(nonce || i), both big-endian. */
void
ref_ctr(const uint8_t * k, size_t kl, uint64_t nonce, uint64_t pos, const uint8_t * in, uint8_t * out, size_t n)
{
	uint8_t b[16], s[16];
	uint64_t blk;
	size_t i;
	int j, have = 0;

	for (i = 0; i < n; i++, pos++) {
		if (!have || pos % 16 == 0) {
			blk = pos / 16;
			for (j = 0; j < 8; j++) {
				b[j] = (uint8_t)(nonce >> (56 - 8 * j));
				b[8 + j] = (uint8_t)(blk >> (56 - 8 * j));
			}
			ref_aes(k, kl, b, s);
			have = 1;
		}
		out[i] = in[i] ^ s[pos % 16];
	}
}

const uint8_t *
ref_prime(void)
{
	static uint8_t p[256];
	BIGNUM * b = BN_get_rfc3526_prime_2048(NULL);

	BN_bn2bin(b, p);
	BN_free(b);
	return (p);
}
