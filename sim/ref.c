#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <string.h>

#include "ref.h"
#include "sim.h"

const uint8_t ref_p[256] = {
	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xc9, 0x0f, 0xda, 0xa2, 0x21, 0x68, 0xc2, 0x34,
	0xc4, 0xc6, 0x62, 0x8b, 0x80, 0xdc, 0x1c, 0xd1, 0x29, 0x02, 0x4e, 0x08, 0x8a, 0x67, 0xcc, 0x74,
	0x02, 0x0b, 0xbe, 0xa6, 0x3b, 0x13, 0x9b, 0x22, 0x51, 0x4a, 0x08, 0x79, 0x8e, 0x34, 0x04, 0xdd,
	0xef, 0x95, 0x19, 0xb3, 0xcd, 0x3a, 0x43, 0x1b, 0x30, 0x2b, 0x0a, 0x6d, 0xf2, 0x5f, 0x14, 0x37,
	0x4f, 0xe1, 0x35, 0x6d, 0x6d, 0x51, 0xc2, 0x45, 0xe4, 0x85, 0xb5, 0x76, 0x62, 0x5e, 0x7e, 0xc6,
	0xf4, 0x4c, 0x42, 0xe9, 0xa6, 0x37, 0xed, 0x6b, 0x0b, 0xff, 0x5c, 0xb6, 0xf4, 0x06, 0xb7, 0xed,
	0xee, 0x38, 0x6b, 0xfb, 0x5a, 0x89, 0x9f, 0xa5, 0xae, 0x9f, 0x24, 0x11, 0x7c, 0x4b, 0x1f, 0xe6,
	0x49, 0x28, 0x66, 0x51, 0xec, 0xe4, 0x5b, 0x3d, 0xc2, 0x00, 0x7c, 0xb8, 0xa1, 0x63, 0xbf, 0x05,
	0x98, 0xda, 0x48, 0x36, 0x1c, 0x55, 0xd3, 0x9a, 0x69, 0x16, 0x3f, 0xa8, 0xfd, 0x24, 0xcf, 0x5f,
	0x83, 0x65, 0x5d, 0x23, 0xdc, 0xa3, 0xad, 0x96, 0x1c, 0x62, 0xf3, 0x56, 0x20, 0x85, 0x52, 0xbb,
	0x9e, 0xd5, 0x29, 0x07, 0x70, 0x96, 0x96, 0x6d, 0x67, 0x0c, 0x35, 0x4e, 0x4a, 0xbc, 0x98, 0x04,
	0xf1, 0x74, 0x6c, 0x08, 0xca, 0x18, 0x21, 0x7c, 0x32, 0x90, 0x5e, 0x46, 0x2e, 0x36, 0xce, 0x3b,
	0xe3, 0x9e, 0x77, 0x2c, 0x18, 0x0e, 0x86, 0x03, 0x9b, 0x27, 0x83, 0xa2, 0xec, 0x07, 0xa2, 0x8f,
	0xb5, 0xc5, 0x5d, 0xf0, 0x6f, 0x4c, 0x52, 0xc9, 0xde, 0x2b, 0xcb, 0xf6, 0x95, 0x58, 0x17, 0x18,
	0x39, 0x95, 0x49, 0x7c, 0xea, 0x95, 0x6a, 0xe5, 0x15, 0xd2, 0x26, 0x18, 0x98, 0xfa, 0x05, 0x10,
	0x15, 0x72, 0x8e, 0x5a, 0x8a, 0xac, 0xaa, 0x68, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
};

void
ref_sha256(const void * d, size_t l, uint8_t out[32])
{

	EVP_Digest(d, l, out, NULL, EVP_sha256(), NULL);
}

void
ref_hmac(const uint8_t * k, size_t kl, const void * d, size_t dl, uint8_t out[32])
{
	unsigned n = 32;

	HMAC(EVP_sha256(), k, kl, d, dl, out, &n);
}

void
ref_pbkdf2(const uint8_t * k, size_t kl, const uint8_t * salt, size_t sl,
    uint8_t * out, size_t ol)
{

	PKCS5_PBKDF2_HMAC((const char *)k, kl, salt, sl, 1, EVP_sha256(), ol, out);
}

/* base^(2^258 + x) mod p. */
void
ref_modexp(const uint8_t base[256], const uint8_t x[32], uint8_t out[256])
{
	BIGNUM * b, * e, * m, * r;
	BN_CTX * c;
	uint64_t k1, k2;

	k1 = x_hash(x_hash(77, base, 256), x, 32);
	k2 = x_hash(x_hash(99, x, 32), base, 256);
	if (x_memo_get(k1, k2, out, 256))
		return;
	c = BN_CTX_new();
	b = BN_bin2bn(base, 256, NULL);
	e = BN_bin2bn(x, 32, NULL);
	m = BN_bin2bn(ref_p, 256, NULL);
	r = BN_new();
	BN_set_bit(e, 258);
	BN_mod_exp(r, b, e, m, c);
	BN_bn2binpad(r, out, 256);
	BN_free(b); BN_free(e); BN_free(m); BN_free(r);
	BN_CTX_free(c);
	x_memo_put(k1, k2, out, 256);
}

void
ref_pow2(const uint8_t x[32], uint8_t out[256])
{
	uint8_t b[256] = { 0 };

	b[255] = 2;
	ref_modexp(b, x, out);
}

void
ref_dhmac(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    uint8_t dc[32], uint8_t ds[32])
{
	uint8_t salt[64], dk[64];

	memcpy(salt, nc, 32);
	memcpy(salt + 32, ns, 32);
	ref_pbkdf2(K, 32, salt, 64, dk, 64);
	memcpy(dc, dk, 32);
	memcpy(ds, dk + 32, 32);
}

void
ref_mkyh(const uint8_t y[256], const uint8_t dhmac[32], uint8_t yh[R_YH])
{

	memmove(yh, y, 256);
	ref_hmac(dhmac, 32, yh, 256, yh + 256);
}

void
ref_keyset(const uint8_t K[32], const uint8_t nc[32], const uint8_t ns[32],
    const uint8_t ysc[256], struct ref_keys * c, struct ref_keys * s)
{
	uint8_t salt[320], dk[128];

	memcpy(salt, nc, 32);
	memcpy(salt + 32, ns, 32);
	memcpy(salt + 64, ysc, 256);
	ref_pbkdf2(K, 32, salt, 320, dk, 128);
	memcpy(c->E, dk, 32);
	memcpy(c->H, dk + 32, 32);
	memcpy(s->E, dk + 64, 32);
	memcpy(s->H, dk + 96, 32);
	c->pnum = s->pnum = 0;
}

void
ref_ctr(const uint8_t E[32], uint64_t nonce, const uint8_t * in, uint8_t * out,
    size_t len)
{
	EVP_CIPHER_CTX * x = EVP_CIPHER_CTX_new();
	uint8_t iv[16] = { 0 };
	int i, l;

	for (i = 0; i < 8; i++)
		iv[i] = nonce >> (56 - 8 * i);
	EVP_EncryptInit_ex(x, EVP_aes_256_ctr(), NULL, E, iv);
	EVP_EncryptUpdate(x, out, &l, in, len);
	EVP_CIPHER_CTX_free(x);
}

static void
be64(uint8_t * b, uint64_t v)
{
	int i;

	for (i = 0; i < 8; i++)
		b[i] = v >> (56 - 8 * i);
}

void
ref_encrypt(const struct ref_keys * k, uint64_t pnum, const uint8_t * d,
    size_t len, uint32_t lf, uint8_t out[R_PKT])
{
	uint8_t m[1036] = { 0 };

	memcpy(m, d, len);
	m[1024] = lf >> 24; m[1025] = lf >> 16; m[1026] = lf >> 8; m[1027] = lf;
	ref_ctr(k->E, pnum, m, m, 1028);
	be64(m + 1028, pnum);
	memcpy(out, m, 1028);
	ref_hmac(k->H, 32, m, 1036, out + 1028);
}

ssize_t
ref_decrypt(const struct ref_keys * k, uint64_t pnum, const uint8_t * pkt,
    uint8_t * out)
{
	uint8_t m[1036], h[32];
	uint32_t l, i;

	memcpy(m, pkt, 1028);
	be64(m + 1028, pnum);
	ref_hmac(k->H, 32, m, 1036, h);
	if (memcmp(h, pkt + 1028, 32))
		return (-1);
	ref_ctr(k->E, pnum, m, m, 1028);
	l = (uint32_t)m[1024] << 24 | m[1025] << 16 | m[1026] << 8 | m[1027];
	if (l == 0 || l > 1024)
		return (-2);
	for (i = l; i < 1024; i++)
		if (m[i])
			return (-3);
	memcpy(out, m, l);
	return (l);
}

void
ref_init(struct ref_ep * e, int fd, int decr, const void * key, size_t keylen,
    int seed)
{

	memset(e, 0, sizeof(*e));
	e->fd = fd;
	e->decr = decr;
	ref_sha256(key, keylen, e->K);
	patfill(e->nl, 200 + seed, 0, 32);
	patfill(e->x, 220 + seed, 0, 32);
}

int
ref_handshake(struct ref_ep * e)
{
	uint8_t dc[32], ds[32], y[256] = { 0 }, chk[R_YH], ysc[256] = { 0 };
	uint8_t * nc, * ns;
	int i, one;

	if (a_write(e->fd, e->nl, 32)) {
		e->why = "write nonce";
		return (-1);
	}
	if (a_readfull(e->fd, e->nr, 32) != 32) {
		e->why = "no nonce";
		return (-1);
	}
	nc = e->decr ? e->nr : e->nl;
	ns = e->decr ? e->nl : e->nr;
	ref_dhmac(e->K, nc, ns, dc, ds);
	y[255] = 1;
	if (!e->nopfs)
		ref_pow2(e->x, y);
	ref_mkyh(y, e->decr ? ds : dc, e->yhl);
	for (i = 0; i < 2; i++) {
		if ((i == 0) == !e->decr) {
			if (a_write(e->fd, e->yhl, R_YH)) {
				e->why = "write yh";
				return (-1);
			}
		} else {
			if (a_readfull(e->fd, e->yhr, R_YH) != R_YH) {
				e->why = "no yh";
				return (-1);
			}
			ref_mkyh(e->yhr, e->decr ? dc : ds, chk);
			if (memcmp(chk, e->yhr, R_YH)) {
				e->why = "bad yh MAC";
				return (-1);
			}
			if (memcmp(e->yhr, ref_p, 256) >= 0) {
				e->why = "y >= p";
				return (-1);
			}
		}
	}
	for (one = 1, i = 0; i < 255; i++)
		if (e->yhr[i])
			one = 0;
	if (e->yhr[255] != 1)
		one = 0;
	if (one && e->requirepfs) {
		e->why = "no pfs";
		return (-1);
	}
	ysc[255] = 1;
	if (!e->nopfs)
		ref_modexp(e->yhr, e->x, ysc);
	ref_keyset(e->K, nc, ns, ysc, &e->c, &e->s);
	return (0);
}

int
ref_send(struct ref_ep * e, const void * d, size_t l)
{
	struct ref_keys * k = e->decr ? &e->s : &e->c;
	uint8_t pkt[R_PKT];

	ref_encrypt(k, k->pnum++, d, l, l, pkt);
	return (a_write(e->fd, pkt, R_PKT));
}

ssize_t
ref_recv(struct ref_ep * e, uint8_t buf[1024])
{
	struct ref_keys * k = e->decr ? &e->c : &e->s;
	uint8_t pkt[R_PKT];
	ssize_t r;

	r = a_readfull(e->fd, pkt, R_PKT);
	if (r == 0)
		return (0);
	if (r != R_PKT) {
		e->why = "partial packet";
		return (-1);
	}
	if ((r = ref_decrypt(k, k->pnum++, pkt, buf)) < 0) {
		e->why = r == -1 ? "bad packet MAC" : r == -2 ? "bad packet length" : "nonzero padding";
		return (-1);
	}
	return (r);
}
