/* Keys and packets: every length, altered bit, length field, order; long streams. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <openssl/bn.h>

#include "crypto_dh.h"
#include "proto_crypt.h"

#include "nat.h"

#define YH (CRYPTO_DH_PUBLEN + 32)

/* --- what /dev/urandom says --- */
static uint8_t ent[512];
static size_t entat;
int
__wrap_crypto_entropy_read(uint8_t * b, size_t n)
{

	while (n--)
		*b++ = ent[entat++ % sizeof(ent)];
	return (0);
}

/* --- the reference --- */
static uint8_t K[32];		/* SHA256 of the key file */
struct rk {
	uint8_t E[32], H[32];
};
static void
r_dhmac(const uint8_t * nc, const uint8_t * ns, uint8_t c[32], uint8_t s[32])
{
	uint8_t n[64], dk[64];

	memcpy(n, nc, 32);
	memcpy(n + 32, ns, 32);
	ref_pbkdf2(K, 32, n, 64, 1, dk, 64);
	memcpy(c, dk, 32);
	memcpy(s, dk + 32, 32);
}
static void
r_keys(const uint8_t * nc, const uint8_t * ns, const uint8_t ysc[256], struct rk * c, struct rk * s)
{
	uint8_t n[64 + 256], dk[128];

	memcpy(n, nc, 32);
	memcpy(n + 32, ns, 32);
	memcpy(n + 64, ysc, 256);
	ref_pbkdf2(K, 32, n, 320, 1, dk, 128);
	memcpy(c->E, dk, 32);
	memcpy(c->H, dk + 32, 32);
	memcpy(s->E, dk + 64, 32);
	memcpy(s->H, dk + 96, 32);
}
static void
r_packet(const struct rk * k, uint64_t pn, const uint8_t * d, size_t len, uint32_t lenfield, uint8_t out[PCRYPT_ESZ])
{
	uint8_t b[1028 + 8];
	int i;

	memset(b, 0, 1028);
	memcpy(b, d, len);
	for (i = 0; i < 4; i++)
		b[1024 + i] = lenfield >> (24 - 8 * i);
	ref_ctr(k->E, 32, pn, 0, b, out, 1028);
	memcpy(b, out, 1028);
	for (i = 0; i < 8; i++)
		b[1028 + i] = pn >> (56 - 8 * i);
	ref_hmac(k->H, 32, b, 1036, out + 1028);
}
static void
r_modexp(const uint8_t y[256], const uint8_t x[32], uint8_t out[256])
{
	BN_CTX * c = BN_CTX_new();
	BIGNUM * b = BN_bin2bn(y, 256, NULL), * e = BN_bin2bn(x, 32, NULL), * p = BN_get_rfc3526_prime_2048(NULL), * t = BN_new();

	/* The private value is 2^258 plus the 32 bytes. */
	BN_set_bit(e, 258);
	BN_mod_exp(t, b, e, p, c);
	BN_bn2binpad(t, out, 256);
	BN_free(b);
	BN_free(e);
	BN_free(p);
	BN_free(t);
	BN_CTX_free(c);
}

/* --- setting up --- */
static struct proto_secret * PK;
static uint8_t data[70000];
static void
setup(int kind)
{
	static char key[3][40] = { "", "a secret\n", "\0\0\xff\0" };
	int fd = memfd_create("key", 0), i;
	size_t l = kind == 0 ? 0 : kind == 1 ? 9 : 40;
	char nm[40];

	for (i = 0; i < (int)sizeof(data); i++)
		data[i] = (uint8_t)(i * 7 + (i >> 8) * 13 + 1);
	for (i = 0; i < (int)sizeof(ent); i++)
		ent[i] = (uint8_t)(i * 11 + 3);
	if (write(fd, key[kind], l) != (ssize_t)l)
		abort();
	snprintf(nm, sizeof(nm), "/proc/self/fd/%d", fd);
	if ((PK = proto_crypt_secret(nm)) == NULL)
		nat_fail("C18,C05", "the key can not be read");
	close(fd);
	ref_sha256(key[kind], l, K);
}
static const uint8_t one[256] = { [255] = 1 };
static struct proto_keys * kc, * ks;
static struct rk rc, rs;
/* Fresh keys of a session without Diffie-Hellman. */
static void
session(void)
{
	static const uint8_t nl[32] = { 1, 2, 3 }, nr[32] = { 9, 8, 7, [31] = 6 };
	uint8_t yh[YH] = { 0 }, x[32] = { 0 };

	memcpy(yh, one, 256);
	if (proto_crypt_mkkeys(PK, nl, nr, yh, x, 1, 0, &kc, &ks))
		nat_fail("C05", "no keys");
	r_keys(nl, nr, one, &rc, &rs);
}
static void
endsession(void)
{

	proto_crypt_free(kc);
	proto_crypt_free(ks);
}
static void
same(const char * tags, struct proto_keys * k, const struct rk * r, uint64_t pn, size_t len, const char * what)
{
	uint8_t o[PCRYPT_ESZ], w[PCRYPT_ESZ];

	proto_crypt_enc(data, len, o, k);
	r_packet(r, pn, data, len, len, w);
	if (memcmp(o, w, PCRYPT_ESZ))
		nat_fail(tags, "%s: the packet is not the documented one", what);
	nat_trans(1);
}

/* --- keys --- */
static void
keys(long part)
{
	int kind = part % 3, decr = part / 3 % 2, nopfs = part / 6, v;
	uint8_t nl[32], nr[32], dl[32], dr[32], wc[32], ws[32], yh[YH], ysc[256], x[32];
	const uint8_t * nc = decr ? nr : nl, * ns = decr ? nl : nr;

	setup(kind);
	for (v = 0; v < 64 * 2 + 8; v++) {
		CASE("key %ld, role %ld, without pfs %ld, nonces %ld", kind, decr, nopfs, v);
		memset(nl, 0x33, 32);
		memset(nr, 0x44, 32);
		if (v < 128)
			(v % 64 < 32 ? nl : nr)[v % 32] ^= v < 64 ? 1 : 0x80;
		else if (v == 128)
			memset(nl, 0, 32);
		else if (v == 129)
			memset(nr, 0xff, 32);
		else if (v == 130)
			memcpy(nl, nr, 32);
		else if (v == 131)
			nl[0] = 0x55;
		proto_crypt_dhmac(PK, nl, nr, dl, dr, decr);
		r_dhmac(nc, ns, wc, ws);
		if (memcmp(dl, decr ? ws : wc, 32) || memcmp(dr, decr ? wc : ws, 32))
			nat_fail("C05", "the MAC keys for the Diffie-Hellman values are not the documented ones");
		/* Our own value. */
		memset(x, 0xa5, 32);
		entat = v;
		if (proto_crypt_dh_generate(yh, x, dl, nopfs))
			nat_fail("C05", "no Diffie-Hellman value");
		ref_hmac(dl, 32, yh, 256, wc);
		if (memcmp(wc, yh + 256, 32))
			nat_fail("C05", "our Diffie-Hellman value is not authenticated as documented");
		if (nopfs && memcmp(yh, one, 256))
			nat_fail("C05,C04", "y is not 1 though perfect forward secrecy is off");
		if (!nopfs) {
			uint8_t two[256] = { [255] = 2 }, w[256];

			r_modexp(two, x, w);
			if (memcmp(yh, w, 256))
				nat_fail("C05,C04,C23", "y is not 2^(2^258+x)");
		}
		/* The peer's. */
		memset(yh, 0, 256);
		yh[255] = v % 3 == 0 ? 1 : 5;
		yh[3] = v % 3 == 1 ? 0x11 : 0;
		if (nopfs)
			memcpy(ysc, one, 256);
		else
			r_modexp(yh, x, ysc);
		if (proto_crypt_mkkeys(PK, nl, nr, yh, x, nopfs, decr, &kc, &ks))
			nat_fail("C05", "no keys");
		r_keys(nc, ns, ysc, &rc, &rs);
		same("C05,C06", kc, &rc, 0, 5, "from the client");
		same("C05,C06", ks, &rs, 0, 7, "from the server");
		same("C05,C06", ks, &rs, 1, 1024, "from the server");
		nat_outcome(nat_hash(v, &rc, sizeof(rc)));
		endsession();
	}
	proto_crypt_secret_free(PK);
}
static long kparts(void) { return (12); }

/* --- authenticated Diffie-Hellman values --- */
static void
validate1(const uint8_t y[256], int gtp, const char * what)
{
	uint8_t yh[YH], mk[32];
	int is1 = memcmp(y, one, 256) == 0, g, rc;

	memset(mk, 0x42, 32);
	memcpy(yh, y, 256);
	ref_hmac(mk, 32, y, 256, yh + 256);
	for (g = 0; g < 2; g++) {
		rc = proto_crypt_dh_validate(yh, mk, g);
		if (rc == 0 && (gtp || (g && is1)))
			nat_fail("C04,C23", "%s: the bad value is accepted%s", what, g ? " though perfect forward secrecy is required" : "");
		if (rc && !gtp && !(g && is1))
			nat_fail("C04,C05", "%s: the good value is refused%s", what, g ? " when perfect forward secrecy is required" : "");
		nat_trans(1);
	}
}
static void
validate(long part)
{
	uint8_t y[256], yh[YH], mk[32];
	int i, v, l, g;

	setup(1);
	if (part == 8) {
		/* Every altered bit of the value, its MAC, and the MAC's key. */
		memset(mk, 0x42, 32);
		for (i = 0; i < 256; i++)
			yh[i] = (uint8_t)(i * 3 + 1);
		ref_hmac(mk, 32, yh, 256, yh + 256);
		for (i = 0; i < (YH + 32) * 8; i++)
			for (g = 0; g < 2; g++) {
				uint8_t * b = i < YH * 8 ? &yh[i / 8] : &mk[i / 8 - YH];

				CASE("bit %ld altered (pfs required: %ld)", i, g);
				*b ^= 1 << i % 8;
				if (proto_crypt_dh_validate(yh, mk, g) == 0)
					nat_fail("C03,C01", "a value with a wrong MAC is accepted");
				*b ^= 1 << i % 8;
				nat_trans(1);
			}
		/* Every two bytes of the MAC, every pattern of wrong ones at either end. */
		for (i = 0; i < 32; i++)
			for (l = 0; l < i; l++) {
				CASE("bytes %ld and %ld of the MAC altered in the same way", i, l);
				for (v = 1; v < 256; v++) {
					yh[256 + i] ^= v;
					yh[256 + l] ^= v;
					if (proto_crypt_dh_validate(yh, mk, 0) == 0)
						nat_fail("C03,C01", "a value with a wrong MAC is accepted");
					yh[256 + i] ^= v;
					yh[256 + l] ^= v;
				}
			}
		if (proto_crypt_dh_validate(yh, mk, 1) || proto_crypt_dh_validate(yh, mk, 0))
			nat_fail("C04,C05", "a good value is refused");
		return;
	}
	if (part == 9) {
		/* Around the modulus, and powers of two. */
		const uint8_t * p = ref_prime();

		for (i = 0; i < 2048; i++)
			for (v = 0; v < 3; v++) {
				BIGNUM * a = BN_new(), * q = BN_bin2bn(p, 256, NULL), * b = BN_new();

				CASE("bit %ld, %ld", i, v);
				BN_zero(b);
				BN_set_bit(b, i);
				BN_copy(a, q);
				if (v == 0)
					BN_copy(a, b);
				else if (v == 1)
					BN_sub(a, q, b);
				else
					BN_add(a, q, b);
				if (BN_num_bits(a) <= 2048) {
					BN_bn2binpad(a, y, 256);
					validate1(y, BN_cmp(a, q) >= 0, v == 0 ? "a power of two" : "p plus or minus a power of two");
				}
				BN_free(a);
				BN_free(b);
				BN_free(q);
			}
		CASE("p, 0 and all ones");
		validate1(p, 1, "p");
		memset(y, 0xff, 256);
		validate1(y, 1, "2^2048-1");
		return;
	}
	/* One byte set, and a last byte. */
	for (i = part; i < 255; i += 8)
		for (v = 0; v < 256; v++)
			for (l = 0; l < 3; l++) {
				if (i == 0 && v == 255)
					continue;
				CASE("byte %ld is %ld, the last one %ld", i, v, l);
				memset(y, 0, 256);
				y[i] = v;
				y[255] = l;
				validate1(y, 0, "one byte set");
			}
}
static long vparts(void) { return (10); }

/* --- packets --- */
static void
packets(long part)
{
	uint8_t o[PCRYPT_ESZ], w[PCRYPT_ESZ], back[1024 + 16], d[1024];
	size_t len, i;
	int fill, pn;

	setup(1);
	for (fill = part; fill < 4; fill += 4)
		for (len = 0; len <= 1024; len++) {
			uint8_t * ib = malloc(len ? len : 1);

			CASE("%ld bytes, contents %ld", len, fill);
			session();
			for (pn = 0; pn < 3; pn++) {
				for (i = 0; i < len; i++)
					ib[i] = fill == 0 ? data[i + pn] : fill == 1 ? 0 : fill == 2 ? 0xff : (uint8_t)(i >> 2);
				memcpy(d, ib, len);
				memset(o, 0xee, sizeof(o));
				proto_crypt_enc(ib, len, o, kc);
				r_packet(&rc, pn, d, len, len, w);
				if (memcmp(o, w, PCRYPT_ESZ))
					nat_fail("C05", "packet %d is not the documented one", pn);
				if (memcmp(ib, d, len))
					nat_fail("C02", "encrypting alters the data");
				/* Of the other direction, by the reference. */
				r_packet(&rs, pn, d, len, len, w);
				memset(back, 0xee, sizeof(back));
				if (len == 0) {
					if (proto_crypt_dec(w, back, ks) != -1)
						nat_fail("C05,C01", "an empty packet is accepted");
					break;
				}
				if (proto_crypt_dec(w, back, ks) != (ssize_t)len)
					nat_fail("C05,C02", "packet %d of %zu bytes is not accepted", pn, len);
				if (memcmp(back, d, len))
					nat_fail("C05,C01,C02", "packet %d of %zu bytes is decrypted to something else", pn, len);
				for (i = 1024; i < sizeof(back); i++)
					if (back[i] != 0xee)
						nat_fail("C14", "more than a packet's data is written");
				nat_trans(2);
			}
			nat_outcome(nat_hash(fill, o, 8));
			endsession();
			free(ib);
		}
}
static long pparts(void) { return (4); }

/* --- altered packets --- */
static void
tamper(long part)
{
	static const size_t lens[] = { 1, 2, 1023, 1024, 100, 512 };
	static uint8_t o[PCRYPT_ESZ], w[PCRYPT_ESZ], back[1024];
	size_t len = lens[part % 6];
	int pn = part / 6, i, b, v, j;

	setup(1);
	for (i = 0; i < PCRYPT_ESZ; i++)
		for (b = 0; b < 10; b++) {
			CASE("packet %ld of %ld bytes, byte %ld, alteration %ld", pn, len, i, b);
			session();
			for (j = 0; j <= pn; j++) {
				r_packet(&rc, j, data, len, len, o);
				if (j < pn && proto_crypt_dec(o, back, kc) != (ssize_t)len)
					nat_fail("C05", "a good packet is refused");
			}
			memcpy(w, o, PCRYPT_ESZ);
			w[i] = b < 8 ? w[i] ^ (1 << b) : b == 8 ? w[i] ^ 0xff : w[i] + 1;
			memset(back, 0xee, 1024);
			if (proto_crypt_dec(w, back, kc) != -1)
				nat_fail("C01,C03", "an altered packet is accepted");
			for (j = 0; j < 1024; j++)
				if (back[j] != 0xee)
					nat_fail("C01", "data of an altered packet is written");
			nat_trans(1);
			endsession();
		}
	/* Two bytes of the MAC altered so that sums and exclusive ors stay the same; swapped; only a part right. */
	session();
	r_packet(&rc, 0, data, len, len, o);
	for (i = 0; i < 32; i++)
		for (j = 0; j < i; j++) {
			CASE("packet of %ld bytes, bytes %ld and %ld of the MAC", len, i, j);
			for (v = 1; v < 256; v++) {
				for (b = 0; b < 2; b++) {
					memcpy(w, o, PCRYPT_ESZ);
					w[1028 + i] = b ? w[1028 + i] ^ v : w[1028 + i] + v;
					w[1028 + j] = b ? w[1028 + j] ^ v : w[1028 + j] - v;
					if (proto_crypt_dec(w, back, kc) != -1)
						nat_fail("C01,C03", "an altered packet is accepted");
				}
			}
		}
	endsession();
	nat_outcome(part);
}
static long tparts(void) { return (12); }

/* --- length fields --- */
static void
lengths(long part)
{
	static const uint8_t bs[] = { 0, 1, 3, 4, 5, 0x10, 0x7f, 0x80, 0xff };
	uint8_t w[PCRYPT_ESZ], back[1024 + 16];
	long n, lo = part < 8 ? part * 9000 : 0, hi = part < 8 ? lo + 9000 : 9 * 9 * 9 * 9;
	ssize_t r;
	uint32_t l;
	int i;

	setup(1);
	for (n = lo; n < hi; n++) {
		l = part < 8 ? n : (uint32_t)bs[n % 9] << 24 | bs[n / 9 % 9] << 16 | bs[n / 81 % 9] << 8 | bs[n / 729];
		CASE("length field %ld", l);
		session();
		r_packet(&rc, 0, data, 1024, l, w);
		memset(back, 0xee, sizeof(back));
		r = proto_crypt_dec(w, back, kc);
		if (l >= 1 && l <= 1024 ? r != (ssize_t)l : r != -1)
			nat_fail("C05,C01,C14", "a packet with length field %u gives %zd", l, r);
		if (r > 0 && memcmp(back, data, r))
			nat_fail("C01,C05", "a packet with length field %u gives other bytes", l);
		for (i = r > 0 ? 1024 : 0; i < (int)sizeof(back); i++)
			if (back[i] != 0xee)
				nat_fail("C01,C14", "a packet with length field %u: data is written", l);
		nat_trans(1);
		nat_outcome(r);
		endsession();
	}
}
static long lparts(void) { return (9); }

/* --- order --- */
static void
order(long part)
{
	static uint8_t pk[12][PCRYPT_ESZ], w[PCRYPT_ESZ], back[1024];
	static int seq[8];
	int i, n = nat_bound, pn, bad;
	long tot = 1, v;
	ssize_t r;

	/* 0-4 from the client, 5-8 from the server, 9 with another session's keys, 10 zeros, 11 the client's as the server's number. */
	setup(1);
	session();
	for (i = 0; i < 5; i++)
		r_packet(&rc, i, data + i, 10 + i, 10 + i, pk[i]);
	for (i = 5; i < 9; i++)
		r_packet(&rs, i - 5, data + i, 10 + i, 10 + i, pk[i]);
	rs.E[0] ^= 1;
	rs.H[0] ^= 1;
	r_packet(&rs, 0, data, 5, 5, pk[9]);
	memset(pk[10], 0, PCRYPT_ESZ);
	memset(pk[11], 0, PCRYPT_ESZ);
	memcpy(pk[11], pk[0], 1028);
	memcpy(pk[11] + 1028, pk[1] + 1028, 32);
	endsession();
	for (i = 0; i < n; i++)
		tot *= 12;
	for (v = part; v < tot; v += 8) {
		long x = v;

		for (i = 0; i < n; i++, x /= 12)
			seq[i] = x % 12;
		CASE("packets %ld %ld %ld %ld %ld", seq[0], seq[1], n > 2 ? seq[2] : -1, n > 3 ? seq[3] : -1, n > 4 ? seq[4] : -1);
		session();
		for (i = pn = bad = 0; i < n; i++) {
			memcpy(w, pk[seq[i]], PCRYPT_ESZ);
			r = proto_crypt_dec(w, back, kc);
			nat_trans(1);
			if (seq[i] == pn) {
				if (r != 10 + pn)
					nat_fail("C02,C05", "packet %d is refused in its place (%d before)", pn, i);
				if (memcmp(back, data + pn, 10 + pn))
					nat_fail("C01", "packet %d gives something else", pn);
				pn++;
			} else {
				if (r != -1)
					nat_fail("C01,C06", "packet %d is accepted in the place of packet %d", seq[i], pn);
				break;	/* the connection ends */
			}
		}
		nat_outcome(pn);
		nat_state(nat_hash(pn, seq, i * sizeof(int)));
		endsession();
	}
	proto_crypt_secret_free(PK);
}
static long oparts(void) { return (8); }

/* --- many packets --- */
static void
many(long part)
{
	static uint8_t o[PCRYPT_ESZ], w[PCRYPT_ESZ], back[1024];
	long n, N = (long)nat_bound * 1000;

	setup(1);
	session();
	for (n = 0; n < N; n++) {
		int check = n < 1000 || n % 251 == 0 || ((n + 3) & 0xff) < 6;

		CASE("packet %ld, direction %ld", n, part);
		if (part == 0) {
			proto_crypt_enc(data, 1 + n % 3, o, kc);
			if (check) {
				r_packet(&rc, n, data, 1 + n % 3, 1 + n % 3, w);
				if (memcmp(o, w, PCRYPT_ESZ))
					nat_fail("C05,C06", "packet %ld of a connection is not the documented one", n);
			}
		} else {
			r_packet(&rc, n, data, 1 + n % 3, 1 + n % 3, w);
			if (proto_crypt_dec(w, back, kc) != 1 + n % 3 || memcmp(back, data, 1 + n % 3))
				nat_fail("C05,C02", "packet %ld of a connection is not accepted", n);
		}
		nat_trans(1);
	}
	endsession();
	nat_outcome(part);
}
static long mparts(void) { return (2); }

/* --- no memory --- */
static void
oom(long part)
{
	static const uint8_t nl[32] = { 1 }, nr[32] = { 2 };
	uint8_t yh[YH] = { [255] = 2 }, x[32] = { 7 };
	long live;
	int n, rc;

	setup(1);
	for (n = 0; n < 40; n++) {
		CASE("the %ldth allocation fails, without pfs %ld", n, part);
		session();
		endsession();
		live = nat_live;
		nat_allocs = nat_failed = 0;
		nat_failat = n;
		rc = proto_crypt_mkkeys(PK, nl, nr, yh, x, part, 0, &kc, &ks);
		nat_failat = 0;
		if (rc && !nat_failed)
			nat_fail("C28", "no keys though nothing failed");
		if (!rc)
			endsession();
		if (part && nat_live != live)
			nat_fail("C28,C08", "%ld blocks of memory are left", nat_live - live);
		nat_trans(1);
		nat_outcome(n * 2 + !rc);
		if (n && !nat_failed)
			break;
	}
}
static long wparts(void) { return (2); }

static const struct nat_scenario scens[] = {
	{ "pc_keys", keys, kparts, 1, 1, "C05,C06" },
	{ "pc_validate", validate, vparts, 1, 1, "C04,C03,C23" },
	{ "pc_packets", packets, pparts, 1, 1, "C05,C02" },
	{ "pc_tamper", tamper, tparts, 1, 1, "C01,C03" },
	{ "pc_lengths", lengths, lparts, 1, 1, "C05,C01,C14" },
	{ "pc_order", order, oparts, 4, 5, "C01,C06" },
	{ "pc_many", many, mparts, 300, 17000, "C05,C06" },
	{ "pc_oom", oom, wparts, 1, 1, "C28" },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
