/* Diffie-Hellman: edge values against plain square-and-multiply; failures. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include <openssl/bn.h>
#include <openssl/crypto.h>
#include <openssl/err.h>

#include "crypto_dh.h"
#include "crypto_dh_group14.h"

#include "nat.h"

#define T "C23"

/* --- failures: of the nth call to OpenSSL, or of its nth allocation --- */
static long failcall, ncalls, failed;
static int armed;
static int
bad(void)
{

	if (!armed || ++ncalls != failcall)
		return (0);
	failed++;
	return (1);
}
#define W(rt, name, nul, pars, args) rt __real_BN_##name pars; rt __wrap_BN_##name pars { return (bad() ? nul : __real_BN_##name args); }
W(BIGNUM *, new, NULL, (void), ())
W(BIGNUM *, bin2bn, NULL, (const unsigned char * s, int n, BIGNUM * r), (s, n, r))
W(int, add, 0, (BIGNUM * r, const BIGNUM * a, const BIGNUM * b), (r, a, b))
W(int, sub, 0, (BIGNUM * r, const BIGNUM * a, const BIGNUM * b), (r, a, b))
W(int, mod_exp, 0, (BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * c), (r, a, p, m, c))
W(int, mod_mul, 0, (BIGNUM * r, const BIGNUM * a, const BIGNUM * b, const BIGNUM * m, BN_CTX * c), (r, a, b, m, c))
W(BN_CTX *, CTX_new, NULL, (void), ())
W(int, set_word, 0, (BIGNUM * r, BN_ULONG w), (r, w))

static long oallocs, ofailat, olive, ofailed;
static void *
omalloc(size_t n, const char * f, int l)
{
	void * p;

	if (n == 0)
		return (NULL);
	if (armed && ofailat && ++oallocs == ofailat) {
		ofailed++;
		return (NULL);
	}
	if ((p = malloc(n)) != NULL)
		olive++;
	return (p);
}
static void
ofree(void * p, const char * f, int l)
{

	if (p)
		olive--;
	free(p);
}
static void *
orealloc(void * p, size_t n, const char * f, int l)
{
	void * q;

	if (p == NULL)
		return (omalloc(n, f, l));
	if (n == 0) {
		ofree(p, f, l);
		return (NULL);
	}
	if (armed && ofailat && ++oallocs == ofailat) {
		ofailed++;
		return (NULL);
	}
	return (realloc(p, n));
}

/* --- entropy: as we choose --- */
static const uint8_t * ent[4];
static int nent, entfail;
static uint8_t entlog[4][32];
int
__wrap_crypto_entropy_read(uint8_t * b, size_t n)
{

	if (nent >= 4 || n > 32)
		nat_fail(T, "unexpected request for %zu random bytes", n);
	if (++nent == entfail) {
		failed++;
		return (-1);
	}
	memcpy(b, ent[nent - 1], n);
	memcpy(entlog[nent - 1], b, n);
	return (0);
}
void __wrap_libcperciva_warn(const char * f, ...) { (void)f; }
void __wrap_libcperciva_warnx(const char * f, ...) { (void)f; }

/* --- the reference: a^(2^258 + x) by squaring and multiplying --- */
static BIGNUM * P;
static BN_CTX * C;
static void
ref(uint8_t r[256], const uint8_t y[256], const uint8_t x[32])
{
	BIGNUM * a = __real_BN_bin2bn(y, 256, NULL), * v = __real_BN_new();
	int i;

	__real_BN_set_word(v, 1);
	for (i = 258; i >= 0; i--) {
		BN_mul(v, v, v, C);
		BN_mod(v, v, P, C);
		if (i == 258 || (i < 256 && (x[31 - i / 8] >> (i % 8) & 1))) {
			BN_mul(v, v, a, C);
			BN_mod(v, v, P, C);
		}
	}
	memset(r, 0, 256);
	BN_bn2bin(v, r + 256 - BN_num_bytes(v));
	BN_free(a);
	BN_free(v);
}

/* --- values --- */
static uint8_t privs[800][32], ys[64][256], two[256], blinds[8][32];
static int nprivs, nys, nblinds;
static void
setup(void)
{
	uint8_t * p;
	BIGNUM * t;
	int i, k;

	if (P)
		return;
	p = (uint8_t *)ref_prime();
	P = __real_BN_bin2bn(p, 256, NULL);
	C = __real_BN_CTX_new();
	t = __real_BN_new();
	two[255] = 2;
	/* 0, all ones, single bits, all but single bits, the low n bits, patterns. */
	nprivs++;
	memset(privs[nprivs++], 255, 32);
	for (i = 0; i < 32; i++) {
		privs[2][i] = (uint8_t)(i * 83 + 7);
		privs[3][i] = (uint8_t)(0xAA);
		privs[4][i] = (uint8_t)(255 - i * 29);
	}
	nprivs = 5;
	for (i = 0; i < 256; i++)
		privs[nprivs++][31 - i / 8] = 1 << i % 8;
	for (i = 0; i < 256; i++) {
		memset(privs[nprivs], 255, 32);
		privs[nprivs++][31 - i / 8] ^= 1 << i % 8;
	}
	for (i = 1; i < 256; i++, nprivs++)
		for (k = 0; k < i; k++)
			privs[nprivs][31 - k / 8] |= 1 << k % 8;
	memset(blinds[1], 255, 32);
	blinds[2][31] = 1;
	blinds[3][0] = 128;
	memcpy(blinds[4], privs[2], 32);
	memcpy(blinds[5], privs[3], 32);
	nblinds = 6;
	/* y: 0, 1, 2, 3, ..., powers of two, p - 1, p - 2, (p - 1) / 2, (p + 1) / 2, patterns. */
	for (i = 0; i < 5; i++)
		ys[nys++][255] = i;
	for (i = 8; i < 2048; i = i * 3 / 2 + 1)
		ys[nys++][255 - i / 8] = 1 << i % 8;
	ys[nys++][0] = 128;
	ys[nys++][0] = 1;
	for (i = 1; i < 6; i++) {
		BN_copy(t, P);
		BN_sub_word(t, i);
		BN_bn2bin(t, ys[nys++]);
		BN_sub_word(t, i == 1 ? 0 : 1);
		BN_rshift1(t, t);
		k = BN_num_bytes(t);
		BN_bn2bin(t, ys[nys++] + 256 - k);
	}
	for (i = 0; i < 256; i++) {
		ys[nys][i] = (uint8_t)(i * 71 + 3);
		ys[nys + 1][i] = i < 128 ? 0 : (uint8_t)(i * 13);
	}
	nys += 2;
	BN_free(t);
}

/* Call with exactly sized buffers; compare. */
static void
check(const char * what, int rc, const uint8_t * r, const uint8_t want[256])
{
	int i;

	if (rc)
		nat_fail(T, "%s fails without a reason", what);
	for (i = 0; i < 256; i++)
		if (r[i] != want[i])
			nat_fail(T, "%s is wrong from byte %d on", what, i);
	nat_trans(1);
	nat_state(nat_hash(1, r, 256));
	nat_outcome(nat_hash(r[0] == 0, r, 256));
}
static uint8_t *
dup(const void * p, size_t n)
{
	uint8_t * q = malloc(n);

	memcpy(q, p, n);
	return (q);
}

static long pparts(void) { return (16); }
static void
pub(long part)
{
	uint8_t want[256], * x, * r;
	int i, b;

	setup();
	for (i = (int)part; i < nprivs; i += 16) {
		ref(want, two, privs[i]);
		for (b = 0; b < (i < 5 || nat_thorough ? nblinds : 3); b++) {
			CASE("public value of private value %ld, blinding %ld", i, b);
			x = dup(privs[i], 32);
			r = dup(want, 256);
			memset(r, 0x5a, 256);
			ent[0] = blinds[(b + i) % nblinds];
			nent = 0;
			check("the public value", crypto_dh_generate_pub(r, x), r, want);
			if (memcmp(x, privs[i], 32))
				nat_fail(T, "the private value has been changed");
			free(x);
			free(r);
		}
		/* Generated together. */
		CASE("pair with private value %ld", i);
		x = malloc(32);
		r = malloc(256);
		ent[0] = privs[i];
		ent[1] = blinds[i % nblinds];
		nent = 0;
		b = crypto_dh_generate(r, x);
		if (b == 0 && memcmp(x, privs[i], 32) && (nent < 2 || memcmp(x, entlog[1], 32)))
			nat_fail(T, "the private value is not what the random generator gave");
		if (memcmp(x, privs[i], 32))
			ref(want, two, x);
		check("the public value", b, r, want);
		free(x);
		free(r);
	}
}
static void
shared(long part)
{
	uint8_t want[256], * x, * y, * r;
	int i, j, b, step = nat_thorough ? 1 : 4;

	setup();
	for (i = (int)part; i < nys; i += 16)
		for (j = 0; j < nprivs; j += j < 4 ? 1 : step) {
			CASE("shared value of public value %ld and private value %ld", i, j);
			ref(want, ys[i], privs[j]);
			for (b = 0; b < 2; b++) {
				x = dup(privs[j], 32);
				y = dup(ys[i], 256);
				r = malloc(256);
				memset(r, 0x5a, 256);
				ent[0] = blinds[(b + i + j) % nblinds];
				nent = 0;
				check("the shared value", crypto_dh_compute(y, x, r), r, want);
				if (memcmp(x, privs[j], 32) || memcmp(y, ys[i], 256))
					nat_fail(T, "the arguments have been changed");
				free(x);
				free(y);
				free(r);
			}
		}
}
static void
both(long part)
{
	uint8_t p1[256], p2[256], k1[256], k2[256];
	int i, j, step = nat_thorough ? 3 : 11;

	setup();
	for (i = (int)part; i < nprivs; i += i < 5 ? 1 : step)
		for (j = i; j < nprivs; j += j < 5 ? 1 : step) {
			CASE("both ends of an exchange, private values %ld and %ld", i, j);
			ent[0] = blinds[i % nblinds];
			nent = 0;
			if (crypto_dh_generate_pub(p1, privs[i]))
				nat_fail(T, "crypto_dh_generate_pub fails without a reason");
			nent = 0;
			if (crypto_dh_generate_pub(p2, privs[j]))
				nat_fail(T, "crypto_dh_generate_pub fails without a reason");
			nent = 0;
			if (crypto_dh_compute(p1, privs[j], k1))
				nat_fail(T, "crypto_dh_compute fails without a reason");
			nent = 0;
			if (crypto_dh_compute(p2, privs[i], k2))
				nat_fail(T, "crypto_dh_compute fails without a reason");
			if (memcmp(k1, k2, 256))
				nat_fail(T, "the two ends compute different values");
			if (crypto_dh_sanitycheck(p1) || crypto_dh_sanitycheck(p2))
				nat_fail(T, "a public value is not accepted");
			nat_trans(4);
			nat_state(nat_hash(2, k1, 256));
			nat_outcome(nat_hash(3, k1, 256));
		}
}
static void
sane(const uint8_t * v)
{
	const uint8_t * p = ref_prime();
	uint8_t * e = dup(v, 256);
	int i, less = 0;

	for (i = 0; i < 256 && v[i] == p[i]; i++)
		continue;
	less = i < 256 && v[i] < p[i];
	if ((crypto_dh_sanitycheck(e) == 0) != less)
		nat_fail(T, "a value which is %s is %s (first difference in byte %d)", less ? "below p" : "not below p",
		    less ? "refused" : "accepted", i);
	nat_trans(1);
	nat_state(nat_hash(4, v, 256));
	nat_outcome(less * 1000 + i);
	free(e);
}
static void
sanity(long part)
{
	uint8_t p[256], v[256];
	int i, j, k;

	memcpy(p, ref_prime(), 256);
	if (memcmp(p, crypto_dh_group14, 256))
		nat_fail(T, "the group's prime is wrong");
	for (i = (int)part; i < 256; i += 16) {
		CASE("values which differ from p from byte %ld on", i);
		for (j = 0; j < 256; j++) {
			memcpy(v, p, 256);
			v[i] = j;
			sane(v);
			for (k = 0; k < 3; k++) {
				memset(v + i + 1, k == 0 ? 0 : k == 1 ? 255 : p[i] ^ 1, 255 - i);
				sane(v);
			}
		}
		for (j = i; j < 256; j++)
			for (k = 0; k < 64; k++) {
				memcpy(v, p, 256);
				v[i] ^= 1 << k % 8;
				v[j] ^= 1 << k / 8;
				sane(v);
			}
	}
	memset(v, 0, 256);
	sane(v);
}
/* Every call to the library, or every allocation in it, fails in turn. */
static int
op(int what, uint8_t r[256], uint8_t x[32], int xi, int yi)
{
	int rc;

	ent[0] = what == 1 ? privs[xi] : blinds[xi % nblinds];
	ent[1] = blinds[yi % nblinds];
	nent = 0;
	ncalls = oallocs = failed = ofailed = 0;
	armed = 1;
	rc = what == 0 ? crypto_dh_generate_pub(r, privs[xi]) : what == 1 ? crypto_dh_generate(r, x) :
	    crypto_dh_compute(ys[yi], privs[xi], r);
	armed = 0;
	return (rc);
}
static void
faults(long part)
{
	uint8_t want[256], r[256], x[32];
	int what = (int)part % 3, mode = (int)part / 3, xi, yi, rc, n;
	long live;

	CRYPTO_set_mem_functions(omalloc, orealloc, ofree);
	setup();
	failcall = 1;
	op(what, r, x, 0, 0);		/* (what OpenSSL keeps) */
	failcall = 0;
	ERR_clear_error();
	for (xi = 0; xi < 5; xi++)
		for (yi = 0; yi < nys; yi += 8) {
			ref(want, what == 2 ? ys[yi] : two, privs[xi]);
			for (n = 1; ; n++) {
				CASE("operation %ld (private value %ld, public %ld): failure %ld (%ld)", what, xi, yi, n, mode);
				memset(r, 0x5a, 256);
				failcall = mode == 0 ? n : 0;
				ofailat = mode == 1 ? n : 0;
				entfail = mode == 2 ? n : 0;
				ERR_clear_error();
				live = olive;
				rc = op(what, r, x, xi, yi);
				ERR_clear_error();
				if (olive != live)
					nat_fail(T, "%ld allocations of OpenSSL are left over (result %d)", olive - live, rc);
				if (rc == 0 && failed)
					nat_fail(T, "success although something failed");
				if (rc == 0 && memcmp(r, want, 256))
					nat_fail(T, "a wrong value");
				if (rc && !failed && !ofailed)
					nat_fail(T, "failure without a reason");
				nat_trans(1);
				nat_state(nat_hash(part * 1000 + n, &rc, sizeof(rc)));
				nat_outcome(n * 2 + !rc);
				if (!failed && !ofailed)
					break;
			}
			entfail = 0;
		}
}
static long fparts(void) { return (9); }

static const struct nat_scenario scens[] = {
	{ "dh_pub", pub, pparts, 772, 772, T },
	{ "dh_shared", shared, pparts, 30, 772, T },
	{ "dh_both", both, pparts, 30, 90, T },
	{ "dh_sanity", sanity, pparts, 2, 2, T },
	{ "dh_faults", faults, fparts, 1, 1, T },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
