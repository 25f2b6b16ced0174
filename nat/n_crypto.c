#define _GNU_SOURCE
/* Hashes and ciphers: every length, split, alignment and code path. */
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_verify_bytes.h"
#include "sha256.h"

#include "nat.h"

#define T "C25"
/* What the CPU can do, as far as the code may know. */
static int mask;
enum { M_SSE2 = 1, M_SSSE3 = 2, M_SHANI = 4, M_AESNI = 8 };
int __real_cpusupport_x86_sse2_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_ssse3_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_shani_detect_1(void) __attribute__((weak));
int __real_cpusupport_x86_aesni_detect_1(void) __attribute__((weak));
int __wrap_cpusupport_x86_sse2_detect_1(void) { return ((mask & M_SSE2) && __real_cpusupport_x86_sse2_detect_1()); }
int __wrap_cpusupport_x86_ssse3_detect_1(void) { return ((mask & M_SSSE3) && __real_cpusupport_x86_ssse3_detect_1()); }
int __wrap_cpusupport_x86_shani_detect_1(void) { return ((mask & M_SHANI) && __real_cpusupport_x86_shani_detect_1()); }
int __wrap_cpusupport_x86_aesni_detect_1(void) { return ((mask & M_AESNI) && __real_cpusupport_x86_aesni_detect_1()); }

static const int shamasks[] = { 0, M_SSE2, M_SSE2 | M_SSSE3 | M_SHANI };
static const int aesmasks[] = { 0, M_AESNI };

static uint8_t
pt(size_t i)
{

	return ((uint8_t)((i * 167 + (i >> 8) * 59 + (i >> 16) * 3 + 11) ^ (i >> 3)));
}
/* An exactly sized copy of the pattern, at a given misalignment. */
static uint8_t * base;
static uint8_t *
mk(size_t n, int align)
{
	size_t i;

	base = malloc(n + align);
	for (i = 0; i < n; i++)
		base[align + i] = pt(i);
	return (base + align);
}
static void
same(const char * what, const uint8_t * a, const uint8_t * b, size_t n)
{
	size_t i;

	nat_outcome(nat_hash(7, a, n));
	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			nat_fail(T, "%s is wrong from byte %zu on", what, i);
}

/* --- SHA-256: all lengths and alignments, all divisions into two calls --- */
static long shap(void) { return (3 * 16); }
static void
sha_len(long part)
{
	size_t n, max = (size_t)nat_bound;
	int al = (int)(part % 16);
	uint8_t d[32], r[32], * p;
	SHA256_CTX c;

	mask = shamasks[part / 16];
	for (n = 0; n <= max; n++) {
		CASE("SHA256 of %ld bytes, misaligned by %ld, path %ld", n, al, mask);
		p = mk(n, al);
		ref_sha256(p, n, r);
		SHA256_Buf(p, n, d);
		same("SHA256_Buf", d, r, 32);
		SHA256_Init(&c);
		SHA256_Update(&c, p, n);
		SHA256_Final(d, &c);
		same("SHA256", d, r, 32);
		nat_state(nat_hash(n * 16 + al, r, 32));
		nat_trans(2);
		free(base);
	}
}

static long splp(void) { return (3 * 33); }
static void
sha_split(long part)
{
	static const size_t l3[] = { 0, 1, 7, 8, 31, 32, 55, 56, 57, 63, 64, 65, 71, 119, 120, 127, 128, 129, 191, 192, 193, 256 };
	size_t a, b, i, j, k, m = sizeof(l3) / sizeof(l3[0]), max = (size_t)nat_bound;
	uint8_t d[32], r[32], * p;
	SHA256_CTX c;

	mask = shamasks[part / 33];
	if (part % 33 < 11) {
		for (a = part % 11; a <= max; a += 11)
			for (b = 0; a + b <= max; b++) {
				CASE("SHA256 of %ld + %ld bytes, path %ld", a, b, mask);
				p = mk(a + b, 0);
				ref_sha256(p, a + b, r);
				SHA256_Init(&c);
				SHA256_Update(&c, p, a);
				nat_state(nat_hash(mask, &c, sizeof(c)));
				SHA256_Update(&c, p + a, b);
				SHA256_Final(d, &c);
				same("SHA256", d, r, 32);
				nat_trans(3);
				free(base);
			}
		return;
	}
	for (i = part % 33 - 11; i < m; i += 22)
		for (j = 0; j < m; j++)
			for (k = 0; k < m; k++) {
				size_t x = l3[i], y = l3[j], z = l3[k], q;

				CASE("SHA256 of %ld + %ld + %ld bytes and single bytes, path %ld", x, y, z, mask);
				p = mk(x + y + z + 3, 0);
				ref_sha256(p, x + y + z + 3, r);
				SHA256_Init(&c);
				SHA256_Update(&c, p, x);
				SHA256_Update(&c, p + x, y);
				SHA256_Update(&c, p + x + y, z);
				for (q = 0; q < 3; q++)
					SHA256_Update(&c, p + x + y + z + q, 1);
				nat_state(nat_hash(mask, &c, sizeof(c)));
				SHA256_Final(d, &c);
				same("SHA256", d, r, 32);
				nat_trans(7);
				free(base);
			}
}

/* Where the bit count and the lengths no longer fit into 32 bits. */
static long bigp(void) { return (13); }
static void
sha_big(long part)
{
	static const uint64_t lens[] = { (1ULL << 29) - 1, 1ULL << 29, (1ULL << 29) + 65 };
	static uint8_t buf[1 << 16];
	uint8_t d[32], r[32], * z;
	SHA256_CTX c;
	void * rc;
	uint64_t n, l;
	int i;

	for (i = 0; i < (1 << 16); i++)
		buf[i] = pt(i);
	if (part >= 4) {
		part -= 4;
		mask = shamasks[2 - part / 3];
		l = lens[part % 3];
		CASE("SHA256 of %ld bytes in pieces, path %ld", l, mask);
		SHA256_Init(&c);
		rc = ref_sha_init();
		for (n = 0; n < l; n += sizeof(buf)) {
			size_t k = l - n < sizeof(buf) ? l - n : sizeof(buf);

			SHA256_Update(&c, buf, k);
			ref_sha_update(rc, buf, k);
		}
		nat_state(nat_hash(mask, &c, sizeof(c)));
		SHA256_Final(d, &c);
		ref_sha_final(rc, r);
		same("SHA256", d, r, 32);
		nat_trans(l >> 16);
		return;
	}
	/* One call with more than 4 GB. */
	mask = shamasks[2];
	if (part == 0 || nat_thorough) {
		l = (1ULL << 32) + part * 63;
		z = mmap(NULL, l, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (z == MAP_FAILED)
			return;
		CASE("SHA256 of %ld bytes after %ld, path %ld", l, part, mask);
		SHA256_Init(&c);
		SHA256_Update(&c, buf, part);
		SHA256_Update(&c, z, l);
		SHA256_Final(d, &c);
		rc = ref_sha_init();
		ref_sha_update(rc, buf, part);
		ref_sha_update(rc, z, l);
		ref_sha_final(rc, r);
		same("SHA256", d, r, 32);
		nat_trans(3);
		munmap(z, l);
	}
}

/* --- HMAC and PBKDF2 --- */
static long hmp(void) { return (3 * 16); }
static void
hmac(long part)
{
	static const size_t ml[] = { 0, 1, 31, 32, 55, 56, 63, 64, 65, 127, 128, 200 };
	size_t kl, i, s, kmax = (size_t)nat_bound;
	uint8_t d[32], r[32], * k, * m, * kb;
	HMAC_SHA256_CTX c;

	mask = shamasks[part / 16];
	for (kl = part % 16; kl <= kmax; kl += 16)
		for (i = 0; i < sizeof(ml) / sizeof(ml[0]); i++) {
			m = mk(ml[i], 1);
			kb = base;
			k = mk(kl, 0);
			ref_hmac(k, kl, m, ml[i], r);
			for (s = 0; s <= ml[i]; s += (s < 2 || ml[i] - s < 3) ? 1 : 13) {
				CASE("HMAC-SHA256, key of %ld bytes, %ld bytes after %ld, path %ld", kl, ml[i] - s, s, mask);
				HMAC_SHA256_Init(&c, k, kl);
				HMAC_SHA256_Update(&c, m, s);
				nat_state(nat_hash(mask, &c, sizeof(c)));
				HMAC_SHA256_Update(&c, m + s, ml[i] - s);
				HMAC_SHA256_Final(d, &c);
				same("HMAC", d, r, 32);
				nat_trans(4);
			}
			HMAC_SHA256_Buf(k, kl, m, ml[i], d);
			same("HMAC_SHA256_Buf", d, r, 32);
			free(base);
			free(kb);
		}
}

static long pbp(void) { return (3 * 7); }
static void
pbkdf2(long part)
{
	static const size_t pl[] = { 0, 1, 32, 63, 64, 65, 130 }, sl[] = { 0, 1, 51, 52, 60, 64, 100 };
	size_t n, j, nmax = (size_t)nat_bound;
	int c;
	uint8_t * d, r[200], * p, * s, * pb;

	mask = shamasks[part / 7];
	p = mk(pl[part % 7], 0);
	pb = base;
	for (j = 0; j < 7; j++)
		for (c = 1; c <= 3; c++)
			for (n = 1; n <= nmax; n++) {
				CASE("PBKDF2: password %ld, salt %ld, %ld rounds, %ld bytes, path %ld", pl[part % 7], sl[j], c, n, mask);
				s = mk(sl[j], 0);
				d = malloc(n);
				ref_pbkdf2(p, pl[part % 7], s, sl[j], c, r, n);
				PBKDF2_SHA256(p, pl[part % 7], s, sl[j], c, d, n);
				same("PBKDF2", d, r, n);
				nat_state(nat_hash(c, r, n));
				nat_trans(1);
				free(d);
				free(base);
			}
	free(pb);
}

/* --- AES --- */
static void
mkkey(uint8_t * k, size_t kl, int kind)
{
	size_t i;

	memset(k, 0, kl);
	if (kind == 0)
		return;
	if (kind == 1)
		memset(k, 0xff, kl);
	else if (kind == 2)
		for (i = 0; i < kl; i++)
			k[i] = pt(i + 99);
	else
		k[(kind - 3) / 8] = (uint8_t)(0x80 >> ((kind - 3) % 8));
}
static long aesp(void) { return (2 * 2 * 4); }
static void
aes(long part)
{
	int kind, b;
	size_t kl = part / 4 % 2 ? 32 : 16;
	uint8_t * k, * in, r[16];
	struct crypto_aes_key * K;
	long live = 0;

	mask = aesmasks[part / 8];
	for (kind = (int)(part % 4); kind < 3 + (int)kl * 8; kind += 4) {
		k = malloc(kl);
		mkkey(k, kl, kind);
		if ((K = crypto_aes_key_expand(k, kl)) == NULL)
			nat_fail(T, "crypto_aes_key_expand failed");
		for (b = 0; b < 130; b++) {
			uint8_t * out = malloc(16);

			CASE("AES-%ld, key kind %ld, block kind %ld, path %ld", kl * 8, kind, b, mask);
			in = malloc(16);
			mkkey(in, 16, b < 128 + 3 ? b : 2);
			ref_aes(k, kl, in, r);
			crypto_aes_encrypt_block(in, out, K);
			same("AES", out, r, 16);
			crypto_aes_encrypt_block(in, in, K);
			same("AES in place", in, r, 16);
			nat_state(nat_hash(kl, r, 16));
			nat_trans(2);
			free(out);
			free(in);
		}
		crypto_aes_key_free(K);
		free(k);
		if (kind < 4)
			live = nat_live;
		else if (nat_live != live)
			nat_fail(T, "crypto_aes_key_free leaves something behind");
	}
	crypto_aes_key_free(NULL);
	/* Allocation failure. */
	k = malloc(kl);
	mkkey(k, kl, 2);
	live = nat_live;
	CASE("AES-%ld key expansion without memory, path %ld", kl * 8, mask);
	nat_failat = 1;
	K = crypto_aes_key_expand(k, kl);
	nat_failat = 0;
	if (K != NULL || nat_live != live)
		nat_fail(T, "crypto_aes_key_expand without memory");
	free(k);
}

static struct crypto_aes_key * K;
static uint8_t key[32];
static size_t kl;
static void
setup(int m, size_t n)
{

	mask = m;
	kl = n;
	mkkey(key, kl, 2);
	if ((K = crypto_aes_key_expand(key, kl)) == NULL)
		nat_fail(T, "crypto_aes_key_expand failed");
}
static const uint64_t nonces[] = { 0, 1, 255, 0x0102030405060708ULL, 0x8000000000000000ULL, UINT64_MAX };

/* All divisions of a stream into three calls. */
static long ctrp(void) { return (2 * 2 * 16); }
static void
ctr_split(long part)
{
	size_t a, b, c, n, m = (size_t)nat_bound, st;
	struct crypto_aesctr * s;
	uint8_t * in, * out, r[700];
	int how;

	setup(aesmasks[part / 32], part / 16 % 2 ? 32 : 16);
	for (a = part % 16; a <= m; a += 16)
		for (b = 0; b <= m; b++)
			for (c = 0, st = 1; c <= m; c += st) {
				how = (int)((a + b + c) % 3);
				CASE("AES-%ld-CTR: %ld + %ld + %ld bytes, path %ld, placement %ld", kl * 8, a, b, c, mask, how);
				n = a + b + c;
				in = mk(n, how);
				ref_ctr(key, kl, nonces[(a + b) % 6], 0, in, r, n);
				out = how == 0 ? in : (uint8_t *)malloc(n ? n : 1);
				if ((s = crypto_aesctr_init(K, nonces[(a + b) % 6])) == NULL)
					nat_fail(T, "crypto_aesctr_init failed");
				crypto_aesctr_stream(s, in, out, a);
				crypto_aesctr_stream(s, in + a, out + a, b);
				crypto_aesctr_stream(s, in + a + b, out + a + b, c);
				crypto_aesctr_free(s);
				same("the stream", out, r, n);
				nat_state(nat_hash(n, r, n));
				nat_trans(3);
				if (out != in)
					free(out);
				free(base);
			}
	crypto_aes_key_free(K);
	if (nat_live != 0)
		nat_fail(T, "%ld allocations are left over", nat_live);
}

/* All lengths in one call; reuse of a stream for another nonce and key. */
static void
ctr_len(long part)
{
	size_t n, m = (size_t)nat_bound, i;
	struct crypto_aesctr * s;
	struct crypto_aes_key * K2;
	uint8_t * in, * out, r[9100], key2[32];

	setup(aesmasks[part / 32], part / 16 % 2 ? 32 : 16);
	mkkey(key2, 32, 5);
	K2 = crypto_aes_key_expand(key2, 32);
	s = crypto_aesctr_alloc();
	if (s == NULL || K2 == NULL)
		nat_fail(T, "no memory?");
	crypto_aesctr_init2(s, K, 77);
	for (n = part % 16; n <= m; n += 16)
		for (i = 0; i < 6; i++) {
			CASE("AES-%ld-CTR: %ld bytes, nonce %lx, path %ld", kl * 8, n, nonces[i], mask);
			in = mk(n, (int)i);
			out = malloc(n ? n : 1);
			ref_ctr(key, kl, nonces[i], 0, in, r, n);
			crypto_aesctr_buf(K, nonces[i], in, out, n);
			same("crypto_aesctr_buf", out, r, n);
			/* The same stream object, from whatever state it is in. */
			crypto_aesctr_init2(s, NULL, nonces[i]);
			crypto_aesctr_stream(s, in, out, n);
			same("a reused stream", out, r, n);
			crypto_aesctr_init2(s, K2, nonces[i]);
			crypto_aesctr_stream(s, in, out, n);
			ref_ctr(key2, 32, nonces[i], 0, in, r, n);
			same("a stream with a new key", out, r, n);
			crypto_aesctr_init2(s, K, nonces[(i + 1) % 6]);
			crypto_aesctr_stream(s, in, in, n % 37);
			nat_state(nat_hash(n, r, n));
			nat_trans(4);
			free(out);
			free(base);
		}
	crypto_aesctr_free(s);
	crypto_aesctr_free(NULL);
	crypto_aes_key_free(K);
	crypto_aes_key_free(K2);
}

/* The counter's carries: runs around the multiples of 256 and 65536 blocks. */
static long carryp(void) { return (2 * 17 * 2); }
static void
ctr_carry(long part)
{
	static const size_t chunk[] = { 4096, 16, 15, 17, 1000, 1, 31, 4095, 4097, 48, 33, 1060, 8192, 65536, 64, 3, 100 };
	size_t max = part % 2 ? (1 << 20) + 5000 : 4096 * 3 + 100, ch = chunk[part / 2 % 17], n, k;
	uint8_t * in = malloc(max), * out = malloc(max), * r = malloc(max);
	struct crypto_aesctr * s;
	uint64_t nonce = nonces[part % 6];

	setup(aesmasks[part / 34], 32);
	
	for (n = 0; n < max; n++)
		in[n] = pt(n);
	CASE("AES-256-CTR: %ld bytes in pieces of %ld, path %ld", max, ch, mask);
	ref_ctr(key, kl, nonce, 0, in, r, max);
	if ((s = crypto_aesctr_init(K, nonce)) == NULL)
		nat_fail(T, "crypto_aesctr_init failed");
	for (n = 0; n < max; n += k) {
		k = max - n < ch ? max - n : ch;
		crypto_aesctr_stream(s, in + n, out + n, k);
		nat_trans(1);
		nat_state(nat_hash(n, r + n, k < 16 ? k : 16));
	}
	same("the stream", out, r, max);
	crypto_aesctr_free(s);
	/* One call across the boundary from every distance below two blocks. */
	for (k = 0; k < 40 && !(part % 2); k++) {
		CASE("AES-256-CTR: %ld bytes, then the rest up to %ld, path %ld", 4096 - k, max, mask);
		memset(out, 0, max);
		s = crypto_aesctr_init(K, nonce);
		crypto_aesctr_stream(s, in, out, 4096 - k);
		crypto_aesctr_stream(s, in + 4096 - k, out + 4096 - k, ch > 5000 ? 5000 : ch);
		n = 4096 - k + (ch > 5000 ? 5000 : ch);
		crypto_aesctr_stream(s, in + n, out + n, max - n);
		same("the stream", out, r, max);
		nat_trans(3);
		crypto_aesctr_free(s);
	}
done:
	crypto_aes_key_free(K);
	free(in); free(out); free(r);
}

/* Carries into the higher bytes of the counter. */
static long ctrbp(void) { return (nat_thorough ? 4 : 3); }
static void
ctr_big(long part)
{
	static uint8_t in[1 << 16], out[1 << 16], r[1 << 16];
	struct crypto_aesctr * s;
	uint64_t lim = part == 3 ? 1ULL << 36 : 1ULL << 28, n, m;

	setup(aesmasks[part == 0 ? 0 : 1], 32);
	if (part == 2) {
		/* One call with more than 4 GB: the same page pile over and over. */
		size_t pile = 1 << 22, l = (1ULL << 32) + pile;
		uint8_t * b;
		int fd;

		if (!crypto_aes_can_use_intrinsics() || (fd = memfd_create("x", 0)) == -1 || ftruncate(fd, pile))
			return;
		b = mmap(NULL, l, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (n = 0; n < l; n += pile)
			if (mmap(b + n, pile, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
				return;
		CASE("AES-256-CTR: %ld bytes at once, path %ld", l, mask);
		if ((s = crypto_aesctr_init(K, nonces[3])) == NULL)
			nat_fail(T, "crypto_aesctr_init failed");
		crypto_aesctr_stream(s, b, b, l);
		memcpy(out, in, 1000);
		crypto_aesctr_stream(s, in, out, 1000);
		ref_ctr(key, kl, nonces[3], l, in, r, 1000);
		same("the stream", out, r, 1000);
		crypto_aesctr_free(s);
		crypto_aes_key_free(K);
		nat_trans(2);
		return;
	}
	if (part == 3 && !crypto_aes_can_use_intrinsics())
		return;
	CASE("AES-256-CTR: the stream around byte %ld, path %ld", lim, mask);
	if ((s = crypto_aesctr_init(K, nonces[3])) == NULL)
		nat_fail(T, "crypto_aesctr_init failed");
	for (n = 0; n <= lim; n += sizeof(in)) {
		crypto_aesctr_stream(s, in, out, sizeof(in));
		m = n & (n - 1);
		if (m == 0 || n + sizeof(in) == lim || n == lim) {
			ref_ctr(key, kl, nonces[3], n, in, r, sizeof(in));
			same("the stream", out, r, sizeof(in));
			nat_state(n);
		}
		nat_trans(1);
	}
	crypto_aesctr_stream(s, in, out, 4097);
	ref_ctr(key, kl, nonces[3], n, in, r, 4097);
	same("the stream", out, r, 4097);
	crypto_aesctr_free(s);
	crypto_aes_key_free(K);
}

/* Comparison: any difference must be seen. */
static void
verify(long part)
{
	size_t n, i, j;
	int b, c;
	uint8_t * x, * y;

	(void)part;
	for (n = 0; n <= 40; n++) {
		x = malloc(n ? n : 1);
		y = malloc(n ? n : 1);
		for (i = 0; i < n; i++)
			x[i] = y[i] = pt(i);
		CASE("crypto_verify_bytes of %ld equal bytes", n);
		nat_outcome(n);
		if (crypto_verify_bytes(x, y, n))
			nat_fail(T, "equal buffers compare unequal");
		for (i = 0; i < n; i++)
			for (b = 0; b < 8; b++) {
				CASE("crypto_verify_bytes of %ld bytes, bit %ld of byte %ld differs", n, b, i);
				y[i] ^= 1 << b;
				if (!crypto_verify_bytes(x, y, n))
					nat_fail(T, "unequal buffers compare equal");
				nat_state(n * 1000 + i * 8 + b);
				nat_trans(1);
				for (j = i + 1; j < n; j++)
					for (c = 0; c < 8; c++) {
						y[j] ^= 1 << c;
						if (!crypto_verify_bytes(x, y, n))
							nat_fail(T, "buffers which differ in bytes %zu and %zu compare equal", i, j);
						nat_trans(1);
						y[j] ^= 1 << c;
					}
				y[i] ^= 1 << b;
			}
		free(x);
		free(y);
	}
}

static const struct nat_scenario scens[] = {
	{ "sha_len", sha_len, shap, 1300, 5000, T },
	{ "sha_split", sha_split, splp, 400, 1200, T },
	{ "hmac", hmac, hmp, 300, 1500, T },
	{ "pbkdf2", pbkdf2, pbp, 100, 200, T },
	{ "aes", aes, aesp, 256, 256, T },
	{ "ctr_len", ctr_len, ctrp, 1300, 9000, T },
	{ "ctr_split", ctr_split, ctrp, 120, 200, T },
	{ "ctr_carry", ctr_carry, carryp, 65537, 65537, T },
	{ "ctr_big", ctr_big, ctrbp, 28, 36, T },
	{ "verify", verify, NULL, 40, 40, T },
	{ "sha_big", sha_big, bigp, 1, 2, T },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
