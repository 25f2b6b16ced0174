/* Command lines, numbers, addresses: every input up to a length, against what the headers say. */
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <ctype.h>
#include <limits.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "getopt.h"
#include "parsenum.h"
#include "sock.h"
#include "sock_util.h"
#include "asprintf.h"

#include "nat.h"

void __wrap_libcperciva_warn(const char * f, ...) { (void)f; }
void __wrap_libcperciva_warnx(const char * f, ...) { (void)f; }

/* --- command lines --- */
enum { E_OPT, E_ARG, E_MISSING, E_DEFAULT };
struct ev { int kind; char os[32]; char arg[32]; int hasarg; };
#define NEV 64
static struct ev got[NEV], want[NEV];
static int ngot, nwant, gotind, wantind, stopat;

static void
emit(int kind, const char * os, const char * arg)
{
	struct ev * e = &got[ngot++];

	if (ngot == NEV)
		nat_fail("C32", "getopt does not come to an end");
	e->kind = kind;
	snprintf(e->os, sizeof(e->os), "%s", os);
	e->hasarg = arg != NULL;
	snprintf(e->arg, sizeof(e->arg), "%s", arg ? arg : "");
}
static void
parse_both(int argc, char ** argv)
{
	const char * ch;

	ngot = 0;
	optreset = 1;
	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPT("-a"):
			emit(E_OPT, "-a", optarg);
			break;
		GETOPT_OPT("-b"):
			emit(E_OPT, "-b", optarg);
			break;
		GETOPT_OPTARG("-x"):
			emit(E_ARG, "-x", optarg);
			break;
		GETOPT_OPTARG("--bar"):
			emit(E_ARG, "--bar", optarg);
			break;
		GETOPT_OPT("--foo"):
			emit(E_OPT, "--foo", optarg);
			break;
		GETOPT_OPT("--foobar"):
			emit(E_OPT, "--foobar", optarg);
			break;
		GETOPT_OPTARG("--b"):
			emit(E_ARG, "--b", optarg);
			break;
		GETOPT_MISSING_ARG:
			emit(E_MISSING, ch, optarg);
			break;
		GETOPT_DEFAULT:
			emit(E_DEFAULT, ch, NULL);
			break;
		}
		if (stopat && ngot == stopat)
			return;
	}
	gotind = optind;
}
/* Without GETOPT_MISSING_ARG; options in another order. */
static void
parse_def(int argc, char ** argv)
{
	const char * ch;

	ngot = 0;
	optreset = 1;
	opterr = 0;
	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPTARG("--b"):
			emit(E_ARG, "--b", optarg);
			break;
		GETOPT_OPT("--foobar"):
			emit(E_OPT, "--foobar", optarg);
			break;
		GETOPT_OPTARG("-x"):
			emit(E_ARG, "-x", optarg);
			break;
		GETOPT_OPT("--foo"):
			emit(E_OPT, "--foo", optarg);
			break;
		GETOPT_OPT("-b"):
			emit(E_OPT, "-b", optarg);
			break;
		GETOPT_OPTARG("--bar"):
			emit(E_ARG, "--bar", optarg);
			break;
		GETOPT_OPT("-a"):
			emit(E_OPT, "-a", optarg);
			break;
		GETOPT_DEFAULT:
			emit(E_DEFAULT, ch, NULL);
			break;
		}
		if (stopat && ngot == stopat)
			return;
	}
	gotind = optind;
}

/* What the header says. */
static void
wemit(int kind, const char * os, const char * arg)
{
	struct ev * e = &want[nwant++];

	e->kind = kind;
	snprintf(e->os, sizeof(e->os), "%s", os);
	e->hasarg = arg != NULL;
	snprintf(e->arg, sizeof(e->arg), "%s", arg ? arg : "");
}
static void
reference(int argc, char ** argv, int miss)
{
	static const char * const longs[] = { "--bar", "--foo", "--foobar", "--b" };
	static const int largs[] = { 1, 0, 0, 1 };
	int i, k;
	size_t j;

	nwant = 0;
	for (i = 1; i < argc; ) {
		const char * a = argv[i];

		if (a[0] != '-' || a[1] == '\0')
			break;
		i++;
		if (strcmp(a, "--") == 0)
			break;
		if (a[1] == '-') {
			size_t n = strcspn(a, "=");

			for (k = 0; k < 4; k++)
				if (strlen(longs[k]) == n && strncmp(longs[k], a, n) == 0)
					break;
			if (k == 4)
				wemit(E_DEFAULT, a, NULL);
			else if (!largs[k]) {
				if (a[n])
					wemit(E_DEFAULT, longs[k], NULL);
				else
					wemit(E_OPT, longs[k], NULL);
			} else if (a[n])
				wemit(E_ARG, longs[k], a + n + 1);
			else if (i < argc)
				wemit(E_ARG, longs[k], argv[i++]);
			else
				wemit(miss ? E_MISSING : E_DEFAULT, longs[k], NULL);
			continue;
		}
		for (j = 1; a[j]; j++) {
			char o[3] = { '-', a[j], 0 };

			if (a[j] == 'a' || a[j] == 'b')
				wemit(E_OPT, o, NULL);
			else if (a[j] == 'x') {
				if (a[j + 1])
					wemit(E_ARG, o, &a[j + 1]);
				else if (i < argc)
					wemit(E_ARG, o, argv[i++]);
				else
					wemit(miss ? E_MISSING : E_DEFAULT, o, NULL);
				break;
			} else
				wemit(E_DEFAULT, o, NULL);
		}
	}
	wantind = i;
}
static char line[128];
static void
compare(int argc, char ** argv)
{
	int miss, i, n;
	static uint64_t h;

	for (n = i = 0; i < argc; i++)
		n += snprintf(line + n, sizeof(line) - n, "%s|", argv[i]);
	for (miss = 0; miss < 2; miss++) {
		nat_case("%ld arguments, missing-argument case %ld", argc - 1, miss, 0, 0, 0, 0);
		reference(argc, argv, miss);
		/* First stopped in the middle (which the next must not notice). */
		for (stopat = nwant > 1 ? 1 : 0; stopat >= 0; stopat--) {
			if (stopat)
				(miss ? parse_def : parse_both)(argc, argv);
			else
				(miss ? parse_both : parse_def)(argc, argv);
		}
		nat_trans(1);
		if (ngot != nwant)
			nat_fail("C32", "%s: %d options instead of %d", line, ngot, nwant);
		for (i = 0; i < nwant; i++) {
			if (got[i].kind != want[i].kind || strcmp(got[i].os, want[i].os))
				nat_fail("C32", "%s: option %d is taken as %s (%d) instead of %s (%d)", line, i, got[i].os, got[i].kind, want[i].os, want[i].kind);
			if (got[i].kind == E_ARG && strcmp(got[i].arg, want[i].arg))
				nat_fail("C32", "%s: the argument of %s is %s instead of %s", line, got[i].os, got[i].arg, want[i].arg);
			if (got[i].kind == E_OPT && got[i].hasarg)
				nat_fail("C32", "%s: option %s has got an argument", line, got[i].os);
			h = nat_hash(h, got[i].os, 4);
		}
		if (gotind != wantind)
			nat_fail("C32", "%s: %d words are left instead of %d", line, argc - gotind, argc - wantind);
	}
	nat_outcome(nwant * 16 + wantind);
	nat_state(h);
}
static const char * const words[] = { "-a", "-x", "-ab", "-ax", "-xa", "-bxa", "-x-", "-z", "-az", "-", "--", "--foo", "--foobar", "--foob", "--bar", "--bar=",
    "--bar=v", "--foo=", "--foo=v", "--barx", "v", "", "-a-", "---", "-x=", "-a=b", "--=v", "--b", "--b=a=r", "--ba", "-x--foo", "=" };
#define NW ((int)(sizeof(words) / sizeof(words[0])))
static long gparts(void) { return (NW); }
static void
getopts(long part)
{
	char * argv[8] = { "/usr/bin/prog", (char *)words[part] };
	int d, k, at[8] = { 0 };

	compare(1, argv);
	for (d = 0; d < nat_bound; d++) {
		/* All of d further words. */
		for (k = 0; k < d; k++)
			at[k] = 0;
		for (;;) {
			for (k = 0; k < d; k++)
				argv[2 + k] = (char *)words[at[k]];
			argv[2 + d] = NULL;
			compare(2 + d, argv);
			for (k = 0; k < d && ++at[k] == NW; k++)
				at[k] = 0;
			if (k == d)
				break;
		}
	}
}
/* One word of any form, alone and followed by another. */
static long cparts(void) { return (6); }
static void
getoptchars(long part)
{
	static const char al[] = "-ax=bf";
	char w[16], * argv[5] = { "prog", w, NULL, NULL };
	int n, k, at[12];

	for (n = 1; n <= nat_bound; n++) {
		memset(at, 0, sizeof(at));
		for (;;) {
			w[0] = al[part];
			for (k = 1; k < n; k++)
				w[k] = al[at[k]];
			w[n] = 0;
			argv[2] = NULL;
			compare(2, argv);
			argv[2] = "-a";
			compare(3, argv);
			for (k = 1; k < n && ++at[k] == 6; k++)
				at[k] = 0;
			if (k >= n)
				break;
		}
	}
}

/* --- numbers --- */
typedef __int128 wide;
#define WMAX ((wide)1 << 100)
/* 1: a number, and nothing else; 0: none; -1: something follows it.  Base 0 as in C. */
static int
refnum(const char * s, int base, wide * v)
{
	int neg = 0, d, any = 0;

	while (isspace((unsigned char)*s))
		s++;
	if (*s == '-' || *s == '+')
		neg = *s++ == '-';
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) {
		s += 2;
		base = 16;
	} else if (base == 0)
		base = *s == '0' ? 8 : 10;
	for (*v = 0; ; s++) {
		d = isdigit((unsigned char)*s) ? *s - '0' : isalpha((unsigned char)*s) ? tolower((unsigned char)*s) - 'a' + 10 : 99;
		if (d >= base)
			break;
		any = 1;
		if ((*v = *v * base + d) > WMAX)
			*v = WMAX;
	}
	if (neg)
		*v = -*v;
	return (any ? *s ? -1 : 1 : 0);
}
static const char * nstr;
static void
judge(const char * type, int rc, int e, wide got, int base, wide min, wide max, int trailing)
{
	wide v;
	int k = refnum(nstr, base, &v), ok = (k == 1 || (k == -1 && trailing)) && v >= min && v <= max;

	nat_trans(1);
	if (rc == 0 && !ok)
		nat_fail("C32", "\"%s\" is accepted for a %s in base %d (as %lld), trailing %d", nstr, type, base, (long long)got, trailing);
	if (rc && ok)
		nat_fail("C32", "\"%s\" is refused for a %s in base %d", nstr, type, base);
	if (rc == 0 && got != v)
		nat_fail("C32", "\"%s\" is taken as %lld for a %s in base %d", nstr, (long long)got, type, base);
	if (rc == 0 && e != 0)
		nat_fail("C32", "\"%s\": errno is %d after success", nstr, e);
	if (rc && e != EINVAL && e != ERANGE)
		nat_fail("C32", "\"%s\": errno is %d", nstr, e);
	if (rc && k == 0 && e != EINVAL)
		nat_fail("C32", "\"%s\" is no number, but errno is %d", nstr, e);
	if (rc && k == 1 && e != ERANGE)
		nat_fail("C32", "\"%s\" is out of range, but errno is %d", nstr, e);
}
#define UNSIGNED(type, MAX) do {						\
	type x; int rc, e;							\
	errno = 7; rc = PARSENUM(&x, nstr); e = errno;				\
	judge(#type, rc, e, x, 0, 0, MAX, 0);					\
	errno = 7; rc = PARSENUM(&x, nstr, 3, 200); e = errno;			\
	judge(#type " 3..200", rc, e, x, 0, 3, 200, 0);				\
	errno = 0; rc = PARSENUM(&x, nstr, 0, MAX); e = errno;			\
	judge(#type " 0..max", rc, e, x, 0, 0, MAX, 0);				\
	errno = 0; rc = PARSENUM(&x, nstr, -5, 77); e = errno;			\
	judge(#type " -5..77", rc, e, x, 0, 0, 77, 0);				\
	errno = 0; rc = PARSENUM_EX(&x, nstr, 16, 0); e = errno;		\
	judge(#type, rc, e, x, 16, 0, MAX, 0);					\
	errno = 0; rc = PARSENUM_EX(&x, nstr, 1, 100, 10, 1); e = errno;	\
	judge(#type " 1..100", rc, e, x, 10, 1, 100, 1);			\
	errno = 0; rc = PARSENUM_EX(&x, nstr, 0, MAX, 10, 0); e = errno;	\
	judge(#type " 0..max", rc, e, x, 10, 0, MAX, 0);			\
	/* Bounds beyond what the type can hold. */				\
	errno = 0; rc = PARSENUM(&x, nstr, 0, 1000); e = errno;			\
	judge(#type " 0..1000", rc, e, x, 0, 0, MAX < 1000 ? MAX : 1000, 0);	\
	errno = 0; rc = PARSENUM(&x, nstr, 1, SIZE_MAX); e = errno;		\
	judge(#type " 1..SIZE_MAX", rc, e, x, 0, 1, MAX, 0);			\
	errno = 0; rc = PARSENUM_EX(&x, nstr, 0, UINT64_MAX, 8, 1); e = errno;	\
	judge(#type " 0..UINT64_MAX, octal", rc, e, x, 8, 0, MAX, 1);		\
} while (0)
#define SIGNED(type, MIN, MAX) do {						\
	type x; int rc, e;							\
	errno = 7; rc = PARSENUM(&x, nstr, MIN, MAX); e = errno;		\
	judge(#type, rc, e, x, 0, MIN, MAX, 0);					\
	errno = 7; rc = PARSENUM(&x, nstr, -10, 10); e = errno;			\
	judge(#type " -10..10", rc, e, x, 0, -10, 10, 0);			\
	errno = 0; rc = PARSENUM(&x, nstr, 5, 100); e = errno;			\
	judge(#type " 5..100", rc, e, x, 0, 5, 100, 0);				\
	errno = 0; rc = PARSENUM_EX(&x, nstr, -100, -3, 10, 0); e = errno;	\
	judge(#type " -100..-3", rc, e, x, 10, -100, -3, 0);			\
	errno = 0; rc = PARSENUM_EX(&x, nstr, MIN, MAX, 16, 1); e = errno;	\
	judge(#type, rc, e, x, 16, MIN, MAX, 1);				\
} while (0)
static void
number(const char * s)
{
	double d, r;
	int rc, e, k;
	char * end;
	static const double b[][2] = { { -INFINITY, INFINITY }, { 0, INFINITY }, { 0.5, 60 }, { -3, 3 } };

	nstr = s;
	nat_case("a number of %ld characters", strlen(s), 0, 0, 0, 0, 0);
	UNSIGNED(uint8_t, UINT8_MAX);
	UNSIGNED(uint16_t, UINT16_MAX);
	UNSIGNED(uint32_t, UINT32_MAX);
	UNSIGNED(size_t, SIZE_MAX);
	UNSIGNED(uintmax_t, UINTMAX_MAX);
	SIGNED(int8_t, INT8_MIN, INT8_MAX);
	SIGNED(int, INT_MIN, INT_MAX);
	SIGNED(intmax_t, INTMAX_MIN, INTMAX_MAX);
	r = strtod(s, &end);
	if (r != r)
		return;		/* (left to the caller) */
	for (k = 0; k < 4; k++) {
		int num = end != s && *end == '\0', ok = num && r >= b[k][0] && r <= b[k][1], big = num && (r == INFINITY || r == -INFINITY) && strpbrk(s, "nN") == NULL;

		errno = 7;
		rc = k ? PARSENUM(&d, s, b[k][0], b[k][1]) : PARSENUM(&d, s);
		e = errno;
		if (big || (r < 1e-300 && r > -1e-300 && num))
			continue;	/* beyond what a double can hold: strtod() says ERANGE */
		if (!rc != ok)
			nat_fail("C32", "\"%s\" is %s between %g and %g", s, rc ? "refused" : "accepted", b[k][0], b[k][1]);
		if (!rc && (d != r || e))
			nat_fail("C32", "\"%s\" is taken as %g, errno %d", s, d, e);
		if (rc && e != (num ? ERANGE : EINVAL))
			nat_fail("C32", "\"%s\": errno is %d", s, e);
		nat_trans(1);
	}
}
static const wide limits[] = { 0, 1, 3, 5, 10, 60, 77, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL,
    4294967295LL, 4294967296LL, 9223372036854775807LL, (wide)1 << 63, ((wide)1 << 64) - 1, (wide)1 << 64, ((wide)1 << 64) + 3, (wide)1 << 90 };
static void
digits(wide v, int base, char * out)
{
	char b[140];
	int n = 0;

	do
		b[n++] = "0123456789abcdef"[v % base];
	while ((v /= base));
	while (n)
		*out++ = b[--n];
	*out = 0;
}
static long lparts(void) { return (sizeof(limits) / sizeof(limits[0])); }
static void
numlimits(long part)
{
	static const char * const lead[] = { "", " ", "\t\n ", "x", "0", "00" }, * const sign[] = { "", "-", "+", "--", "+-", "- " },
	    * const trail[] = { "", " ", "x", "-", ".0", ".", "e0", "k" };
	int dv, base, i, j, k;
	char d[160], s[200];

	for (dv = -2; dv <= 2; dv++) {
		if (limits[part] + dv < 0)
			continue;
		for (base = 8; base <= 16; base += base == 8 ? 2 : 6) {
			digits(limits[part] + dv, base, d);
			for (i = 0; i < 6; i++)
				for (j = 0; j < 6; j++)
					for (k = 0; k < 8; k++) {
						snprintf(s, sizeof(s), "%s%s%s%s%s", lead[i], sign[j], base == 16 ? "0x" : base == 8 ? "0" : "", d, trail[k]);
						number(s);
						if (base == 16) {
							snprintf(s, sizeof(s), "%s%s%s%s", lead[i], sign[j], d, trail[k]);
							number(s);
						}
					}
		}
		nat_outcome(part * 8 + dv);
	}
}
static long nparts(void) { return (10); }
static void
numchars(long part)
{
	static const char al[] = "-+ 0179xf.";
	char s[12];
	int n, k, at[12];

	if (part == 0)
		number("");
	for (n = 1; n <= nat_bound; n++) {
		memset(at, 0, sizeof(at));
		for (;;) {
			s[0] = al[part];
			for (k = 1; k < n; k++)
				s[k] = al[at[k]];
			s[n] = 0;
			number(s);
			for (k = 1; k < n && ++at[k] == 10; k++)
				at[k] = 0;
			if (k >= n)
				break;
		}
		nat_outcome(part * 8 + n);
	}
}

/* --- addresses --- */
static const struct { const char * in, * out; int fam, len; } addrs[] = {
	{ "[1.2.3.4]:80", "[1.2.3.4]:80", AF_INET, sizeof(struct sockaddr_in) },
	{ "[1.2.3.4]:81", "[1.2.3.4]:81", AF_INET, sizeof(struct sockaddr_in) },
	{ "[1.2.3.5]:80", "[1.2.3.5]:80", AF_INET, sizeof(struct sockaddr_in) },
	{ "[255.255.255.255]:65535", "[255.255.255.255]:65535", AF_INET, sizeof(struct sockaddr_in) },
	{ "[0.0.0.0]:0", "[0.0.0.0]:0", AF_INET, sizeof(struct sockaddr_in) },
	{ "[::1]:80", "[::1]:80", AF_INET6, sizeof(struct sockaddr_in6) },
	{ "[::]:443", "[::]:443", AF_INET6, sizeof(struct sockaddr_in6) },
	{ "[fe80:0:0:0:1:2:3:4]:8080", "[fe80::1:2:3:4]:8080", AF_INET6, sizeof(struct sockaddr_in6) },
	{ "[1111:2222:3333:4444:5555:6666:7777:8888]:65535", "[1111:2222:3333:4444:5555:6666:7777:8888]:65535", AF_INET6, sizeof(struct sockaddr_in6) },
	{ "[ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255]:65535", "[ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff]:65535", AF_INET6, sizeof(struct sockaddr_in6) },
	{ "/tmp/sock", "/tmp/sock", AF_UNIX, sizeof(struct sockaddr_un) },
	{ "/tmp/sock2", "/tmp/sock2", AF_UNIX, sizeof(struct sockaddr_un) },
	{ "/", "/", AF_UNIX, sizeof(struct sockaddr_un) },
	{ "/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
	  "/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", AF_UNIX, sizeof(struct sockaddr_un) },
};
#define NADDR ((int)(sizeof(addrs) / sizeof(addrs[0])))
static void
same(const struct sock_addr * a, int i, const char * how)
{
	char * p = sock_addr_prettyprint(a);

	if (p == NULL)
		nat_fail("C32", "%s cannot be printed (%s)", addrs[i].in, how);
	if (strcmp(p, addrs[i].out))
		nat_fail("C32", "%s is printed as %s (%s)", addrs[i].in, p, how);
	free(p);
}
static long aparts(void) { return (NADDR); }
static void
addresses(long i)
{
	struct sock_addr ** l, * a, * b, ** ll, * many[NADDR + 1];
	struct sock_addr ** one[NADDR];
	uint8_t * s, * t;
	size_t sl, tl, n;
	int j, k, m;
	long live = nat_live, f;

	CASE("address %ld", i);
	if ((l = sock_resolve(addrs[i].in)) == NULL || l[0] == NULL || l[1] != NULL)
		nat_fail("C32", "%s is not one address", addrs[i].in);
	a = l[0];
	same(a, i, "as resolved");
	/* Copies. */
	if ((b = sock_addr_dup(a)) == NULL || sock_addr_cmp(a, b) || sock_addr_cmp(b, a))
		nat_fail("C32", "a copy of %s is different", addrs[i].in);
	same(b, i, "copy");
	sock_addr_free(b);
	/* Written down and read. */
	if (sock_addr_serialize(a, &s, &sl))
		nat_fail("C32", "%s cannot be serialized", addrs[i].in);
	for (n = 0; n <= sl + 8; n++) {
		CASE("address %ld, %ld of %ld bytes", i, n, sl);
		t = malloc(n ? n : 1);
		memcpy(t, s, n < sl ? n : sl);
		if (n > sl)
			memset(t + sl, 0, n - sl);
		b = sock_addr_deserialize(t, n);
		memset(t, 0xEE, n);
		free(t);
		if (n == sl) {
			if (b == NULL || sock_addr_cmp(a, b))
				nat_fail("C32", "%s is not the same after reading it back", addrs[i].in);
			same(b, i, "read back");
		} else if (b != NULL)
			nat_fail("C32", "%zu of %zu bytes of %s are accepted", n, sl, addrs[i].in);
		if (b)
			sock_addr_free(b);
		nat_trans(1);
	}
	/* Each byte matters. */
	for (n = 0; n < sl; n++) {
		CASE("address %ld, byte %ld altered", i, n);
		t = malloc(sl);
		memcpy(t, s, sl);
		t[n] ^= 1;
		b = sock_addr_deserialize(t, sl);
		if (b != NULL && !sock_addr_cmp(a, b))
			nat_fail("C32", "%s with byte %zu altered is the same", addrs[i].in, n);
		if (b != NULL) {
			uint8_t * u;

			if (sock_addr_serialize(b, &u, &tl) || tl != sl || memcmp(u, t, sl))
				nat_fail("C32", "an altered %s is written differently from what was read", addrs[i].in);
			free(u);
		}
		if (b)
			sock_addr_free(b);
		free(t);
		nat_trans(1);
	}
	/* Lists. */
	for (j = 0; j < NADDR; j++) {
		if ((one[j] = sock_resolve(addrs[j].in)) == NULL)
			nat_fail("C32", "%s is not resolved", addrs[j].in);
		many[j] = one[j][0];
		if (!sock_addr_cmp(a, many[j]) != (i == j) || !sock_addr_cmp(many[j], a) != (i == j))
			nat_fail("C32", "%s and %s compare as %s", addrs[i].in, addrs[j].in, i == j ? "different" : "the same");
	}
	for (m = 0; m <= NADDR; m++) {
		struct sock_addr * sub[NADDR + 1];

		for (k = 0; k < m; k++)
			sub[k] = many[(i + k) % NADDR];
		sub[m] = NULL;
		live = nat_live;
		for (f = 0; f < 2L * m + 3; f++) {
			CASE("%ld addresses from %ld, allocation %ld fails", m, i, f);
			nat_allocs = nat_failed = 0;
			nat_failat = f;
			ll = sock_addr_duplist(sub);
			nat_failat = 0;
			if (ll == NULL) {
				if (!nat_failed)
					nat_fail("C32", "a list is not copied though nothing failed");
			} else {
				for (k = 0; k < m; k++) {
					if (ll[k] == sub[k])
						nat_fail("C32", "a copied list shares an address");
					same(ll[k], (i + k) % NADDR, "copied list");
				}
				if (ll[m] != NULL)
					nat_fail("C32", "a copied list is too long");
				sock_addr_freelist(ll);
			}
			if (nat_live != live)
				nat_fail("C32,C28", "%ld blocks are left after copying a list", nat_live - live);
			nat_trans(1);
		}
	}
	for (j = 0; j < NADDR; j++)
		sock_addr_freelist(one[j]);
	free(s);
	/* Out of memory at each point. */
	for (k = 0; k < 5; k++)
		for (f = 1; f < 12; f++) {
			void * r = NULL;

			CASE("address %ld, function %ld, allocation %ld fails", i, k, f);
			live = nat_live;
			nat_allocs = nat_failed = 0;
			nat_failat = f;
			s = NULL;
			switch (k) {
			case 0: r = sock_resolve(addrs[i].in); break;
			case 1: r = sock_addr_dup(a); break;
			case 2: r = sock_addr_serialize(a, &s, &sl) ? NULL : s; break;
			case 3: r = sock_addr_prettyprint(a); break;
			case 4: r = sock_addr_ensure_port("[1.2.3.4]"); break;
			}
			nat_failat = 0;
			if (r == NULL && !nat_failed)
				nat_fail("C32,C28", "function %d fails without a reason", k);
			if (r) {
				if (k == 0)
					sock_addr_freelist(r);
				else if (k == 1)
					sock_addr_free(r);
				else
					free(r);
			}
			if (nat_live != live)
				nat_fail("C32,C28", "function %d leaves %ld blocks", k, nat_live - live);
			nat_trans(1);
		}
	nat_outcome(i);
	sock_addr_freelist(l);
}
/* sock_addr_ensure_port() and sock_addr_validate(). */
static long eparts(void) { return (6); }
static void
ensure(long part)
{
	static const char al[] = "h:[]/1";
	char s[16], w[24];
	int n, k, at[12];

	for (n = part ? 1 : 0; n <= nat_bound; n++) {
		memset(at, 0, sizeof(at));
		for (;;) {
			char * p, * c;
			int add;

			if (n)
				s[0] = al[part];
			for (k = 1; k < n; k++)
				s[k] = al[at[k]];
			s[n] = 0;
			CASE("a string of %ld characters, %ld", n, part);
			p = sock_addr_ensure_port(s);
			if (p == NULL)
				nat_fail("C32", "sock_addr_ensure_port(\"%s\") fails", s);
			snprintf(w, sizeof(w), "%s:0", s);
			if (strcmp(p, s) && strcmp(p, w))
				nat_fail("C32", "sock_addr_ensure_port(\"%s\") is \"%s\"", s, p);
			/* The documented forms. */
			add = -1;
			c = strrchr(s, ':');
			if (s[0] == '/')
				add = 0;
			else if (s[0] == '[' && s[n - 1] == ']' && strchr(s, ']') == s + n - 1)
				add = 1;
			else if (s[0] == '[' && c && c[-1] == ']' && strchr(s, ']') == c - 1)
				add = 0;
			else if (n && strpbrk(s, "[]:/") == NULL)
				add = 1;
			else if (n && strpbrk(s, "[]/") == NULL && strchr(s, ':') == c && c > s)
				add = 0;
			if (add >= 0 && !strcmp(p, s) == add)
				nat_fail("C32", "sock_addr_ensure_port(\"%s\") is \"%s\"", s, p);
			free(p);
			if (!sock_addr_validate(s) != (s[0] != '\0' && s[0] != ':'))
				nat_fail("C32", "sock_addr_validate(\"%s\") is wrong", s);
			nat_trans(2);
			nat_outcome(add + 2);
			for (k = 1; k < n && ++at[k] == 6; k++)
				at[k] = 0;
			if (k >= n)
				break;
		}
	}
}

static const struct nat_scenario scens[] = {
	{ "ut_getopt", getopts, gparts, 4, 5, "C32" },
	{ "ut_getopt1", getoptchars, cparts, 6, 8, "C32,C22" },
	{ "ut_limits", numlimits, lparts, 1, 1, "C32,C22" },
	{ "ut_numbers", numchars, nparts, 6, 7, "C32,C22" },
	{ "ut_addr", addresses, aparts, 1, 1, "C32" },
	{ "ut_port", ensure, eparts, 7, 9, "C32,C19" },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
