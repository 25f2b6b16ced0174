/* The random generator, against HMAC_DRBG (SP 800-90A, 10.1.2). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "crypto_entropy.h"

#include "nat.h"

#define T "C24"
#define URFD 777

/* --- the system's source of entropy --- */
/* What goes differently from the default, at the k-th call to the system. */
enum { OK, SHORT1, SHORTHALF, EOF0, EIO_, EINTR_, NVAR };
static int plan_at, plan_how, sticky, calls;	/* (at: 0 none) */
static int isopen, opens, closes, nfailed, diag;
static int all_how;			/* every read goes like this */
static uint64_t pos;			/* bytes handed out */
static uint8_t given[1 << 16];		/* ... in this operation */
static size_t ngiven;
static char callkind[64];
/* RDRAND: 0 absent, 1 works, 2 fails always. */
static int rdmode;
static uint32_t rdctr;
static struct { size_t at; uint8_t b[32]; } rd[64];
static size_t nrd;

static uint8_t
urbyte(uint64_t n)
{
	uint64_t x = (n / 8 + 1) * 0x9E3779B97F4A7C15ULL;

	x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; x ^= x >> 31;
	return ((uint8_t)(x >> 8 * (n % 8)));
}
static int
how(char kind)
{

	if (calls < 63)
		callkind[calls] = kind;
	if (++calls == plan_at)
		return (plan_how);
	if (sticky && plan_at && calls > plan_at) {
		if (calls > plan_at + 5000)
			nat_fail(T, "the generator does not give up reading /dev/urandom");
		return (kind == 'r' ? plan_how : OK);
	}
	return (kind == 'r' ? all_how : OK);
}
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
int
__wrap_open(const char * path, int flags, ...)
{

	if (strcmp(path, "/dev/urandom"))
		return (__real_open(path, flags, 0600));
	switch (how('o')) {
	case EIO_:
	case EINTR_:
		nfailed++;
		errno = plan_how == EIO_ ? ENFILE : EINTR;
		return (-1);
	}
	if (isopen)
		nat_fail(T, "/dev/urandom is opened twice at a time");
	if ((flags & O_ACCMODE) != O_RDONLY)
		nat_fail(T, "/dev/urandom is opened with flags %x", flags);
	isopen = 1;
	opens++;
	return (URFD);
}
ssize_t
__wrap_read(int fd, void * buf, size_t n)
{
	uint8_t * b = buf;
	size_t i;

	if (fd != URFD)
		return (__real_read(fd, buf, n));
	if (!isopen)
		nat_fail(T, "read from a closed descriptor");
	switch (how('r')) {
	case SHORT1:
		n = n > 1 ? 1 : n;
		break;
	case SHORTHALF:
		n = n > 1 ? n / 2 : n;
		break;
	case EOF0:
		nfailed++;
		return (0);
	case EIO_:
	case EINTR_:
		nfailed++;
		errno = plan_how == EIO_ ? EIO : EINTR;
		return (-1);
	}
	for (i = 0; i < n; i++) {
		if (ngiven == sizeof(given))
			nat_fail(T, "more than 64 kB of entropy are read");
		b[i] = given[ngiven++] = urbyte(pos++);
	}
	return ((ssize_t)n);
}
int
__wrap_close(int fd)
{

	if (fd != URFD)
		return (__real_close(fd));
	if (!isopen)
		nat_fail(T, "a descriptor is closed twice");
	switch (how('c')) {
	case EINTR_:
		errno = EINTR;
		return (-1);
	case EIO_:
		isopen = 0;
		closes++;
		nfailed++;
		errno = EIO;
		return (-1);
	}
	isopen = 0;
	closes++;
	return (0);
}
int __wrap_cpusupport_x86_rdrand_detect_1(void) { return (rdmode != 0); }
int
__wrap_generate_seed_rdrand(unsigned int * buf, size_t n)
{
	size_t i;

	if (rdmode == 2)
		return (1);
	if (rdmode == 0)
		nat_fail(T, "RDRAND is used on a CPU without it");
	if (nrd == 64 || n != 8)
		nat_fail(T, "unexpected use of RDRAND");
	for (i = 0; i < n; i++)
		buf[i] = ++rdctr * 2654435761U;
	memcpy(rd[nrd].b, buf, 32);
	rd[nrd++].at = ngiven;
	return (0);
}
void __wrap_libcperciva_warn(const char * f, ...) { (void)f; diag++; }
void __wrap_libcperciva_warnx(const char * f, ...) { (void)f; diag++; }

/* --- the reference --- */
static struct model {
	uint8_t K[32], V[32];
	uint32_t ctr;
	int inst;
} M;
static void
m_update(const uint8_t * d, size_t n)
{
	uint8_t b[33 + 64];
	int i;

	for (i = 0; i < (n ? 2 : 1); i++) {
		memcpy(b, M.V, 32);
		b[32] = (uint8_t)i;
		if (n)
			memcpy(b + 33, d, n);
		ref_hmac(M.K, 32, b, 33 + n, M.K);
		ref_hmac(M.K, 32, M.V, 32, M.V);
	}
}
static size_t gpos, rpos;
/* Mix in n bytes of what the system gave; -1: it did not give them. */
static int
m_seed(size_t n)
{

	if (ngiven - gpos < n)
		return (-1);
	m_update(given + gpos, n);
	gpos += n;
	while (rpos < nrd && rd[rpos].at == gpos)
		m_update(rd[rpos++].b, 32);
	return (0);
}
/* Compare n bytes of output; the number of bytes generated, or -1 if entropy was missing. */
static int
m_read(const uint8_t * out, size_t n, int rc)
{
	size_t k, i, done = 0;

	gpos = rpos = 0;
	if (n == 0 && ngiven == 0)
		return (rc);
	if (!M.inst) {
		struct model save = M;

		memset(M.K, 0, 32);
		memset(M.V, 1, 32);
		M.ctr = 1;
		/* (All of it, and then something fails: not instantiated.) */
		if ((rc && ngiven <= 48 && nfailed) || m_seed(48)) {
			M = save;
			return (-1);
		}
		M.inst = 1;
	}
	while (done < n) {
		if (M.ctr > 256) {
			if ((rc && nfailed && ngiven - gpos <= 32) || m_seed(32))
				return (-1);
			M.ctr = 1;
		}
		k = n - done > 65536 ? 65536 : n - done;
		for (i = 0; i < k; i++) {
			if (i % 32 == 0)
				ref_hmac(M.K, 32, M.V, 32, M.V);
			if (out[done + i] != M.V[i % 32])
				nat_fail(T, "output byte %zu of %zu is not HMAC-DRBG's (after %zu bytes of entropy in this request, counter %u)",
				    done + i, n, gpos, M.ctr);
		}
		m_update(NULL, 0);
		M.ctr++;
		done += k;
	}
	return (0);
}

/* One request, checked. */
static int
request(size_t n)
{
	uint8_t * b = malloc(n + 1);
	int rc, m;
	long live = nat_live;

	memset(b, 0xA5, n + 1);
	ngiven = nrd = 0;
	nfailed = 0;
	nat_failed = 0;
	/* Exactly n bytes. */
	b = realloc(b, n ? n : 1);
	live = nat_live;
	rc = crypto_entropy_read(b, n);
	nfailed += nat_failed;
	if (isopen)
		nat_fail(T, "/dev/urandom is left open");
	if (nat_live != live)
		nat_fail(T, "%ld allocations are left over", nat_live - live);
	if (rc && !nfailed)
		nat_fail(T, "a request for %zu bytes fails without a reason", n);
	m = m_read(b, n, rc);
	if (rc == 0 && m)
		nat_fail(T, "a request for %zu bytes succeeds, although only %zu bytes of entropy were read", n, ngiven);
	if (rc == 0 && gpos != ngiven)
		nat_fail(T, "%zu bytes of entropy are read, %zu are used", ngiven, gpos);
	if (rc && m == 0 && n)
		nat_fail(T, "a request fails although it could be answered");
	free(b);
	nat_trans(1);
	nat_state(nat_hash(M.ctr * 4 + M.inst, M.V, 32));
	nat_outcome(nat_hash(rc, &n, sizeof(n)));
	return (rc);
}

struct saved {
	struct model M;
	uint64_t pos;
	uint32_t rdctr;
	char data[];
};
static struct saved *
save(void)
{
	struct saved * s = malloc(sizeof(*s) + nat_snapsize());

	s->M = M;
	s->pos = pos;
	s->rdctr = rdctr;
	nat_save(s->data);
	return (s);
}
static void
load(const struct saved * s)
{

	M = s->M;
	pos = s->pos;		/* (entropy is never the same again) */
	rdctr = s->rdctr;
	nat_load(s->data);
	isopen = 0;
	calls = 0;
	plan_at = 0;
	sticky = 0;
	nat_failat = 0;
	all_how = OK;
}

static const size_t sizes[] = { 0, 1, 32, 33, 31, 64, 65535, 65536, 65537, 131073 };
#define NS 10
static const int starts[] = { 0, 1, 254, 255, 256, 257 };
#define NST 6
static size_t seq[8];
static int nseq;

/* Run the sequence; the number of calls to the system. */
static int
run(const struct saved * st)
{
	int i;

	for (i = 0; i < nseq; i++)
		request(seq[i]);
	/* Whatever happened: the generator goes on. */
	plan_at = 0;
	nat_failat = 0;
	sticky = 0;
	all_how = OK;
	request(40);
	return (calls);
}
#define PACK() (seq[0] + 1000000L * (nseq > 1 ? seq[1] + 1 : 0) + 1000000000000L * (nseq > 2 ? seq[2] + 1 : 0))
static void
histories(const struct saved * st, int start, int d)
{
	int i, at, v, n, k;
	char kinds[64];

	if (d == 0) {
		CASE("RDRAND %ld, after %ld requests: requests %ld, no failure", rdmode, start, PACK());
		load(st);
		n = run(st);
		memcpy(kinds, callkind, sizeof(kinds));
		for (v = SHORT1; v <= SHORTHALF && n; v++) {
			CASE("RDRAND %ld, after %ld requests: requests %ld, short reads (%ld)", rdmode, start, PACK(), v);
			load(st);
			all_how = v;
			run(st);
		}
		for (at = 1; at <= n; at++)
			for (v = 1; v < NVAR; v++) {
				if (kinds[at - 1] != 'r' && v != EIO_ && v != EINTR_)
					continue;
				/* (with short reads, too, some bytes have come by then) */
				if (kinds[at - 1] == 'r' && (v == EOF0 || v == EIO_)) {
					CASE("RDRAND %ld, after %ld requests: requests %ld, reads fail from call %ld on (%ld)", rdmode, start, PACK(), at, v);
					load(st);
					plan_at = at;
					plan_how = v;
					sticky = 1;
					run(st);
				}
				for (k = 0; k < (kinds[at - 1] == 'r' && v >= EOF0 ? 6 : 1); k++) {
					CASE("RDRAND %ld, after %ld requests: requests %ld, call %ld to the system goes wrong (%ld, short reads before: %ld)",
					    rdmode, start, PACK(), at, v, k);
					load(st);
					plan_at = at + k;
					plan_how = v;
					all_how = k ? SHORTHALF : OK;
					run(st);
				}
			}
		for (at = 1; n && at <= 3; at++) {
			CASE("RDRAND %ld, after %ld requests: requests %ld, allocation %ld fails", rdmode, start, PACK(), at);
			load(st);
			for (i = 0; i < nseq; i++) {
				/* (of those which the code makes: the first two are the harness's) */
				nat_failat = at == i + 1 ? 3 : 0;
				request(seq[i]);
			}
			nat_failat = 0;
			request(40);
		}
		return;
	}
	for (i = 0; i < NS; i++) {
		/* One large request per sequence. */
		if (sizes[i] > 1000 && nseq && !nat_thorough)
			for (k = 0; k < nseq; k++)
				if (seq[k] > 1000)
					goto next;
		seq[nseq++] = sizes[i];
		histories(st, start, d - 1);
		nseq--;
next:		;
	}
}
static long hparts(void) { return (3 * NST * NS); }
static void
drbg(long part)
{
	int start = starts[part % NST], i, d;
	struct saved * st;

	part /= NST;
	rdmode = (int)(part % 3);
	part /= 3;
	for (i = 0; i < start; i++)
		request(1);
	st = save();
	seq[0] = sizes[part];
	nseq = 1;
	for (d = 0; d < nat_bound; d++)
		histories(st, start, d);
}

/* Many requests; one request across several reseedings. */
static long mparts(void) { return (6); }
static void
many(long part)
{
	int i, n = nat_thorough ? 70000 : 3000;
	size_t big = (size_t)65536 * 256 * (nat_thorough ? 3 : 1) + 100000;

	rdmode = (int)(part % 3);
	if (part < 3) {
		for (i = 0; i < n; i++) {
			if (i % 64 == 0)
				CASE("RDRAND %ld, request %ld in a row", rdmode, i);
			request((size_t)(i * 7 % 70));
		}
	} else {
		CASE("RDRAND %ld, one request for %ld bytes", rdmode, big);
		request(big);
		request(big);
	}
}

static const struct nat_scenario scens[] = {
	{ "drbg", drbg, hparts, 2, 3, T },
	{ "drbg_many", many, mparts, 3000, 70000, T },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
