#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "nat.h"

#define NW 64
#define SETSZ (1 << 23)
struct shared {
	uint64_t runs, trans, nstates, noutcomes, nsamples;
	int truncated, violated;
	char tags[64], msg[1024], casetext[1024];
	long part, caseno;
	struct {
		const char * fmt;
		long a[6];
		long part, caseno;
	} w[NW];
	char samples[8][300];
	uint64_t set[2][SETSZ];
};
static struct shared * S;
static int me;			/* my slot */
static double deadline;
static long replay_case = -1;
static int verbose;
int nat_bound, nat_thorough;
long nat_failat, nat_allocs, nat_failed, nat_live, nat_livebytes;

const char * __asan_default_options(void);
const char *
__asan_default_options(void)
{

	return ("detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:handle_abort=0");
}

static double
nowf(void)
{
	struct timespec ts;

	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (ts.tv_sec + ts.tv_nsec / 1e9);
}

uint64_t
nat_hash(uint64_t h, const void * p, size_t n)
{
	const uint8_t * b = p;

	h ^= 0xcbf29ce484222325ULL;
	while (n--)
		h = (h ^ *b++) * 0x100000001b3ULL;
	return (h ^ (h >> 29));
}

static void
insert(int k, uint64_t h, uint64_t * ctr)
{
	uint64_t i, exp;
	int n;

	if (h == 0)
		h = 1;
	for (i = (h * 0x9E3779B97F4A7C15ULL) % SETSZ, n = 0; n < 64; i = (i + 1) % SETSZ, n++) {
		exp = __atomic_load_n(&S->set[k][i], __ATOMIC_RELAXED);
		if (exp == h)
			return;
		if (exp == 0) {
			if (__atomic_compare_exchange_n(&S->set[k][i], &exp, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
				__atomic_add_fetch(ctr, 1, __ATOMIC_RELAXED);
				return;
			}
			if (exp == h)
				return;
		}
	}
}
void nat_state(uint64_t h) { insert(0, h, &S->nstates); }
void nat_outcome(uint64_t h) { insert(1, h, &S->noutcomes); }
void nat_trans(uint64_t n) { __atomic_add_fetch(&S->trans, n, __ATOMIC_RELAXED); }

static void
describe(int w, char * out, size_t n)
{
	long * a = S->w[w].a;

	out[0] = 0;
	if (S->w[w].fmt)
		snprintf(out, n, S->w[w].fmt, a[0], a[1], a[2], a[3], a[4], a[5]);
}

void
nat_case(const char * fmt, long a, long b, long c, long d, long e, long f)
{
	struct itimerval it = { { 0, 0 }, { nat_thorough ? 600 : 60, 0 } };
	uint64_t n;
	char t[300];

	if (S->w[me].caseno == replay_case) {
		printf("the case passes\n");
		exit(0);
	}
	S->w[me].fmt = fmt;
	S->w[me].a[0] = a; S->w[me].a[1] = b; S->w[me].a[2] = c;
	S->w[me].a[3] = d; S->w[me].a[4] = e; S->w[me].a[5] = f;
	S->w[me].caseno++;
	n = __atomic_add_fetch(&S->runs, 1, __ATOMIC_RELAXED);
	if (S->nsamples < 8 && (n & (n - 1)) == 0) {
		uint64_t k = __atomic_fetch_add(&S->nsamples, 1, __ATOMIC_RELAXED);

		describe(me, t, sizeof(t));
		if (k < 8)
			strcpy(S->samples[k], t);
	}
	if (S->w[me].caseno % 64 == 1) {
		setitimer(ITIMER_PROF, &it, NULL);
		if (S->violated)
			_exit(0);
		if (nowf() > deadline) {
			S->truncated = 1;
			_exit(0);
		}
	}
	if (replay_case >= 0 && S->w[me].caseno == replay_case) {
		describe(me, t, sizeof(t));
		printf("case: %s\n", t);
		verbose = 1;
	}
}

void
nat_note(const char * fmt, ...)
{
	va_list ap;

	if (!verbose)
		return;
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	putchar('\n');
}

static void
record(int w, const char * tags, const char * msg)
{

	if (__atomic_exchange_n(&S->violated, 1, __ATOMIC_SEQ_CST))
		return;
	snprintf(S->tags, sizeof(S->tags), "%s", tags);
	snprintf(S->msg, sizeof(S->msg), "%s", msg);
	describe(w, S->casetext, sizeof(S->casetext));
	S->part = S->w[w].part;
	S->caseno = S->w[w].caseno;
}

void
nat_fail(const char * tags, const char * fmt, ...)
{
	va_list ap;
	char msg[1024];

	va_start(ap, fmt);
	vsnprintf(msg, sizeof(msg), fmt, ap);
	va_end(ap);
	nat_failat = 0;
	record(me, tags, msg);
	_exit(98);
}

/* Allocations of the repository's code (and of the harness). */
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void __real_free(void *);
static int
deny(size_t n)
{

	nat_allocs++;
	if (n > (1UL << 31) || (nat_failat && --nat_failat == 0)) {
		nat_failed++;
		errno = ENOMEM;
		return (1);
	}
	return (0);
}
static void *
got(void * p)
{

	if (p) {
		nat_live++;
		nat_livebytes += (long)malloc_usable_size(p);
	}
	return (p);
}
static void
gone(void * p)
{

	if (p) {
		nat_live--;
		nat_livebytes -= (long)malloc_usable_size(p);
	}
}
void * __wrap_malloc(size_t n) { return (deny(n) ? NULL : got(__real_malloc(n))); }
void * __wrap_calloc(size_t m, size_t n) { return (deny(m * n) ? NULL : got(__real_calloc(m, n))); }
void (*nat_onfree)(const void *, size_t);
void
__wrap_free(void * p)
{

	if (p && nat_onfree)
		nat_onfree(p, malloc_usable_size(p));
	gone(p);
	__real_free(p);
}
void *
__wrap_realloc(void * p, size_t n)
{
	void * q;

	if (deny(n))
		return (NULL);
	/* Always move: stale pointers must be noticed. */
	if ((q = __real_malloc(n ? n : 1)) == NULL)
		return (NULL);
	got(q);
	if (p) {
		size_t o = malloc_usable_size(p);

		memcpy(q, p, o < n ? o : n);
		__wrap_free(p);
	}
	return (q);
}
char *
__wrap_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = __wrap_malloc(n);

	return (p ? memcpy(p, s, n) : NULL);
}

extern char __start_natsnap0[] __attribute__((weak)), __stop_natsnap0[] __attribute__((weak));
extern char __start_natsnap1[] __attribute__((weak)), __stop_natsnap1[] __attribute__((weak));
size_t
nat_snapsize(void)
{

	return ((__stop_natsnap0 - __start_natsnap0) + (__stop_natsnap1 - __start_natsnap1));
}
static void __attribute__((no_sanitize("address"), noinline))
rawcopy(volatile char * d, const volatile char * s, size_t n)
{

	while (n--)
		*d++ = *s++;
}
void
nat_save(void * p)
{
	size_t n = __stop_natsnap0 - __start_natsnap0;

	rawcopy(p, __start_natsnap0, n);
	rawcopy((char *)p + n, __start_natsnap1, nat_snapsize() - n);
}
void
nat_load(const void * p)
{
	size_t n = __stop_natsnap0 - __start_natsnap0;

	rawcopy(__start_natsnap0, p, n);
	rawcopy(__start_natsnap1, (const char *)p + n, nat_snapsize() - n);
}

static void
jstr(FILE * f, const char * s)
{

	fputc('"', f);
	for (; *s; s++)
		if (*s == '"' || *s == '\\')
			fprintf(f, "\\%c", *s);
		else if ((unsigned char)*s < 32 || (unsigned char)*s > 126)
			fprintf(f, "\\u%04x", (unsigned char)*s);
		else
			fputc(*s, f);
	fputc('"', f);
}

/* A child ended badly: say how. */
static void
postmortem(int w, int st, int errfd)
{
	char buf[65536], msg[600] = "";
	ssize_t n;
	char * p, * q;

	n = pread(errfd, buf, sizeof(buf) - 1, 0);
	buf[n > 0 ? n : 0] = 0;
	if ((p = strstr(buf, "ERROR: AddressSanitizer")) != NULL) {
		if ((q = strchr(p, '\n')) != NULL)
			*q = 0;
		snprintf(msg, sizeof(msg), "memory error: %s", p + 7);
		for (q = q ? q + 1 : p; (q = strstr(q, "    #")) != NULL; q++)
			if (strstr(q, "/repo/") && strlen(msg) < 400) {
				char * e = strchr(q, '\n');

				snprintf(msg + strlen(msg), sizeof(msg) - strlen(msg), " %.*s", (int)(e ? e - q - 4 : 40), q + 4);
				break;
			}
	} else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM))
		snprintf(msg, sizeof(msg), "it does not end");
	else if (WIFSIGNALED(st))
		snprintf(msg, sizeof(msg), "killed by signal %d: %.300s", WTERMSIG(st), buf);
	else
		snprintf(msg, sizeof(msg), "exits with status %d: %.300s", WEXITSTATUS(st), buf);
	record(w, "*", msg);
}

int
nat_main(int argc, char ** argv, const struct nat_scenario * sc)
{
	const char * scen = NULL, * prop = NULL, * json = NULL, * vfile = NULL, * replay = NULL, * tier = "quick";
	double budget = 60, t0 = nowf();
	long parts, next = 0, rpart = -1;
	int i, k, st, live = 0, bound = -1, errfds[NW], maxw = (int)sysconf(_SC_NPROCESSORS_ONLN);
	pid_t pids[NW], p;
	FILE * f;
	char line[1200];

	for (i = 1; i < argc; i++) {
		if (strcmp(argv[i], "--list") == 0) {
			for (; sc->name; sc++)
				printf("%s %d %d %s\n", sc->name, sc->bound_quick, sc->bound_thorough, sc->props);
			return (0);
		}
		if (i + 1 == argc)
			break;
		if (strcmp(argv[i], "--scen") == 0) scen = argv[++i];
		else if (strcmp(argv[i], "--prop") == 0) prop = argv[++i];
		else if (strcmp(argv[i], "--budget") == 0) budget = atof(argv[++i]);
		else if (strcmp(argv[i], "--tier") == 0) tier = argv[++i];
		else if (strcmp(argv[i], "--bound") == 0) bound = atoi(argv[++i]);
		else if (strcmp(argv[i], "--json") == 0) json = argv[++i];
		else if (strcmp(argv[i], "--vfile") == 0) vfile = argv[++i];
		else if (strcmp(argv[i], "--replay") == 0) replay = argv[++i];
	}
	if (replay) {
		static char sname[64], tname[32];

		if ((f = fopen(replay, "r")) == NULL)
			return (2);
		while (fgets(line, sizeof(line), f)) {
			sscanf(line, "scenario %63s", sname);
			sscanf(line, "tier %31s", tname);
			sscanf(line, "bound %d", &bound);
			sscanf(line, "part %ld", &rpart);
			sscanf(line, "case %ld", &replay_case);
		}
		fclose(f);
		scen = sname;
		tier = tname;
		budget = 1e6;
	}
	for (; sc->name && (scen == NULL || strcmp(sc->name, scen)); sc++)
		continue;
	if (sc->name == NULL) {
		fprintf(stderr, "no such scenario\n");
		return (2);
	}
	nat_thorough = strcmp(tier, "thorough") == 0;
	nat_bound = bound >= 0 ? bound : nat_thorough ? sc->bound_thorough : sc->bound_quick;
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED)
		return (2);
	deadline = t0 + budget;
	parts = sc->parts ? sc->parts() : 1;
	if (maxw > NW)
		maxw = NW;
	if (rpart >= 0) {
		next = rpart;
		parts = rpart + 1;
		maxw = 1;
	}
	memset(pids, 0, sizeof(pids));
	while (live || (next < parts && !S->violated && !S->truncated)) {
		while (live < maxw && next < parts && !S->violated && !S->truncated) {
			for (k = 0; pids[k]; k++)
				continue;
			snprintf(line, sizeof(line), "/tmp/nat.XXXXXX");
			if ((errfds[k] = mkstemp(line)) == -1)
				return (2);
			unlink(line);
			S->w[k].fmt = NULL;
			S->w[k].part = next;
			S->w[k].caseno = 0;
			fflush(stdout);
			if ((p = fork()) == 0) {
				if (rpart < 0)
					dup2(errfds[k], 2);
				me = k;
				sc->fn(next);
				if (S->w[k].caseno == replay_case)
					printf("the case passes\n");
				exit(0);
			}
			if (p == -1)
				return (2);
			pids[k] = p;
			next++;
			live++;
		}
		if ((p = wait(&st)) == -1)
			break;
		for (k = 0; k < NW && pids[k] != p; k++)
			continue;
		if (k == NW)
			continue;
		if (st && !(WIFEXITED(st) && WEXITSTATUS(st) == 98))
			postmortem(k, st, errfds[k]);
		close(errfds[k]);
		pids[k] = 0;
		live--;
	}
	if (S->violated && prop && strcmp(S->tags, "*") != 0 && strstr(S->tags, prop) == NULL && strstr(sc->props, S->tags) == NULL)
		;	/* (tags are only informative here) */
	if (S->violated) {
		printf("VIOLATED %s: %s [%s]\n", S->tags, S->msg, S->casetext);
		if (vfile && !replay && (f = fopen(vfile, "w")) != NULL) {
			fprintf(f, "# replay: %s --replay %s\n# %s\n# case: %s\nscenario %s\ntier %s\nbound %d\npart %ld\ncase %ld\n",
			    argv[0], vfile, S->msg, S->casetext, sc->name, tier, nat_bound, S->part, S->caseno);
			fclose(f);
		}
	}
	if (json && (f = fopen(json, "w")) != NULL) {
		fprintf(f, "{\"scenario\":\"%s\",\"bound\":%d,\"bound_completed\":%d,\"truncated\":%s,\"runs\":%lu,\"choices\":%lu,"
		    "\"transitions\":%lu,\"states\":%lu,\"outcomes\":%lu,\"max_choices_per_run\":%d,\"wall_s\":%.2f,\"note\":\"parts %ld of %ld\",",
		    sc->name, nat_bound, S->truncated || S->violated ? -1 : nat_bound, S->truncated ? "true" : "false",
		    S->runs, S->runs, S->trans, S->nstates, S->noutcomes, nat_bound, nowf() - t0, next, parts);
		fprintf(f, "\"other\":0,\"othermsg\":\"\",\"samples\":[");
		for (i = 0; i < 8 && i < (int)S->nsamples; i++) {
			if (i)
				fputc(',', f);
			jstr(f, S->samples[i]);
		}
		fprintf(f, "],\"machine_error\":null,\"violation\":");
		if (S->violated) {
			snprintf(line, sizeof(line), "%.500s [%.500s]", S->msg, S->casetext);
			jstr(f, line);
		} else
			fprintf(f, "null");
		fprintf(f, "}\n");
		fclose(f);
	}
	printf("%s: bound %d%s: %lu cases, %lu transitions, %lu states, %lu outcomes, %.1f s\n", sc->name, nat_bound,
	    S->truncated ? " (time)" : "", S->runs, S->trans, S->nstates, S->noutcomes, nowf() - t0);
	return (S->violated ? 1 : 0);
}
