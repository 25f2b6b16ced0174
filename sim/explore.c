#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "explore.h"

#define MAXTRACE 65536
#define STATES_LG 22
#define OUT_LG 16
#define MEMO_LG 14
#define NSAMPLES 6

struct tr {
	uint16_t kind, n, c;
	const char * label;
};

struct vrec {
	char tags[128];
	char msg[1024];
	int ntrace;
	struct { uint16_t kind, n, c; char label[28]; } t[MAXTRACE];
};

struct shm {
	volatile int lock;
	volatile int tokens;
	volatile int stop;		/* stop exploring: violation found */
	volatile int truncated;		/* deadline hit */
	volatile int machine_err;
	char machine_msg[1024];
	volatile uint64_t leaves, choices, transitions, forks;
	volatile uint64_t nstates, nout, states_dropped;
	volatile uint64_t maxtrace;
	volatile uint64_t othertags;
	char othermsg[512];
	volatile uint64_t user[8];
	volatile int nsamples;
	char samples[NSAMPLES][1200];
	volatile int nviol;
	struct vrec v;
	volatile uint64_t states[1 << STATES_LG];
	volatile uint64_t outs[1 << OUT_LG];
	struct { volatile uint64_t k1, k2; volatile int st; uint8_t d[256]; } memo[1 << MEMO_LG];
};
static struct shm * S;

uint32_t x_enabled;
int x_verbose;
const char * x_tier = "quick";
int x_bound;

static struct tr trace[MAXTRACE];
static int ntrace;
static int budget;
static int replay_mode;
static struct vrec * rp;		/* being replayed */
static int explore_on = 1;
static double deadline;
static const char * want_prop = "*";
static pid_t outstanding[8192];
static int nout_ch;
static int own_token;
static int violated;
static char * notes;
static size_t noteslen, notescap;
static const struct x_scenario * cur_scen;
static uint64_t run_digest;
static int digest_fd = -1;
static uint64_t local_tr;

static double
now(void)
{
	struct timespec ts;

	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (ts.tv_sec + ts.tv_nsec * 1e-9);
}

static void
lock(void)
{

	while (__sync_lock_test_and_set(&S->lock, 1))
		sched_yield();
}

static void
unlock(void)
{

	__sync_lock_release(&S->lock);
}

uint64_t
x_hash(uint64_t h, const void * p, size_t len)
{
	const uint8_t * b = p;

	h ^= 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	while (len >= 8) {
		uint64_t w;

		memcpy(&w, b, 8);
		h = (h ^ w) * 0xff51afd7ed558ccdULL;
		h ^= h >> 32;
		b += 8;
		len -= 8;
	}
	while (len--)
		h = (h ^ *b++) * 0x100000001b3ULL;
	h ^= h >> 29;
	h *= 0xc4ceb9fe1a85ec53ULL;
	h ^= h >> 32;
	return (h);
}

static int
set_add(volatile uint64_t * tab, int lg, uint64_t h)
{
	uint64_t i, k;

	if (h == 0)
		h = 1;
	for (i = h >> (64 - lg), k = 0; k < 64; k++, i = (i + 1) & ((1ULL << lg) - 1)) {
		uint64_t o = tab[i];

		if (o == h)
			return (0);
		if (o == 0) {
			if (__sync_bool_compare_and_swap(&tab[i], 0, h))
				return (1);
			if (tab[i] == h)
				return (0);
		}
	}
	return (-1);
}

void
x_state(uint64_t h)
{

	run_digest = x_hash(run_digest, &h, 8);
	switch (set_add(S->states, STATES_LG, h)) {
	case 1:
		__sync_fetch_and_add(&S->nstates, 1);
		break;
	case -1:
		__sync_fetch_and_add(&S->states_dropped, 1);
		break;
	}
}

void
x_outcome(uint64_t h)
{

	run_digest = x_hash(run_digest, &h, 8);
	if (set_add(S->outs, OUT_LG, h) == 1)
		__sync_fetch_and_add(&S->nout, 1);
}

void
x_transition(void)
{

	local_tr++;
}

void
x_count(int slot, uint64_t n)
{

	__sync_fetch_and_add(&S->user[slot & 7], n);
}

void
x_sample(const char * fmt, ...)
{
	va_list ap;
	int i;

	if (S->nsamples >= NSAMPLES)
		return;
	lock();
	if ((i = S->nsamples) < NSAMPLES) {
		va_start(ap, fmt);
		vsnprintf(S->samples[i], sizeof(S->samples[i]), fmt, ap);
		va_end(ap);
		S->nsamples++;
	}
	unlock();
}

int
x_memo_get(uint64_t k1, uint64_t k2, uint8_t * out, size_t len)
{
	uint64_t i = k1 & ((1 << MEMO_LG) - 1);
	int k;

	for (k = 0; k < 16; k++, i = (i + 1) & ((1 << MEMO_LG) - 1)) {
		if (S->memo[i].st == 0)
			return (0);
		if (S->memo[i].st == 2 && S->memo[i].k1 == k1 &&
		    S->memo[i].k2 == k2) {
			memcpy(out, S->memo[i].d, len);
			return (1);
		}
	}
	return (0);
}

void
x_memo_put(uint64_t k1, uint64_t k2, const uint8_t * out, size_t len)
{
	uint64_t i = k1 & ((1 << MEMO_LG) - 1);
	int k;

	if (len > 256)
		return;
	for (k = 0; k < 16; k++, i = (i + 1) & ((1 << MEMO_LG) - 1)) {
		if (__sync_bool_compare_and_swap(&S->memo[i].st, 0, 1)) {
			S->memo[i].k1 = k1;
			S->memo[i].k2 = k2;
			memcpy(S->memo[i].d, out, len);
			__sync_synchronize();
			S->memo[i].st = 2;
			return;
		}
	}
}

void
x_trace_note(const char * fmt, ...)
{
	va_list ap;
	char buf[512];
	size_t n;

	if (!replay_mode && !x_verbose)
		return;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (x_verbose > 1)
		fprintf(stderr, "    %s\n", buf);
	n = strlen(buf);
	if (notes == NULL || noteslen + n + 2 > notescap) {
		notescap = (notescap + n + 2) * 2 + 65536;
		notes = realloc(notes, notescap);
	}
	memcpy(notes + noteslen, buf, n);
	notes[noteslen + n] = '\n';
	noteslen += n + 1;
	notes[noteslen] = 0;
}

int
x_replaying(void)
{

	return (replay_mode);
}

static void
reap_all(void)
{
	int i, st;

	for (i = 0; i < nout_ch; i++) {
		if (waitpid(outstanding[i], &st, 0) == outstanding[i]) {
			if (WIFSIGNALED(st)) {
				S->machine_err = 1;
				snprintf(S->machine_msg, sizeof(S->machine_msg),
				    "explorer child killed by signal %d",
				    WTERMSIG(st));
			}
		}
	}
	nout_ch = 0;
}

void
machine_error(const char * fmt, ...)
{
	va_list ap;

	lock();
	if (!S->machine_err) {
		va_start(ap, fmt);
		vsnprintf(S->machine_msg, sizeof(S->machine_msg), fmt, ap);
		va_end(ap);
		S->machine_err = 1;
	}
	S->stop = 1;
	unlock();
	x_leaf();
}

void
x_leaf(void)
{

	struct itimerval it = { { 0, 0 }, { 0, 0 } };

	setitimer(ITIMER_VIRTUAL, &it, NULL);
	__sync_fetch_and_add(&S->leaves, 1);
	__sync_fetch_and_add(&S->transitions, local_tr);
	if ((uint64_t)ntrace > S->maxtrace)
		S->maxtrace = ntrace;
	if (digest_fd != -1) {
		uint64_t d[3] = { run_digest, ntrace, violated };

		if (write(digest_fd, d, sizeof(d)) != sizeof(d))
			_exit(3);
		if (notes && write(digest_fd, notes, noteslen) == -1)
			_exit(3);
	}
	if (own_token) {
		__sync_fetch_and_add(&S->tokens, 1);
		own_token = 0;
	}
	reap_all();
	_exit(0);
}

static int
tag_match(const char * tags)
{
	const char * p;
	size_t n = strlen(want_prop);

	if (strcmp(want_prop, "*") == 0 || strchr(tags, '*'))
		return (1);
	for (p = tags; (p = strstr(p, want_prop)) != NULL; p++)
		if (p[n] == ',' || p[n] == 0 || p[n] == ' ')
			return (1);
	return (0);
}

int
x_violated(void)
{

	return (violated);
}

void
violate(const char * tags, const char * fmt, ...)
{
	va_list ap;
	int i;
	char msg[1024];

	va_start(ap, fmt);
	vsnprintf(msg, sizeof(msg), fmt, ap);
	va_end(ap);
	if (!tag_match(tags)) {
		lock();
		if (S->othertags++ == 0)
			snprintf(S->othermsg, sizeof(S->othermsg), "[%s] %s",
			    tags, msg);
		unlock();
		return;
	}
	violated = 1;
	lock();
	if (S->nviol++ == 0) {
		snprintf(S->v.tags, sizeof(S->v.tags), "%s", tags);
		snprintf(S->v.msg, sizeof(S->v.msg), "%s", msg);
		S->v.ntrace = ntrace;
		for (i = 0; i < ntrace; i++) {
			S->v.t[i].kind = trace[i].kind;
			S->v.t[i].n = trace[i].n;
			S->v.t[i].c = trace[i].c;
			snprintf(S->v.t[i].label, sizeof(S->v.t[i].label),
			    "%s", trace[i].label);
		}
	}
	S->stop = 1;
	unlock();
	if (x_verbose)
		fprintf(stderr, "VIOLATION [%s] %s\n", tags, msg);
	x_leaf();
}

static void
arm_timer(void)
{
	struct itimerval it = { { 0, 0 }, { 40, 0 } };

	setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static int
docharge(int kind, int n, const char * label)
{
	int i, cost = (kind != K_FREE);
	pid_t pid;

	if (ntrace >= MAXTRACE)
		machine_error("trace too long (last: %s)", label);
	if (ntrace < 0)
		abort();
	trace[ntrace].kind = kind;
	trace[ntrace].n = n;
	trace[ntrace].label = label;
	if (replay_mode) {
		int c = 0;

		if (ntrace < rp->ntrace) {
			char lb[28];

			snprintf(lb, sizeof(lb), "%s", label);
			if (rp->t[ntrace].kind != kind ||
			    rp->t[ntrace].n != n ||
			    strcmp(rp->t[ntrace].label, lb))
				machine_error("replay diverges at step %d: "
				    "recorded %d/%d/%s now %d/%d/%s", ntrace,
				    rp->t[ntrace].kind, rp->t[ntrace].n,
				    rp->t[ntrace].label, kind, n, lb);
			c = rp->t[ntrace].c;
		}
		trace[ntrace++].c = c;
		if (c)
			x_trace_note("choice %d: %s = %d of %d", ntrace - 1,
			    label, c, n);
		return (c);
	}
	__sync_fetch_and_add(&S->choices, 1);
	if (!explore_on || (cost && budget <= 0)) {
		trace[ntrace++].c = 0;
		return (0);
	}
	for (i = 1; i < n; i++) {
		int tok;

		if (S->stop)
			break;
		if (now() > deadline) {
			S->truncated = 1;
			break;
		}
		tok = 0;
		for (;;) {
			int t = S->tokens;

			if (t <= 0)
				break;
			if (__sync_bool_compare_and_swap(&S->tokens, t, t - 1)) {
				tok = 1;
				break;
			}
		}
		if (tok && nout_ch >= 8000) {
			__sync_fetch_and_add(&S->tokens, 1);
			tok = 0;
		}
		pid = fork();
		if (pid == -1) {
			if (tok)
				__sync_fetch_and_add(&S->tokens, 1);
			machine_error("fork: %s", strerror(errno));
		}
		if (pid == 0) {
			own_token = tok;
			nout_ch = 0;
			local_tr = 0;
			__sync_fetch_and_add(&S->forks, 1);
			arm_timer();
			if (cost)
				budget--;
			trace[ntrace++].c = i;
			return (i);
		}
		if (tok) {
			outstanding[nout_ch++] = pid;
			/* Reap opportunistically. */
			while (nout_ch > 0) {
				int k, st, any = 0;

				for (k = 0; k < nout_ch && k < 16; k++) {
					if (waitpid(outstanding[k], &st,
					    WNOHANG) > 0) {
						if (WIFSIGNALED(st)) {
							S->machine_err = 1;
							snprintf(S->machine_msg, 1000, "explorer child killed by signal %d", WTERMSIG(st));
						}
						outstanding[k] = outstanding[--nout_ch];
						any = 1;
					}
				}
				if (!any)
					break;
			}
		} else {
			int st;

			if (waitpid(pid, &st, 0) == pid && WIFSIGNALED(st)) {
				S->machine_err = 1;
				snprintf(S->machine_msg, 1000,
				    "explorer child killed by signal %d",
				    WTERMSIG(st));
			}
		}
	}
	trace[ntrace++].c = 0;
	return (0);
}

int
choose(int kind, int n, const char * label)
{

	if (n <= 1 || !X_ON(kind))
		return (0);
	return (docharge(kind, n, label));
}

int
choose_free(int n, const char * label)
{

	if (n <= 1)
		return (0);
	return (docharge(K_FREE, n, label));
}

static void
crash_handler(int sig, siginfo_t * si, void * uc)
{

	(void)uc;
	if (sig == SIGVTALRM)
		violate("*", "hang: no end after 40 s of CPU time");
	else
		violate("*", "crash: signal %d (%s) at address %p", sig,
		    strsignal(sig), si->si_addr);
	_exit(0);
}

static void
install_handlers(void)
{
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof(alt) };
	struct sigaction sa;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
	size_t i;

	sigaltstack(&ss, NULL);
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = crash_handler;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++)
		sigaction(sigs[i], &sa, NULL);
}

/* Run the scenario in a fresh child; returns a digest of the run. */
static void
launch(int dfd, const struct x_scenario * sc)
{
	pid_t pid;
	int st;

	fflush(NULL);
	if ((pid = fork()) == -1) {
		perror("fork");
		exit(2);
	}
	if (pid == 0) {
		digest_fd = dfd;
		install_handlers();
		arm_timer();
		cur_scen = sc;
		sc->fn();
		machine_error("scenario %s returned", sc->name);
	}
	while (waitpid(pid, &st, 0) != pid)
		;
	if (WIFSIGNALED(st)) {
		S->machine_err = 1;
		snprintf(S->machine_msg, 1000, "root run killed by signal %d",
		    WTERMSIG(st));
	}
}

static void
jstr(FILE * f, const char * s)
{

	fputc('"', f);
	for (; *s; s++) {
		if (*s == '"' || *s == '\\')
			fprintf(f, "\\%c", *s);
		else if ((unsigned char)*s < 32 || (unsigned char)*s > 126)
			fprintf(f, "\\u%04x", (unsigned char)*s);
		else
			fputc(*s, f);
	}
	fputc('"', f);
}

static char *
readnotes(int fd, uint64_t * dig)
{
	static char buf[1 << 20];
	ssize_t n;
	size_t off = 0;

	lseek(fd, 0, SEEK_SET);
	memset(dig, 0, 24);
	if (read(fd, dig, 24) != 24)
		return (NULL);
	while ((n = read(fd, buf + off, sizeof(buf) - 1 - off)) > 0)
		off += n;
	buf[off] = 0;
	return (buf);
}

static void
reset_shm(void)
{

	/* Everything but the memo. */
	memset((void *)S, 0, offsetof(struct shm, memo));
}

int
x_main(int argc, char ** argv, const struct x_scenario * scens)
{
	const char * scen = NULL, * json = NULL, * vfile = NULL, * replay = NULL;
	double budget_s = 60;
	int i, jobs = (int)sysconf(_SC_NPROCESSORS_ONLN), bound = -1, b;
	int list = 0, completed = -1, trunc = 0;
	const struct x_scenario * sc;
	char tmpl[] = "/tmp/xdigXXXXXX";
	int dfd;
	uint64_t d1[3], d2[3];
	uint64_t last_leaves = 0;
	uint64_t leaves = 0, choices = 0, trans = 0, forks = 0;
	double t0 = now();
	FILE * f;
	struct vrec * saved;

	/* No address space randomization. */
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		if (personality(ADDR_NO_RANDOMIZE) != -1 &&
		    getenv("X_REEXEC") == NULL) {
			setenv("X_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--list"))
			list = 1;
		else if (!strcmp(argv[i], "-v"))
			x_verbose++;
		else if (i + 1 >= argc)
			goto usage;
		else if (!strcmp(argv[i], "--scen"))
			scen = argv[++i];
		else if (!strcmp(argv[i], "--prop"))
			want_prop = argv[++i];
		else if (!strcmp(argv[i], "--bound"))
			bound = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--budget"))
			budget_s = atof(argv[++i]);
		else if (!strcmp(argv[i], "--jobs"))
			jobs = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--json"))
			json = argv[++i];
		else if (!strcmp(argv[i], "--vfile"))
			vfile = argv[++i];
		else if (!strcmp(argv[i], "--replay"))
			replay = argv[++i];
		else if (!strcmp(argv[i], "--tier"))
			x_tier = argv[++i];
		else
			goto usage;
	}
	if (list) {
		for (sc = scens; sc->name; sc++)
			printf("%s %d %d %s\n", sc->name, sc->bound_quick,
			    sc->bound_thorough, sc->props);
		return (0);
	}
	S = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE,
	    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) {
		perror("mmap");
		return (2);
	}
	if ((dfd = mkstemp(tmpl)) == -1) {
		perror("mkstemp");
		return (2);
	}
	unlink(tmpl);
	saved = malloc(sizeof(*saved));

	if (replay) {
		char ln[256], nm[128] = "";
		static struct vrec R;

		if ((f = fopen(replay, "r")) == NULL) {
			perror(replay);
			return (2);
		}
		while (fgets(ln, sizeof(ln), f)) {
			int k, n, c;
			char lb[64];

			if (sscanf(ln, "scenario %100s", nm) == 1)
				continue;
			if (sscanf(ln, "bound %d", &x_bound) == 1)
				continue;
			if (sscanf(ln, "tier %60s", lb) == 1) {
				x_tier = strdup(lb);
				continue;
			}
			if (sscanf(ln, "choice %d %d %d %27[^\n]", &k, &n, &c,
			    lb) == 4) {
				R.t[R.ntrace].kind = k;
				R.t[R.ntrace].n = n;
				R.t[R.ntrace].c = c;
				snprintf(R.t[R.ntrace].label, 28, "%s", lb);
				R.ntrace++;
			}
		}
		fclose(f);
		scen = nm;
		for (sc = scens; sc->name; sc++)
			if (!strcmp(sc->name, scen))
				break;
		if (sc->name == NULL) {
			fprintf(stderr, "no such scenario: %s\n", scen);
			return (2);
		}
		rp = &R;
		replay_mode = 1;
		deadline = now() + 1e9;
		launch(dfd, sc);
		printf("%s", readnotes(dfd, d1) ? readnotes(dfd, d1) : "");
		if (S->machine_err) {
			printf("MACHINE ERROR: %s\n", S->machine_msg);
			return (2);
		}
		if (S->nviol) {
			printf("REPRODUCED [%s] %s\n", S->v.tags, S->v.msg);
			return (1);
		}
		printf("no violation\n");
		return (0);
	}

	if (scen == NULL)
		goto usage;
	for (sc = scens; sc->name; sc++)
		if (!strcmp(sc->name, scen))
			break;
	if (sc->name == NULL) {
		fprintf(stderr, "no such scenario: %s\n", scen);
		return (2);
	}
	if (bound < 0)
		bound = strcmp(x_tier, "thorough") ? sc->bound_quick :
		    sc->bound_thorough;
	x_bound = bound;

	/* Determinism: the default run twice, same observations. */
	deadline = now() + 1e9;
	explore_on = 0;
	budget = 0;
	for (i = 0; i < 2; i++) {
		if (ftruncate(dfd, 0) || lseek(dfd, 0, SEEK_SET) == -1)
			return (2);
		reset_shm();
		launch(dfd, sc);
		readnotes(dfd, i ? d2 : d1);
		if (S->machine_err)
			break;
	}
	if (!S->machine_err && memcmp(d1, d2, sizeof(d1))) {
		S->machine_err = 1;
		snprintf(S->machine_msg, 1000, "the default run of %s is not "
		    "deterministic (%lx/%lu vs %lx/%lu)", scen,
		    (long)d1[0], (long)d1[1], (long)d2[0], (long)d2[1]);
	}
	explore_on = 1;
	if (!S->machine_err)
		reset_shm();

	/* Iterate the deviation bound. */
	deadline = t0 + budget_s;
	for (b = 0; b <= bound && !S->machine_err && !S->nviol; b++) {
		/* Counters other than the state/outcome sets are per-bound. */
		S->leaves = S->choices = S->transitions = S->forks = 0;
		memset((void *)S->user, 0, sizeof(S->user));
		S->tokens = jobs - 1;
		S->truncated = 0;
		budget = b;
		launch(-1, sc);
		leaves += S->leaves;
		last_leaves = S->leaves;
		choices += S->choices;
		trans += S->transitions;
		forks += S->forks;
		if (x_verbose)
			fprintf(stderr, "%s bound %d: %lu runs %lu choices "
			    "%lu transitions %lu states %lu outcomes%s %.1fs\n",
			    scen, b, (long)S->leaves, (long)S->choices,
			    (long)S->transitions, (long)S->nstates,
			    (long)S->nout, S->truncated ? " TRUNCATED" : "",
			    now() - t0);
		if (S->truncated) {
			trunc = 1;
			break;
		}
		if (!S->nviol && !S->machine_err)
			completed = b;
	}
	int nviol = S->nviol;
	uint64_t nstates = S->nstates, nout = S->nout;
	uint64_t user[8];
	uint64_t other = S->othertags, maxtr = S->maxtrace;
	char othermsg[512];
	int nsamp = S->nsamples;
	static char samp[NSAMPLES][1200];

	memcpy(user, (void *)S->user, sizeof(user));
	memcpy(othermsg, S->othermsg, sizeof(othermsg));
	memcpy(samp, S->samples, sizeof(samp));

	/* Replay before report: twice, same message. */
	if (nviol && !S->machine_err) {
		*saved = S->v;
		rp = saved;
		replay_mode = 1;
		deadline = now() + 1e9;
		for (i = 0; i < 2; i++) {
			reset_shm();
			if (ftruncate(dfd, 0) || lseek(dfd, 0, SEEK_SET) == -1)
				return (2);
			launch(dfd, sc);
			if (S->machine_err)
				break;
			if (!S->nviol || strcmp(S->v.msg, saved->msg)) {
				S->machine_err = 1;
				snprintf(S->machine_msg, 1000, "violation not "
				    "reproduced: %.300s / %.300s", saved->msg,
				    S->nviol ? S->v.msg : "(none)");
				break;
			}
		}
		if (!S->machine_err && vfile) {
			char * nt = readnotes(dfd, d1);

			if ((f = fopen(vfile, "w")) == NULL) {
				perror(vfile);
				return (2);
			}
			fprintf(f, "# replay: %s --replay %s\n", argv[0], vfile);
			fprintf(f, "# violated: %s\n# %s\n", saved->tags,
			    saved->msg);
			fprintf(f, "scenario %s\ntier %s\nbound %d\n", scen,
			    x_tier, x_bound);
			for (i = 0; i < saved->ntrace; i++)
				fprintf(f, "choice %d %d %d %s\n",
				    saved->t[i].kind, saved->t[i].n,
				    saved->t[i].c, saved->t[i].label);
			fprintf(f, "# --- log of the failing run ---\n");
			if (nt) {
				char * p;

				for (p = strtok(nt, "\n"); p;
				    p = strtok(NULL, "\n"))
					fprintf(f, "# %s\n", p);
			}
			fclose(f);
		}
	}
	if (json) {
		if ((f = fopen(json, "w")) == NULL) {
			perror(json);
			return (2);
		}
		fprintf(f, "{\"scenario\":\"%s\",\"bound\":%d,"
		    "\"bound_completed\":%d,\"truncated\":%s,\"runs\":%lu,\"runs_all\":%lu,"
		    "\"choices\":%lu,\"transitions\":%lu,\"states\":%lu,"
		    "\"outcomes\":%lu,\"max_choices_per_run\":%lu,\"wall_s\":%.2f,",
		    scen, bound, completed, trunc ? "true" : "false",
		    (long)last_leaves, (long)leaves, (long)choices, (long)trans, (long)nstates,
		    (long)nout, (long)maxtr, now() - t0);
		fprintf(f, "\"user\":[");
		for (i = 0; i < 8; i++)
			fprintf(f, "%s%lu", i ? "," : "", (long)user[i]);
		fprintf(f, "],\"other\":%lu,\"othermsg\":", (long)other);
		jstr(f, other ? othermsg : "");
		fprintf(f, ",\"samples\":[");
		for (i = 0; i < nsamp; i++) {
			if (i)
				fputc(',', f);
			jstr(f, samp[i]);
		}
		fprintf(f, "],\"machine_error\":");
		jstr(f, S->machine_err ? S->machine_msg : "");
		fprintf(f, ",\"violation\":");
		jstr(f, (nviol && !S->machine_err) ? saved->msg : "");
		fprintf(f, "}\n");
		fclose(f);
	}
	if (S->machine_err) {
		printf("MACHINE ERROR: %s\n", S->machine_msg);
		return (2);
	}
	if (nviol) {
		printf("VIOLATED [%s] %s\n", saved->tags, saved->msg);
		return (1);
	}
	if (other && x_verbose)
		printf("other-property violations: %lu, e.g. %s\n",
		    (long)other, othermsg);
	return (0);
usage:
	fprintf(stderr, "usage: %s --list | --scen NAME [--prop P] [--bound N]"
	    " [--budget S] [--json F] [--vfile F] [-v] | --replay F\n", argv[0]);
	return (2);
}
