/* Name resolution: at startup, and again and again. */
#include <netdb.h>
#include <netinet/in.h>
#include "topo.h"

#define MS 1000000ULL
#define T0 (1000 * SEC)
static struct proc * E;
static int nosub(struct proc * p, int kind, const char * l) { return (p == E); }

/* What the resolver answers, and when it did. */
#define MAXC 40
static struct { int kind; uint64_t delay, t_start, t_end; int n; } calls[MAXC];
static int ncalls, nscript;
static const char * lists[][4] = {
	{ "10.0.0.1:2001" },
	{ "10.0.0.2:2001" },
	{ "10.0.0.3:2001", "10.0.0.1:2001" },
	{ "[2001:db8::7]:2001", "10.0.0.2:2001", "10.0.0.3:2001" },
	{ NULL }, { NULL },		/* 4, 5: failures */
	/* Lists which differ in one place only. */
	{ "10.0.0.1:2001", "10.0.0.2:2001" },
	{ "10.0.0.1:2001", "10.0.0.3:2001" },
	{ "10.0.0.2:2001", "10.0.0.1:2001" },
	{ "10.0.0.1:2001", "10.0.0.2:2001", "10.0.0.3:2001" },
};
static int
nlist(int k)
{
	int i;

	for (i = 0; i < 4 && lists[k][i]; i++)
		;
	return (i);
}

static int
resolve(struct proc * p, const char * host, const char * serv, struct saddr * out, int max, uint64_t * delay)
{
	int k, i;

	if (p != E || strcmp(host, "target.example") || strcmp(serv, "2001"))
		violate("C11,C19", "resolving %s port %s", host, serv);
	if (ncalls == MAXC)
		violate("C11", "the name is resolved all the time");
	k = ncalls++;
	if (k >= nscript) {
		calls[k].kind = calls[k].kind ? calls[k].kind : 0;
		calls[k].delay = 0;
	}
	calls[k].t_start = W.now;
	calls[k].t_end = W.now + calls[k].delay;
	*delay = calls[k].delay;
	if (calls[k].kind == 4)
		return (-1);
	if (calls[k].kind == 5)
		return (EAI_SYSTEM);
	for (i = 0; i < nlist(calls[k].kind); i++)
		out[i] = mkaddr(lists[calls[k].kind][i]);
	return (i);
}

static int
refuse_all(struct proc * p, const struct saddr * a, uint64_t * delay)
{

	return (p == E ? CP_REFUSE_ASYNC : CP_ASYNC_OK);
}

/* A user comes every 0.25 s. */
static int nusers;
static void
users(void * a)
{
	int i, s;

	a_sleep(0.137);
	for (i = 0; i < nusers; i++) {
		s = a_connect(A_ENC);
		if (s < 0)
			violate("C11,C14", "the daemon does not listen");
		a_sleep(0.25);
		a_close(s);
	}
}

static struct { int set; long blocks; int fds, ai; } q0;
static void
idle(int list)
{
	long b = E->heap_blocks - 2 * nlist(list);

	if (q0.set && (b != q0.blocks || w_openfds(E) != q0.fds || E->ai_live != q0.ai))
		violate("C11,C08", "the daemon holds %ld blocks of memory and %d descriptors after resolving, %ld and %d before", b, w_openfds(E), q0.blocks, q0.fds);
	q0.set = 1;
	q0.blocks = b;
	q0.fds = w_openfds(E);
	q0.ai = E->ai_live;
}

/* The list in use at a moment. */
static int
list_at(uint64_t t)
{
	int i, cur = calls[0].kind;

	for (i = 1; i < ncalls; i++)
		if (calls[i].t_end <= t && calls[i].kind != 4 && calls[i].kind != 5)
			cur = calls[i].kind;
	return (cur);
}

static int idle_step_on;
static void
idle_look(void * a)
{
	int i;

	for (;;) {
		a_sleep(0.1251);
		/* Is everything quiet? */
		for (i = 0; i < W.nallfiles; i++) {
			struct sfile * f = W.allfiles[i];

			if (f->creator == E && f->type == F_SOCK && !f->listening && !f->ispair && !f->closed)
				break;
		}
		if (i < W.nallfiles)
			continue;
		for (i = 0; i < ncalls; i++)
			if (calls[i].t_end >= W.now - 50 * MS)
				break;
		if (i == ncalls)
			idle(list_at(W.now));
	}
}

static void
check(double r, int reresolve)
{
	struct ep * eps[] = { NULL };
	int i, j, nconn = 0, n, k;
	uint64_t at, h = 5;

	if (E->exited)
		violate("C11,C14", "the daemon exited: %s", w_describe(E));
	/* When was the name looked up? */
	if (ncalls < 1)
		violate("C11", "the name was never resolved");
	if (!reresolve && ncalls != 1)
		violate("C11", "the name was resolved again in spite of -R");
	for (i = 1; i < ncalls; i++) {
		at = calls[i - 1].t_end + (uint64_t)(r * 1e9);
		if (calls[i].t_start + MS < at)
			violate("C11", "the name was resolved again %.3f s after the last time, not %.3f s", (calls[i].t_start - calls[i - 1].t_end) / 1e9, r);
		if (calls[i].t_start > at + 5 * MS)
			violate("C11", "the name was resolved again only %.3f s after the last time, not %.3f s", (calls[i].t_start - calls[i - 1].t_end) / 1e9, r);
	}
	if (reresolve && calls[ncalls - 1].t_end + (uint64_t)(r * 1e9) + 5 * MS < W.horizon)
		violate("C11", "the name was not resolved any more after %.3f s", (calls[ncalls - 1].t_end - T0) / 1e9);
	/* Which addresses were used? */
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i], * g;

		if (f->type != F_SOCK || f->creator != E || !f->accepted)
			continue;
		at = f->t_conn;
		k = list_at(at);
		for (j = i + 1, n = 0; j < W.nallfiles; j++) {
			g = W.allfiles[j];
			if (g->type != F_SOCK || g->creator != E || g->listening || g->ispair)
				continue;
			if (g->accepted)
				break;
			struct saddr x;

			if (n >= nlist(k))
				violate("C11,C12", "more addresses were tried than the target has");
			x = mkaddr(lists[k][n]);
			if (!saddr_eq(&x, &g->remote))
				violate("C11,C12", "at %.3f s, address %d tried is not that of the newest successful lookup", (at - T0) / 1e9, n);
			n++;
		}
		if (n != nlist(k))
			violate("C11,C12", "at %.3f s, %d addresses were tried, not %d", (at - T0) / 1e9, n, nlist(k));
		/* The lookups never hold up a connection. */
		if (f->peer == NULL || at > T0 + 137 * MS + nconn * 250 * MS + 2 * MS)
			violate("C11,C14", "a connection was accepted at %.3f s only", (at - T0) / 1e9);
		nconn++;
		h = h * 31 + k;
	}
	if (nconn != nusers)
		violate("C11,C14", "%d connections of %d were accepted", nconn, nusers);
	x_count(0, ncalls);
	x_outcome(h);
	finish(eps);
}

static void
dns_start(const char * opt)
{
	char cmd[200];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -e -s [127.0.0.1]:1001 -t target.example:2001 -k /key -F %s", opt);
	E = w_spawn("encr", spiped_1_main, cmd);
	W.resolve = resolve;
	W.connect_policy = refuse_all;
	W.chfilter = nosub;
}

static void
s_dns(void)
{
	static const struct { const char * o; double r; } rs[] = { { "-r 1", 1 }, { "-r 2.5", 2.5 }, { "-r 0.3", 0.3 } };
	static const uint64_t ds[] = { 0, 400 * MS, 1700 * MS };
	int k = choose_free(3, "rtime"), i;

	nscript = 4;
	calls[0].kind = choose_free(3, "first");
	for (i = 1; i < nscript; i++) {
		calls[i].kind = choose_free(6, "answer");
		calls[i].delay = ds[choose_free(i < 3 ? 3 : 1, "delay")];
	}
	dns_start(rs[k].o);
	nusers = 30;
	w_actor("users", users, NULL);
	w_actor("idle", idle_look, NULL);
	W.horizon = T0 + 9 * SEC;
	w_run();
	check(rs[k].r, 1);
}

/* Lists which have much in common, one after the other. */
static void
s_dns_lists(void)
{
	static const int ks[] = { 0, 1, 6, 7, 8, 9, 4 };
	int i;

	nscript = 4;
	for (i = 0; i < nscript; i++)
		calls[i].kind = ks[choose_free(i == 0 ? 6 : 7, "list")];
	dns_start("-r 1");
	nusers = 18;
	w_actor("users", users, NULL);
	w_actor("idle", idle_look, NULL);
	W.horizon = T0 + 5 * SEC + 500 * MS;
	w_run();
	check(1, 1);
}

/* All interleavings of the resolver and the daemon. */
static void
s_dns_thr(void)
{
	int i;

	nscript = 3;
	for (i = 1; i < nscript; i++) {
		calls[i].kind = choose_free(2, "answer") ? 4 : 2;
		calls[i].delay = choose_free(2, "delay") ? 300 * MS : 0;
	}
	dns_start("-r 0.5");
	nusers = 4;
	w_actor("users", users, NULL);
	w_actor("idle", idle_look, NULL);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_POLLSUB);
	X_ENABLE(K_EINTR);
	W.horizon = T0 + 2600 * MS;
	w_run();
	check(0.5, 1);
}

static void
s_dns_mem(void)
{
	int i;

	nscript = 2;
	calls[1].kind = choose_free(2, "answer") ? 4 : 2;
	calls[1].delay = choose_free(2, "delay") ? 300 * MS : 0;
	(void)i;
	dns_start("-r 0.5");
	nusers = 2;
	w_actor("users", users, NULL);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_MEMPREEMPT);
	W.horizon = T0 + 1700 * MS;
	w_run();
	check(0.5, 1);
}

/* The default interval, and none. */
static void
s_dns_default(void)
{
	static const struct { const char * o; double r; int on; } rs[] = { { "", 60, 1 }, { "-r 0", 60, 1 }, { "-R", 0, 0 }, { "-r 60 -R", 0, 0 }, { "-r 61", 61, 1 }, { "-r 1e2", 100, 1 } };
	int k = choose_free(6, "rtime");

	nscript = 3;
	calls[0].kind = 2;
	calls[1].kind = 4;
	calls[2].kind = 1;
	dns_start(rs[k].o);
	nusers = 5;
	w_actor("users", users, NULL);
	W.horizon = T0 + 250 * SEC;
	w_run();
	check(rs[k].r, rs[k].on);
}

/* Nothing to resolve: addresses stay what they are. */
static void
s_dns_numeric(void)
{
	static const char * ts[] = { "[10.0.0.1]:2001", "/no/such.sock", "[2001:db8::1]:2001" };
	int k = choose_free(3, "target"), i, n = 0;
	struct ep * eps[] = { NULL };
	struct saddr x = mkaddr(k == 0 ? "10.0.0.1:2001" : k == 1 ? "/no/such.sock" : ts[k]);
	char cmd[200];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -e -s [127.0.0.1]:1001 -t %s -k /key -F -r 1", ts[k]);
	E = w_spawn("encr", spiped_1_main, cmd);
	W.connect_policy = refuse_all;
	nusers = 12;
	w_actor("users", users, NULL);
	W.horizon = T0 + 5 * SEC;
	w_run();
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type != F_SOCK || f->creator != E || f->accepted || f->listening || f->ispair)
			continue;
		n++;
		if (!saddr_eq(&f->remote, &x))
			violate("C11,C12,C19", "connecting to the wrong address");
	}
	if (E->exited || n != nusers)
		violate("C11,C12", "%d connections for %d users; %s", n, nusers, w_describe(E));
	finish(eps);
}

/* Names which cannot be resolved at startup. */
static int st_fail, st_which, st_n, st_seen;
static int
st_resolve(struct proc * p, const char * host, const char * serv, struct saddr * out, int max, uint64_t * delay)
{
	const char * names[] = { "source.example", "target.example", "bind.example" };
	int i;

	for (i = 0; i < 3; i++)
		if (strcmp(names[i], host) == 0)
			break;
	if (i == 3)
		violate("C11,C19", "resolving %s", host);
	if (i == st_which) {
		st_seen++;
		if (st_n++ < st_fail)
			return (-1);
	}
	out[0] = mkaddr(i == 0 ? "127.0.0.1:1001" : i == 1 ? "10.0.0.1:2001" : "10.0.0.9:0");
	return (1);
}

static void
s_dns_start(void)
{
	int d = choose_free(2, "-D"), i, n = 0;
	struct ep * eps[] = { NULL };
	uint64_t t_listen = 0;
	char cmd[200];

	st_which = choose_free(3, "which");
	st_fail = choose_free(4, "failures");
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -e -s source.example:1001 -t target.example:2001 -b bind.example -k /key -F -R %s", d ? "-D" : "");
	E = w_spawn("encr", spiped_1_main, cmd);
	W.resolve = st_resolve;
	W.connect_policy = refuse_all;
	W.horizon = T0 + 8 * SEC;
	w_run();
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->creator == E && f->listening) {
			n++;
			t_listen = f->t_created;
		}
	}
	if (!d && st_fail) {
		if (!E->exited || E->status != 1 || n || E->outlen == 0)
			violate("C11,C22", "a name could not be resolved, but: %s", w_describe(E));
	} else {
		if (E->exited || n != 1)
			violate("C11,C14", "not serving: %s", w_describe(E));
		if (t_listen > T0 + st_fail * SEC + 20 * MS)
			violate("C11", "serving only after %.1f s", (t_listen - T0) / 1e9);
		if (st_seen != st_fail + 1)
			violate("C11", "the name was looked up %d times", st_seen);
	}
	finish(eps);
}

/* SIGTERM while the resolver is at work. */
static void d_kill(void * a) { a_sleep(*(int *)a / 1000.0); E->t_sig = W.now; w_kill(E, SIGTERM); }
static void
s_dns_term(void)
{
	static const int ts[] = { 5, 400, 499, 500, 501, 700, 990, 1000, 1500, 2100 };
	static int t;
	struct ep * eps[] = { NULL };

	t = ts[choose_free(10, "when")];
	nscript = 3;
	calls[1].delay = choose_free(2, "delay") ? 60 * SEC : 600 * MS;
	dns_start(choose_free(2, "rtime") ? "-r 1" : "-r 0.5");
	nusers = 1;
	w_actor("users", users, NULL);
	w_actor("killer", d_kill, &t);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_POLLSUB);
	W.horizon = T0 + 20 * SEC;
	w_run();
	if (!E->exited || E->status)
		violate("C10,C11", "no orderly end after SIGTERM: %s", w_describe(E));
	if (E->t_exit > E->t_sig + 1100 * MS)
		violate("C10,C11", "exit only %.3f s after SIGTERM", (E->t_exit - E->t_sig) / 1e9);
	finish(eps);
}

static const struct x_scenario scens[] = {
	{ "dns", s_dns, 0, 0, "C11" },
	{ "dns_lists", s_dns_lists, 0, 0, "C11,C12,C08" },
	{ "dns_thr", s_dns_thr, 2, 3, "C11,C27" },
	{ "dns_mem", s_dns_mem, 1, 2, "C11,C27" },
	{ "dns_default", s_dns_default, 0, 0, "C11" },
	{ "dns_numeric", s_dns_numeric, 0, 0, "C11,C12" },
	{ "dns_start", s_dns_start, 0, 0, "C11,C22" },
	{ "dns_term", s_dns_term, 2, 3, "C11,C10" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
