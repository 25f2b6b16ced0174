/* The library's interfaces, driven directly by harnesses. */
#include "topo.h"

#define MS 1000000ULL
int hevents_1_main(int, char **), hnet_1_main(int, char **), hconn_1_main(int, char **), hthr_1_main(int, char **);
static struct proc * H;

static void
api(int (*mainfn)(int, char **), const char * cmd, const char * tag)
{
	struct ep * eps[] = { NULL };

	H = w_spawn("harness", mainfn, cmd);
	W.horizon = W.now + 100 * SEC;
	w_run();
	if (!H->exited || H->status != 0)
		violate(tag, "%s", w_describe(H));
	x_sample("%s: %ld system calls", cmd, (long)H->syscalls);
	finish(eps);
}

static void
s_ev_ops(void)
{

	w_init();
	api(hevents_1_main, strcmp(x_tier, "thorough") ? "h 4 2 2 3" : "h 5 2 2 3", "C17");
}
static void
s_ev_oom(void)
{

	w_init();
	X_ENABLE(K_ALLOC);
	X_ENABLE(K_EINTR);
	api(hevents_1_main, strcmp(x_tier, "thorough") ? "h 3 2 2 3" : "h 4 3 3 4", "C17,C28");
}

static void s_ev_many(void) { w_init(); api(hevents_1_main, "h many 0 0 0", "C17"); }
static void s_ev_prog(void) { w_init(); W.default_cap = 4; W.maxsteps = 1000000000; api(hevents_1_main, strcmp(x_tier, "thorough") ? "h prog 2 5 0" : "h prog 2 6 0", "C17"); }
static void s_ev_fair(void) { w_init(); api(hevents_1_main, "h fair 3 0 0", "C17"); }

/* Only while the library is at work. */
static int
lib_only(struct proc * p, int kind, const char * label)
{

	(void)p; (void)kind; (void)label;
	return (W.user);
}
static void
net(const char * mode, int q, int t, size_t cap)
{
	char cmd[40];

	w_init();
	W.default_cap = cap;
	W.ncuts = mode[1] == 'i' ? 6 : 3;
	W.nerrs = mode[1] == 'i' ? 6 : 3;
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EAGAIN);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_NETERR);
	W.chfilter = lib_only;
	snprintf(cmd, sizeof(cmd), "h %.2s %d%s", mode, strcmp(x_tier, "thorough") ? q : t, mode[2] ? " x" : "");
	api(hnet_1_main, cmd, "C29");
}
static void s_net_r(void) { net("r", 5, 6, 64); }
static void s_net_w(void) { net("w", 5, 6, 4); }
static void s_net_rw(void) { net("rw", 4, 5, 4); }
static void s_net_nb(void) { net("nb", 4, 5, 65536); }
static void s_net_nb0(void) { net("nb0", 5, 6, 65536); }
static void s_net_big(void) { net("bi", 1, 1, 65536); }
static void
s_net_oom(void)
{
	int k = choose_free(2, "mode");

	w_init();
	W.default_cap = k ? 65536 : 64;
	X_ENABLE(K_ALLOC);
	W.chfilter = lib_only;
	api(hnet_1_main, k ? "h nb 3" : "h rw 4", "C29,C28");
}

static int
lib_noclock(struct proc * p, int kind, const char * label)
{

	(void)p;
	return (W.user && !(kind == K_SYSFAIL && (strcmp(label, "clock_gettime") == 0 || strcmp(label, "atexit") == 0)));
}
static void
conn(const char * mode, int n, int kinds)
{
	char cmd[40];

	w_init();
	if (kinds & 1) {
		X_ENABLE(K_EINTR);
		X_ENABLE(K_EAGAIN);
		X_ENABLE(K_NETERR);
	}
	if (kinds & 2)
		X_ENABLE(K_SYSFAIL);
	if (kinds & 4)
		X_ENABLE(K_ALLOC);
	W.chfilter = lib_noclock;
	snprintf(cmd, sizeof(cmd), "h %s %d%s", mode, n, kinds && !strcmp(x_tier, "quick") ? " few" : "");
	api(hconn_1_main, cmd, kinds & 4 ? "C31,C28" : "C31");
}
static int q(int a, int b) { return (strcmp(x_tier, "thorough") ? a : b); }
static void s_net_conn(void) { conn("co", 3, 0); }
static void s_net_conn_err(void) { conn("co", q(2, 3), 7); }
static void s_net_acc(void) { conn("ac", q(7, 9), 7); }

/* --- threads --- */
static int
lib_or_dns(struct proc * p, int kind, const char * label)
{

	(void)p; (void)label;
	return (W.user || kind == K_DNS || (kind == K_ALLOC && W.user2));
}
static void
thr_create(int n, int rounds)
{
	char cmd[40];

	w_init();
	snprintf(cmd, sizeof(cmd), "h create %d %d", n, rounds);
	api(hthr_1_main, cmd, "C27");
}
static void
s_thr_sched(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_EINTR);
	thr_create(2, 1);
}
static void
s_thr_mem(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_MEMPREEMPT);
	X_ENABLE(K_EINTR);
	thr_create(1, 2);
}
static void
s_thr_fail(void)
{

	X_ENABLE(K_ALLOC);
	X_ENABLE(K_SYSFAIL);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	thr_create(2, 1);
}

static struct ep * PI, * PO;
/* Copying, with or without a cancellation. */
static int push_in = 3, push_out = 4;
static void
push(int both, int cancels, int nsizes)
{
	static const char * in[] = { "w8193 s c", "w3 z20 w5 z20 s c", "z20 s c", "c", "z20 w20000 s c", "w8192 s c", "W40:1 z10 s c" };
	struct sfile * fi, * fo, * hi, * ho, * s = NULL, * t = NULL;
	int k = choose_free(nsizes, "traffic"), ti = choose_free(2, "input"), to = choose_free(2, "output");
	int early = choose_free(2, "reader leaves early"), cancel = cancels ? choose_free(cancels, "cancelled after") : -1;
	char cmd[40];
	static struct ep * eps[3];

	w_init();
	W.cost = MS / 2;
	if (both)
		W.default_cap = 3000;
	snprintf(cmd, sizeof(cmd), "h push%s %d %d %d", both ? "2" : "", cancel, push_in, push_out);
	H = w_spawn("harness", hthr_1_main, cmd);
	mkpair(ti, 0, &hi, &fi);
	mkpair(to, 1, &ho, &fo);
	p_installfd(H, push_in, hi);
	p_installfd(H, push_out, ho);
	if (both) {
		/* What goes out on 5 comes back on it. */
		mkpair(1, 0, &s, &t);
		s->rx = s->tx;
		s->peer = s;
		p_installfd(H, 5, s);
	}
	PI = mkend("writer", in[k], 1, -1, fi);
	PO = mkend("reader", early ? "r2 c" : "e c", -1, 1, fo);
	PI->hdr = PO->hdr = 0;
	W.horizon = W.now + 100 * SEC;
	w_run();
	x_trace_note("%s: sent %zu got %zu eof %d status %d", cmd, PI->sent, PO->got, PO->eof, H->status);
	if (!H->exited)
		violate("C27", "the copying never ends; %s", w_describe(H));
	if (PO->badat)
		violate("C27", "byte %d of the copy is wrong", PO->badat - 1);
	PI->sent = fi->tx->loglen;
	if (PO->got > PI->sent)
		violate("C27", "%zu of %zu bytes were copied", PO->got, PI->sent);
	if (H->status != 0 && !(H->status == 1 && (W.sysfailed || early)))
		violate("C27", "copying ends with status %d without a reason; %s", H->status, w_describe(H));
	if (H->status == 0 && cancel < 0 && !early && !W.user2 && (PO->got != PI->sent || !PO->eof))
		violate("C27", "%zu of %zu bytes were copied", PO->got, PI->sent);
	/* An error must not go unnoticed. */
	if (H->status == 0 && cancel < 0 && W.sysfailed && !W.user2)
		violate("C27", "an error while copying is not reported");
	eps[0] = PI;
	eps[1] = PO;
	finish(eps);
}
static void
s_push_io(void)
{

	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	push(0, 0, 7);
}
/* Any descriptors. */
static void
s_push_fds(void)
{
	static const int f[][2] = { { 0, 1 }, { 1, 0 }, { 0, 2 }, { 9, 1 }, { 2, 40 }, { 63, 62 } };
	int k = choose_free(6, "descriptors");

	X_ENABLE(K_SHORTW);
	X_ENABLE(K_SCHED);
	push_in = f[k][0];
	push_out = f[k][1];
	push(0, 0, 5);
}
static void
s_push_err(void)
{

	X_ENABLE(K_NETERR);
	X_ENABLE(K_ALLOC);
	X_ENABLE(K_SYSFAIL);
	push(0, 0, 3);
}
static void
s_push_cancel(void)
{

	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_SCHED);
	push(0, strcmp(x_tier, "thorough") ? 8 : 16, 3);
}
static void
s_push_both(void)
{

	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	push(1, 0, 5);
}

/* --- resolving in the background --- */
static int
dns_answer(struct proc * p, const char * host, const char * service, struct saddr * out, int max, uint64_t * delay)
{
	char b[40];
	int n = atoi(host + 1);

	(void)p; (void)service; (void)max;
	*delay = 2 * MS;
	if (strstr(host, "bad"))
		return (-1);
	snprintf(b, sizeof(b), "10.0.%d.1:80", n);
	out[0] = mkaddr(b);
	snprintf(b, sizeof(b), "10.0.%d.2:80", n);
	out[1] = mkaddr(b);
	return (2);
}
static void
dns(int q, int t)
{
	char cmd[40];

	w_init();
	W.chfilter = lib_or_dns;
	W.resolve = dns_answer;
	snprintf(cmd, sizeof(cmd), "h dns %d", strcmp(x_tier, "thorough") ? q : t);
	api(hthr_1_main, cmd, "C30");
}
static void s_dns_ops(void) { dns(5, 7); }
static void
s_dns_sched(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_DNS);
	dns(3, 5);
}
static void
s_dns_mem(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_MEMPREEMPT);
	dns(2, 4);
}
static void
s_dns_fail(void)
{

	X_ENABLE(K_ALLOC);
	X_ENABLE(K_SYSFAIL);
	X_ENABLE(K_DNS);
	dns(3, 5);
}

static const struct x_scenario scens[] = {
	{ "ev_oom", s_ev_oom, 1, 1, "C17" },
	{ "ev_prog", s_ev_prog, 0, 0, "C17" },
	{ "ev_many", s_ev_many, 0, 0, "C17" },
	{ "ev_fair", s_ev_fair, 0, 0, "C17" },
	{ "net_r", s_net_r, 1, 2, "C29" },
	{ "net_w", s_net_w, 1, 2, "C29" },
	{ "net_rw", s_net_rw, 1, 1, "C29" },
	{ "net_big", s_net_big, 2, 3, "C29" },
	{ "net_nb", s_net_nb, 1, 2, "C29" },
	{ "net_nb0", s_net_nb0, 0, 0, "C29" },
	{ "net_conn", s_net_conn, 0, 0, "C31" },
	{ "net_conn_err", s_net_conn_err, 1, 2, "C31" },
	{ "net_acc", s_net_acc, 2, 3, "C31" },
	{ "net_oom", s_net_oom, 1, 1, "C29" },
	{ "thr_sched", s_thr_sched, 2, 3, "C27" },
	{ "thr_mem", s_thr_mem, 2, 3, "C27" },
	{ "thr_fail", s_thr_fail, 2, 3, "C27" },
	{ "push_io", s_push_io, 2, 3, "C27" },
	{ "push_fds", s_push_fds, 1, 2, "C27" },
	{ "push_err", s_push_err, 2, 3, "C27" },
	{ "push_cancel", s_push_cancel, 2, 3, "C27" },
	{ "push_both", s_push_both, 2, 2, "C27" },
	{ "res_ops", s_dns_ops, 0, 0, "C30" },
	{ "res_sched", s_dns_sched, 1, 2, "C30" },
	{ "res_mem", s_dns_mem, 1, 2, "C30" },
	{ "res_fail", s_dns_fail, 1, 2, "C30" },
	{ "ev_ops", s_ev_ops, 0, 0, "C17" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
