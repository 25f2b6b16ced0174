/* spipe: a single connection between stdin/stdout and a server. */
#include <netinet/in.h>
#include "topo.h"

#define MS 1000000ULL
static struct proc * S, * D;
static struct ep * I, * O, * T;		/* typist, reader, target */
static struct sfile * sp_in, * sp_out;	/* spipe's stdin and stdout */

/* types: 0 two pipes, 1 two socket pairs, 2 one socket for both. */
static void
mkspipe(const char * opt, int types, const char * in, const char * out, int wrongkey)
{
	struct sfile * fi, * fo;
	char cmd[200];

	w_file("/key2", wrongkey ? KEYA "x" : KEYA, strlen(KEYA) + !!wrongkey);
	snprintf(cmd, sizeof(cmd), "spipe -t [127.0.0.1]:2002 -k /key2 %s", opt);
	S = w_spawn("spipe", spipe_1_main, cmd);
	w_delay(S, MS);
	mkpair(types != 0, 0, &sp_in, &fi);
	if (types == 2) {
		sp_out = sp_in;
		fo = fi;
	} else
		mkpair(types, 1, &sp_out, &fo);
	p_installfd(S, 0, sp_in);
	p_installfd(S, 1, sp_out);
	I = mkend("typist", in, 1, -1, fi);
	O = mkend("reader", out, -1, 101, fo);
}

static int only_spipe(struct proc * p, int kind, const char * l) { return (p == S); }

static void
world(void)
{

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	w_secret(KEYA, strlen(KEYA));
	W.chfilter = only_spipe;
	W.horizon = W.now + 60 * SEC;
}

static void
mkdecr(const char * opt)
{
	char cmd[200];

	snprintf(cmd, sizeof(cmd), "spiped -d -s [127.0.0.1]:2002 -t [127.0.0.1]:3001 -k /key -F -R %s", opt);
	D = w_spawn("decr", spiped_2_main, cmd);
}

/* Claims of the exit status. */
static void
truth(int sig)
{
	struct ep * t = T && T->nsubs ? T->subs[0] : NULL;

	if (t)
		chk_stream("C01,C13", "stdin->target", t, I);
	chk_stream("C01,C13", "target->stdout", O, t);
	if (S->exited && S->status == 0 && !sig) {
		if (t == NULL)
			violate("C13", "exit status 0 without a connection");
		if (t->got != I->sent || !t->eof)
			violate("C13", "exit status 0, but the target received %zu of %zu bytes (EOF: %d)", t->got, I->sent, t->eof);
		if (O->got != t->sent && !O->closed)
			violate("C13", "exit status 0, but %zu of %zu bytes were written to stdout", O->got, t->sent);
	}
}

static void
ends(void)
{
	static struct ep * eps[4];

	eps[0] = I;
	eps[1] = O;
	eps[2] = T;
	x_trace_note("spipe: exited=%d status=%d", S->exited, S->status);
	finish(eps);
}

/* ------------------------------------------------------------------ */
static const char * copies[][3] = {
	/* stdin, stdout, target */
	{ "w1 c", "e c", "e w1 s c" },
	{ "c", "e c", "w2500 s e c" },
	{ "w9000 c", "e c", "e w10000 s c" },
	{ "w1025 z300 w1024 z200 c", "e c", "r1 w1023 z100 w8193 s e c" },
	{ "z1500 w300 c", "e c", "w700 s e c" },
	{ "w20 c", "z2500 e c", "e z700 w300 c" },
	{ "W900:70 c", "r10 z300 e c", "W900:110 e s c" },
	{ "c", "e c", "s e c" },
};
static const char * sockin[] = { "w1 s e c", "s e c", "w9000 s e c" };

static void
copied(const char * tags)
{
	struct ep * t;

	if (T->nsubs != 1)
		violate(tags, "%d connections at the target; %s", T->nsubs, w_describe(S));
	t = T->subs[0];
	if (!S->exited)
		violate(tags, "both sides are done but spipe does not end; %s", w_describe(S));
	if (S->status)
		violate(tags, "exit status %d after a clean end; %s", S->status, w_describe(S));
	if (t->got != I->sent || t->badat || !t->eof)
		violate(tags, "the target received %zu of %zu bytes", t->got, I->sent);
	if (O->got != t->sent || O->badat || !O->eof)
		violate(tags, "%zu of %zu bytes were written to stdout", O->got, t->sent);
	if (S->t_exit > t->t_done + 6 * SEC && S->t_exit > O->t_done + SEC)
		violate(tags, "spipe ended only %.1f s after all was done", (S->t_exit - t->t_done) / 1e9);
	truth(0);
}

static void
copy(int n, const char * opt, const char * dopt)
{
	int k = choose_free(n, "traffic"), ty = choose_free(2, "stdio");

	world();
	mkdecr(dopt);
	T = mkserver("target", A_TGT, copies[k][2], 101, 1, 1);
	mkspipe(opt, ty, copies[k][0], copies[k][1], 0);
	I->hdr = O->hdr = 0;
	w_run();
	copied("C13,C02");
	ends();
}

static void
s_copy(void)
{

	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_EAGAIN);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_POLLSUB);
	copy(8, "-f", "-f");
}

static void
s_copy_thr(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	copy(8, "-f", "-f");
}

static void
s_copy_mem(void)
{

	X_ENABLE(K_MEMPREEMPT);
	X_ENABLE(K_PREEMPT);
	copy(2, "-f", "-f");
}

static void
s_copy_opts(void)
{
	static const char * o[][2] = { { "", "" }, { "-j", "-g" }, { "-g", "" }, { "-o 1", "-j" }, { "-f", "" } };
	int k = choose_free(5, "options");

	copy(8, o[k][0], o[k][1]);
}

/* ------------------------------------------------------------------ */
/* Things go wrong at the other end. */
enum { F_REFUSE, F_SLOWREFUSE, F_BLACKHOLE, F_WRONGKEY, F_GARBAGE, F_STALL, F_HSEOF, F_BADPKT, F_RESET, F_RESETHS, F_GREQ, F_BADPKT2, F_LASTKIND };
static int fk;
static struct ref_ep R;
static size_t fr_sent, fr_got;
static uint64_t fr_t;
static int fr_bad;

static int
f_policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{

	*delay = 800 * MS;
	return (fk == F_REFUSE ? CP_REFUSE_ASYNC : fk == F_SLOWREFUSE ? CP_SLOW_REFUSE : fk == F_BLACKHOLE ? CP_BLACKHOLE : CP_ASYNC_OK);
}

static void
f_server(void * a)
{
	uint8_t b[2000], pkt[R_PKT];
	ssize_t n, i;
	int s;

	s = a_accept(a_listen(A_DEC));
	fr_t = W.now;
	patfill(b, 101, 0, 2000);
	switch (fk) {
	case F_GARBAGE:
		a_write(s, b, 2000);
		a_sleep(1e6);
	case F_STALL:
		a_sleep(1e6);
	case F_HSEOF:
		a_write(s, b, 32);
		a_readfull(s, b, 40);
		a_close(s);
		a_sleep(1e6);
	case F_RESETHS:
		a_readfull(s, b, 32);
		a_reset(s);
		a_sleep(1e6);
	}
	ref_init(&R, s, 1, KEYA, strlen(KEYA), 5);
	R.nopfs = 1;
	if (ref_handshake(&R)) {
		a_close(s);
		a_sleep(1e6);
	}
	ref_send(&R, b, 600);
	fr_sent = 600;
	if (fk == F_BADPKT || fk == F_BADPKT2) {
		ref_encrypt(&R.s, R.s.pnum, b + 600, 100, 100, pkt);
		pkt[fk == F_BADPKT ? 5 : R_PKT - 1] ^= 1;
		a_sleep(0.3);
		fr_t = W.now;
		a_write(s, pkt, R_PKT);
		a_sleep(1e6);
	}
	/* F_RESET. */
	n = ref_recv(&R, b);
	if (n > 0) {
		for (i = 0; i < n; i++)
			if (b[i] != pat(1, i))
				fr_bad = 1;
		fr_got = n;
	}
	a_sleep(0.2);
	fr_t = W.now;
	a_reset(s);
	a_sleep(1e6);
}

static void
s_fail(void)
{
	static const char * ins[] = { "w100 f", "w100 c", "c", "w100000 f", "w100 z900 c" };
	int k = choose_free(5, "stdin"), ty = choose_free(2, "stdio");
	uint64_t lim;

	fk = choose_free(F_LASTKIND, "failure");
	world();
	W.connect_policy = f_policy;
	w_actor("server", f_server, NULL);
	mkspipe(fk == F_GREQ ? "-g -o 2" : "-f -o 2", ty, ins[k], "e c", fk == F_WRONGKEY);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_POLLSUB);
	w_run();
	if (!S->exited)
		violate("C13,C07", "still running after the connection failed: %s", w_describe(S));
	if (S->status == 0)
		violate("C13", "exit status 0 though the connection failed");
	/* A thread may write into the connection which is gone. */
	if (S->status != 1 && S->status != 1000 + SIGPIPE)
		violate("C13", "exit status %d", S->status);
	chk_words(S, "spipe", 0);
	if (S->status == 1 && S->outlen == 0)
		violate("C33", "exit status 1 without a word");
	if (O->got > fr_sent || O->badat || fr_bad)
		violate("C01,C03,C13", "%zu bytes on stdout, %zu were sent", O->got, fr_sent);
	lim = fk == F_SLOWREFUSE ? 1000 * SEC + 800 * MS : fk == F_BLACKHOLE || fk == F_STALL ? 1002 * SEC : fr_t ? fr_t : 1000 * SEC;
	if (S->t_exit > lim + 100 * MS)
		violate("C13,C07", "exit %.3f s after the failure", (S->t_exit - lim) / 1e9);
	if ((fk == F_BADPKT || fk == F_BADPKT2) && O->got != 600)
		violate("C13", "the 600 bytes sent before the bad packet were not all written to stdout (%zu)", O->got);
	ends();
}

/* ------------------------------------------------------------------ */
/* Things go wrong on this side. */
static void
s_local(void)
{
	static const char * t[][3] = {
		{ "w100 f", "r100 c", "w300 z500 w300 z500 w300 f" },	/* stdout goes away */
		{ "w100 c", "c", "z200 w300 z500 w300 s e c" },
		{ "w100 z400 R", "e c", "w300 e z300 s c" },		/* stdin fails */
		{ "R", "e c", "w300 f" },
	};
	int k = choose_free(4, "case"), ty = choose_free(2, "stdio");

	world();
	mkdecr("-f");
	T = mkserver("target", A_TGT, t[k][2], 101, 1, 1);
	mkspipe("-f", ty, t[k][0], t[k][1], 0);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_SHORTW);
	W.horizon = W.now + 10 * SEC;
	w_run();
	if (k < 2 || ty == 1) {
		if (k < 2 && !S->exited)
			violate("C13", "still running though stdout is closed: %s", w_describe(S));
		if (k < 2 && S->status == 0)
			violate("C13", "exit status 0 though stdout was closed before all was written");
	}
	truth(0);
	ends();
}

/* ------------------------------------------------------------------ */
/* Termination, also together with a failure. */
static int t_ms;
static void t_killer(void * a) { a_sleep(t_ms / 1000.0); S->t_sig = W.now; w_kill(S, SIGTERM); }
static int term_f(struct proc * p, int kind, const char * l) { return (p == S && (kind != K_SIGNAL || W.now < 1010 * SEC)); }

static void
term_check(void)
{

	truth(1);
	if (S->t_sig == 0) {
		ends();
	}
	if (!S->exited)
		violate("C13", "still running after SIGTERM: %s", w_describe(S));
	if (S->status != 0 && S->status != 1 && S->status != 1000 + SIGTERM)
		violate("C13", "exit status %d after SIGTERM: %s", S->status, w_describe(S));
	if (S->status == 1000 + SIGTERM && S->sig_ready)
		violate("C13", "killed by SIGTERM though it was handled");
	if (S->t_exit > S->t_sig + 1100 * MS)
		violate("C13", "exit only %.3f s after SIGTERM", (S->t_exit - S->t_sig) / 1e9);
	ends();
}

static void
s_term(void)
{
	static const char * c[][3] = {
		{ "w100 f", "e c", "w300 f" },
		{ "w100 c", "e c", "w300 z2500 w100 e s c" },
		{ "w100 z1700 w10 f", "e c", "w300 s f" },
		{ "W100000:900 f", "z2500 e c", "W100000:900 f" },
	};
	int k = choose_free(4, "traffic");

	world();
	W.chfilter = term_f;
	mkdecr("-f");
	W.default_cap = 5000;
	T = mkserver("target", A_TGT, c[k][2], 101, 1, 1);
	mkspipe("-f", choose_free(2, "stdio"), c[k][0], c[k][1], 0);
	S->sig_armed = SIGTERM;
	X_ENABLE(K_SIGNAL);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	W.horizon = W.now + 12 * SEC;
	w_run();
	term_check();
}

/* The connection breaks in the second in which SIGTERM is noticed. */
static int tb_ms, tb_kind;
static void
tb_server(void * a)
{
	uint8_t b[2000];
	int s;

	s = a_accept(a_listen(A_DEC));
	patfill(b, 101, 0, 2000);
	ref_init(&R, s, 1, KEYA, strlen(KEYA), 5);
	R.nopfs = 1;
	if (ref_handshake(&R))
		return;
	ref_send(&R, b, 600);
	fr_sent = 600;
	a_sleep(tb_ms / 1000.0);
	if (tb_kind == 0)
		a_reset(s);
	else if (tb_kind == 1)
		a_write(s, b, 1060);
	else
		a_close(s);
	a_sleep(1e6);
}

static void
s_termbreak(void)
{
	static const int ms[] = { 1, 999, 1000, 1001, 1500 };
	static const char * in[] = { "w100 f", "w100 c" };
	int k;

	tb_kind = choose_free(3, "end");
	t_ms = choose_free(2, "signal") ? 3 : 700;
	tb_ms = ms[choose_free(5, "when")];
	k = choose_free(2, "stdin");
	world();
	w_actor("server", tb_server, NULL);
	mkspipe("-f", 0, in[k], "e c", 0);
	w_actor("killer", t_killer, NULL);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_PREEMPT);
	X_ENABLE(K_POLLSUB);
	X_ENABLE(K_TIME);
	X_ENABLE(K_SYSFAIL);
	W.horizon = W.now + 12 * SEC;
	w_run();
	if (O->got > fr_sent || O->badat)
		violate("C01,C13", "wrong data on stdout");
	if (!S->exited)
		violate("C13", "still running after SIGTERM: %s", w_describe(S));
	if (S->status >= 1000 && S->status != 1000 + SIGTERM)
		violate("C13", "exit status %d", S->status);
	ends();
}

/* ------------------------------------------------------------------ */
/* Any system call, or allocation, fails. */
static void
sysfail(int kind)
{
	static const char * t[][3] = {
		{ "w100 c", "e c", "w300 s e c" },
		{ "w3000 z100 w10 c", "e c", "e w3000 s c" },
	};
	int k = choose_free(2, "traffic");

	world();
	mkdecr("-f");
	T = mkserver("target", A_TGT, t[k][2], 101, 1, 1);
	mkspipe("-f", 0, t[k][0], t[k][1], 0);
	/* getopt() has no way to fail. */
	W.abort_ok = "Failed to allocate memory in getopt";
	X_ENABLE(kind);
	X_ENABLE(K_NETERR);
	W.horizon = W.now + 30 * SEC;
	w_run();
	if (!S->exited)
		violate("C28,C13,C27,C33", "spipe hangs after a failure: %s", w_describe(S));
	if (S->status != 0 && S->status != 1 && S->status != 1000 + SIGPIPE && S->status != 1000 + SIGABRT)
		violate("C28,C13", "exit status %d: %s", S->status, w_describe(S));
	chk_words(S, "spipe", 0);
	if (S->status == 1 && S->outlen == 0)
		violate("C33", "exit status 1 without a word");
	truth(0);
	ends();
}
static void s_sysfail(void) { sysfail(K_SYSFAIL); }
static void s_oom(void) { sysfail(K_ALLOC); }

/* ------------------------------------------------------------------ */
/* The key comes from stdin. */
static void
key_typist(void * a)
{
	a_write(3, KEYA, 10);
	a_sleep(0.2);
	a_write(3, KEYA + 10, strlen(KEYA) - 10);
	a_close(3);
}

static void
s_keystdin(void)
{
	struct sfile * n, * f, * fo;
	struct ep * eps[3] = { NULL };
	int ty = choose_free(2, "stdio");

	world();
	mkdecr("-f");
	T = mkserver("target", A_TGT, "w5000 s e c", 101, 1, 1);
	S = w_spawn("spipe", spipe_1_main, "spipe -t [127.0.0.1]:2002 -k - -f");
	w_delay(S, MS);
	mkpair(ty, 0, &n, &f);
	p_installfd(S, 0, n);
	p_installfd(w_actor("typist", key_typist, NULL), 3, f);
	mkpair(ty, 1, &sp_out, &fo);
	p_installfd(S, 1, sp_out);
	O = mkend("reader", "e c", -1, 101, fo);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_EINTR);
	w_run();
	if (!S->exited || S->status)
		violate("C13,C18", "spipe -k - failed: %s", w_describe(S));
	if (T->nsubs != 1 || T->subs[0]->got || !T->subs[0]->eof)
		violate("C13,C18", "the key, or nothing at all, was sent to the target");
	if (O->got != 5000 || O->badat || !O->eof)
		violate("C13,C18", "stdout got %zu bytes of 5000", O->got);
	eps[0] = O;
	eps[1] = T;
	finish(eps);
}

static const struct x_scenario scens[] = {
	{ "copy", s_copy, 1, 2, "C13,C02,C01,C34" },
	{ "copy_thr", s_copy_thr, 1, 3, "C13,C27" },
	{ "copy_mem", s_copy_mem, 1, 2, "C13,C27" },
	{ "copy_opts", s_copy_opts, 0, 0, "C13" },
	{ "fail", s_fail, 1, 2, "C13,C07,C03,C33,C34" },
	{ "local", s_local, 2, 3, "C13" },
	{ "term", s_term, 1, 2, "C13" },
	{ "termbreak", s_termbreak, 1, 2, "C13" },
	{ "sysfail", s_sysfail, 2, 3, "C28,C13,C27,C33" },
	{ "oom", s_oom, 2, 3, "C28,C13,C27,C33,C34" },
	{ "keystdin", s_keystdin, 2, 3, "C13,C18" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
