/* Lives of connections: timeouts, ends, limits, fallback, termination. */
#include <netinet/in.h>
#include <netinet/tcp.h>
#include "topo.h"

#define MS 1000000ULL
static struct ep * U, * U2, * T, * PR;
static struct proc * E, * D;

static void
start(int which, const char * eopt, const char * dopt, const char * etgt, const char * dtgt)
{
	char cmd[256];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	w_secret(KEYA, strlen(KEYA));
	if (which & 2) {
		snprintf(cmd, sizeof(cmd), "spiped -d -s [127.0.0.1]:2002 -t %s -k /key -F %s", dtgt, dopt);
		D = w_spawn("decr", spiped_2_main, cmd);
	}
	if (which & 1) {
		snprintf(cmd, sizeof(cmd), "spiped -e -s [127.0.0.1]:1001 -t %s -k /key -F %s", etgt, eopt);
		E = w_spawn("encr", spiped_1_main, cmd);
	}
	W.horizon = W.now + 60 * SEC;
}

/* What a daemon holds. */
struct base { long blocks, bn, fops, ai; int fds; int set; };
static void
snap(struct base * b, struct proc * p)
{

	b->blocks = p->heap_blocks;
	b->bn = p->bn_live;
	b->fops = p->fopen_live;
	b->ai = p->ai_live;
	b->fds = w_openfds(p);
	b->set = 1;
}

static void
same(const char * tags, struct proc * p, const struct base * b)
{
	struct base n;

	if (!b->set)
		return;
	snap(&n, p);
	if (n.fds != b->fds)
		violate(tags, "%s holds %d descriptors after the connection, %d before it", p->name, n.fds, b->fds);
	if (n.blocks != b->blocks)
		violate(tags, "%s holds %ld blocks of memory after the connection, %ld before it", p->name, n.blocks, b->blocks);
	if (n.bn != b->bn || n.fops != b->fops || n.ai != b->ai)
		violate(tags, "%s holds library objects after the connection", p->name);
}

static void
alive(const char * tags)
{

	if ((E && E->exited) || (D && D->exited))
		violate(tags, "a daemon exited by itself: %s / %s", E ? w_describe(E) : "-", D ? w_describe(D) : "-");
}

/* The idx'th socket accepted by p, NULL if none. */
static struct sfile *
accepted(struct proc * p, int idx)
{
	int i;

	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type == F_SOCK && f->creator == p && f->accepted && idx-- == 0)
			return (f);
	}
	return (NULL);
}

/* Sockets of p open now: accepted ones, or made by itself. */
static int
nopen(struct proc * p, int acc)
{
	int i, n = 0;

	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type == F_SOCK && f->creator == p && !f->listening && !f->closed && !f->ispair && !!f->accepted == acc)
			n++;
	}
	return (n);
}

/* ------------------------------------------------------------------ */
/* A peer which stalls, or trickles, during the handshake. */
static int st_cut, st_gap_ms, st_burst_at_ms, st_side, st_weak;
static size_t st_out;
static int st_hs, st_rxbad;
static size_t st_got;
static double st_o;
static uint64_t st_slow;	/* the time which the connect takes */
static struct ref_ep R;

static void
paced(int s, const uint8_t * b, size_t n)
{
	size_t i;

	if (st_gap_ms == 0 && st_out + n <= (size_t)st_cut) {
		st_out += n;
		a_write(s, b, n);
		return;
	}
	for (i = 0; i < n; i++) {
		if (st_out == (size_t)st_cut) {
			if (st_burst_at_ms < 0) {
				uint8_t x;

				/* Hold on until the daemon closes. */
				while (a_read(s, &x, 1) > 0)
					;
				a_close(s);
				a_sleep(1e6);
			} else {
				/* The rest comes at this moment. */
				uint64_t t = R.fd + st_burst_at_ms;	/* unused */

				(void)t;
				a_sleep(st_burst_at_ms / 1000.0);
				st_cut = 1 << 30;
				st_gap_ms = 0;
			}
		}
		if (st_gap_ms == 0 && st_cut == 1 << 30) {
			a_write(s, b + i, n - i);
			st_out += n - i;
			return;
		}
		if (a_write(s, b + i, 1))
			return;
		st_out++;
		if (st_gap_ms)
			a_sleep(st_gap_ms / 1000.0);
	}
}

static void
st_body(int s, int decr)
{
	uint8_t dc[32], ds[32], y[256] = { 0 }, rx[R_YH], yh[R_YH], buf[1024];
	uint8_t * nc, * ns;
	ssize_t n, i;

	ref_init(&R, s, decr, KEYA, strlen(KEYA), 5);
	paced(s, R.nl, 32);
	if (a_readfull(s, R.nr, 32) != 32)
		return;
	nc = decr ? R.nr : R.nl;
	ns = decr ? R.nl : R.nr;
	ref_dhmac(R.K, nc, ns, dc, ds);
	y[255] = 1;
	ref_mkyh(y, decr ? ds : dc, yh);
	if (decr && a_readfull(s, rx, R_YH) != R_YH)
		return;
	paced(s, yh, R_YH);
	if (!decr && a_readfull(s, rx, R_YH) != R_YH)
		return;
	st_hs = 1;
	ref_keyset(R.K, nc, ns, ysc_one, &R.c, &R.s);
	/* Idle for long, then data both ways. */
	a_sleep(25);
	patfill(buf, decr ? 101 : 1, 0, 300);
	ref_send(&R, buf, 300);
	a_shut(s);
	while ((n = ref_recv(&R, buf)) > 0) {
		for (i = 0; i < n; i++)
			if (buf[i] != pat(decr ? 1 : 101, st_got + i))
				st_rxbad = 1;
		st_got += n;
	}
	a_close(s);
}
static void st_server(void * a) { int l = a_listen(A_MID); st_body(a_accept(l), 1); }
static void st_client(void * a) { int s; a_sleep(0.001); if ((s = a_connect(A_DEC)) >= 0) st_body(s, 0); }

static const struct { const char * opt; double o; } timeos[] = {
	{ "", 5 }, { "-o 1", 1 }, { "-o 0.5", 0.5 }, { "-o 12.25", 12.25 }, { "-o 2.000001", 2.000001 }, { "-o 3e0", 3 },
};

static struct base b0;

static void
st_start(int o)
{
	static char opt[64];

	snprintf(opt, sizeof(opt), "-f %s", timeos[o].opt);
	st_o = timeos[o].o;
	start(st_side ? 2 : 1, opt, opt, "[127.0.0.1]:2001", "[127.0.0.1]:3001");
	if (st_side) {
		T = mkserver("target", A_TGT, "w700 e s c", 101, 1, 1);
		w_actor("peer", st_client, NULL);
	} else {
		U = mkclient("user", A_ENC, "w700 e s c", 1, 101);
		U->hdr = -1;
		w_actor("peer", st_server, NULL);
	}
	W.horizon = W.now + 80 * SEC;
}

/*
 * Check that the daemon dropped the connection at the limit (counted from
 * the connection's start), or kept it when the handshake was done.
 */
static void
st_check(int must_work)
{
	struct proc * p = st_side ? D : E;
	struct sfile * a = accepted(p, 0), * c = conn_to(p, st_side ? A_TGT : A_MID, 0);
	struct ep * e = st_side ? (T->nsubs ? T->subs[0] : NULL) : U, * eps[] = { e, NULL };
	uint64_t t0, lim;

	if (a == NULL || c == NULL)
		violate("C07,C12,C02", "no connection: %s", w_describe(p));
	/*
	 * The encrypting side's handshake begins when it is connected; both
	 * limits of the decrypting side begin with the client's connection.
	 */
	t0 = st_side ? a->t_conn : st_slow ? a->t_conn + st_slow : c->t_conn;
	lim = (uint64_t)(st_o * 1e9);
	if (must_work) {
		if (!st_hs || e == NULL || e->got != 300 || e->badat || !e->eof || st_got != 700 || st_rxbad)
			violate("C07,C02", "a handshake completed within the limit, but the data did not pass (%s: %zu, peer: %zu)",
			    e ? e->name : "-", e ? e->got : 0, st_got);
	} else {
		if (!a->closed || !c->closed)
			violate("C07,C08", "the connection is still open though the handshake never finished");
		if (a->t_closed < t0 + lim - 2 * MS || c->t_closed < t0 + lim - 2 * MS)
			violate("C07", "the connection was dropped %.6f s after its start; the limit is %.6f s", (a->t_closed - t0) / 1e9, st_o);
		if (a->t_closed > t0 + lim + 10 * MS || c->t_closed > t0 + lim + 10 * MS)
			violate("C07", "the connection was dropped only %.6f s after its start; the limit is %.6f s", (a->t_closed - t0) / 1e9, st_o);
		if (e && e->got)
			violate("C03", "data was delivered without a handshake");
	}
	alive("C07,C14,C08");
	same("C08,C07", p, &b0);
	finish(eps);
}

static void
snapper(void * a)
{

	/* Once the daemon is idle, before any connection. */
	a_sleep(0.0005);
	snap(&b0, st_side ? D : E);
}

static void
s_stall(void)
{
	static const int cuts[] = { 0, 1, 16, 31, 32, 33, 64, 160, 255, 256, 287, 288, 289, 318, 319 };

	st_side = choose_free(2, "side");
	st_cut = choose_free(15, "cut");
	st_gap_ms = 0;
	st_burst_at_ms = -1;
	st_cut = cuts[st_cut];
	st_start(choose_free(6, "timeout"));
	w_actor("snap", snapper, NULL);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EAGAIN);
	X_ENABLE(K_EINTR);
	W.horizon = W.now + 30 * SEC;
	w_run();
	st_check(0);
}

/* Bytes come one at a time: the total counts, not the pauses. */
static void
s_trickle(void)
{
	static const int gaps[] = { 10, 14, 17, 40, 200, 700 };

	st_side = choose_free(2, "side");
	st_gap_ms = gaps[choose_free(6, "gap")];
	st_cut = 1 << 30;
	st_burst_at_ms = -1;
	st_start(0);
	w_actor("snap", snapper, NULL);
	w_run();
	/* 320 pauses (319 until the last byte). */
	st_check(320 * st_gap_ms < 5000);
}

/* The handshake ends just before, or just after, the limit. */
static int
nick_policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{

	if (p != (st_side ? D : E))
		return (CP_ASYNC_OK);
	*delay = st_slow;
	return (CP_SLOW_OK);
}

static void
s_nick(void)
{
	static const int cuts[] = { 0, 31, 32, 100, 319 };
	int o = choose_free(4, "timeout"), late, k;

	st_side = choose_free(2, "side");
	st_cut = cuts[choose_free(5, "cut")];
	late = choose_free(2, "late");
	st_gap_ms = 0;
	k = (int)(timeos[o].o * 1000);
	st_burst_at_ms = late ? k + 40 : k - 40;
	/* The connect alone may take nearly as long as it may. */
	st_slow = choose_free(2, "slow connect") ? (uint64_t)(timeos[o].o * 1e9) - 20 * MS : 0;
	st_start(o);
	if (st_slow)
		W.connect_policy = nick_policy;
	w_actor("snap", snapper, NULL);
	w_run();
	st_check(!late);
}

/* ------------------------------------------------------------------ */
/* The target's address does not answer (in time). */
static int bh_pol;
static uint64_t bh_delay;
static int
bh_policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{
	struct saddr t = mkaddr(p == E ? A_DEC : A_TGT);
	int k = (p == E) ? 0 : 1;

	(void)t;
	if (k != (st_side ? 1 : 0))
		return (CP_ASYNC_OK);
	*delay = bh_delay;
	return (bh_pol);
}

static void
s_connect(void)
{
	static const int pols[] = { CP_BLACKHOLE, CP_SLOW_OK, CP_SLOW_OK, CP_SLOW_REFUSE, CP_SLOW_REFUSE, CP_REFUSE_ASYNC, CP_REFUSE_SYNC, CP_SLOW_OK };
	static const int ms[] = { 0, -40, 40, -40, 40, 0, 0, -2500 };
	int o = choose_free(6, "timeout"), k = choose_free(8, "connect"), works;
	struct ep * eps[] = { NULL, NULL, NULL };
	struct sfile * a, * ea;
	struct proc * p;
	char opt[64];
	uint64_t t0, end, lim;

	st_side = choose_free(2, "side");
	snprintf(opt, sizeof(opt), "-f %s", timeos[o].opt);
	/* Only the daemon concerned has the limit. */
	start(3, st_side ? "-f -o 70" : opt, st_side ? opt : "-f -o 70", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	W.horizon = W.now + 120 * SEC;
	lim = (uint64_t)(timeos[o].o * 1e9);
	bh_pol = pols[k];
	bh_delay = ms[k] == -2500 ? lim / 2 : ms[k] ? lim + ms[k] * (int64_t)MS : 0;
	W.connect_policy = bh_policy;
	eps[0] = U = mkclient("user", A_ENC, "w700 s e c", 1, 101);
	U->hdr = -1;
	eps[1] = T = mkserver("target", A_TGT, "w800 s e c", 101, 1, 1);
	w_actor("snap", snapper, NULL);
	X_ENABLE(K_SHORTR);
	w_run();
	p = st_side ? D : E;
	if ((a = accepted(p, 0)) == NULL || (ea = accepted(E, 0)) == NULL)
		violate("C07,C02", "no connection");
	t0 = a->t_conn;
	works = (k == 1 || k == 7);
	if (works) {
		if (T->nsubs != 1)
			violate("C07,C12", "a connect which succeeded in time was given up");
		chk_complete("C07,C02", "user->target", T->subs[0], U);
		chk_complete("C07,C02", "target->user", U, T->subs[0]);
	} else {
		end = t0 + (k == 0 || k == 2 || k == 4 ? lim : k == 3 ? bh_delay : 0);
		if (U->got)
			violate("C03,C12", "the user received data from nowhere");
		if (!a->closed || !U->done)
			violate("C07,C08,C12", "the connection was not dropped though the target never accepted");
		if (a->t_closed + 2 * MS < end)
			violate("C07", "the connection was dropped %.6f s after its start, limit %.6f s", (a->t_closed - t0) / 1e9, timeos[o].o);
		if (a->t_closed > end + 10 * MS)
			violate("C07,C12", "the connection was dropped %.6f s after its start instead of %.6f s", (a->t_closed - t0) / 1e9, (end - t0) / 1e9);
	}
	if (nopen(E, 0) + nopen(D, 0) + nopen(E, 1) + nopen(D, 1))
		violate("C08,C12", "sockets are left open");
	alive("C07,C14,C08");
	same("C08,C07", p, &b0);
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* All ways for a connection to end; then another one. */
static struct base be, bd;
static void
snap2(void * a)
{

	a_sleep(2);
	if (accepted(E, 0) && (nopen(E, 1) || nopen(D, 1)))
		return;
	snap(&be, E);
	snap(&bd, D);
}

static int
life_filter(struct proc * p, int kind, const char * label)
{

	/* Only while the second user is there. */
	return (W.now >= 1000 * SEC + 3 * SEC && W.now < 1000 * SEC + 15 * SEC);
}

static int (* life_chf)(struct proc *, int, const char *) = life_filter;

static void
after_life(struct ep ** eps)
{
	struct ep * t = NULL;
	int i;

	/* The last user (number 3) must be served well. */
	alive("C08,C14");
	for (i = 0; i < T->nsubs; i++)
		if (T->subs[i]->expect == 3)
			t = T->subs[i];
	if (t == NULL)
		violate("C08,C14", "no service after the connection ended: %s / %s", w_describe(E), w_describe(D));
	chk_complete("C08,C14", "user->target", t, PR);
	chk_complete("C08,C14", "target->user", PR, t);
	if (nopen(E, 0) + nopen(D, 0) + nopen(E, 1) + nopen(D, 1))
		violate("C08", "sockets are left open: encr %d+%d decr %d+%d", nopen(E, 1), nopen(E, 0), nopen(D, 1), nopen(D, 0));
	same("C08", E, &be);
	same("C08", D, &bd);
	finish(eps);
}

static const char * lives[][2] = {
	{ "w3000 s e c", "r1 w2000 e s c" },
	{ "w3000 e s c", "r1 w2000 s e c" },
	{ "w1 e s c", "r1 w2000 R" },
	{ "w2000 R", "r1 w2000 e s c" },
	{ "w2000 z100 R", "r1 w2000 e s c" },
	{ "w2000 c", "r1 w2000 e s c" },
	{ "w2000 z100 c", "r1 w2000 e s c" },
	{ "w1 r100 c", "r1 w2000 e s c" },
	{ "c", "r1 s e c" },
	{ "R", "r1 s e c" },
	{ "s e c", "s e c" },
	{ "w60000 e s c", "r1 c" },
	{ "w1 e s c", "r1 w60000 z10 R" },
	{ "w1 s z200 R", "r1 w500 z10 w500 z1000 w500 s e c" },
};

static void
life(int o, const char * opt)
{
	static struct ep * eps[5];
	static char u2[64];

	start(3, opt, opt, "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	/* A first, complete connection; then all that stays allocated is. */
	eps[0] = U = mkclient("user1", A_ENC, "w500 s e c", 1, 101);
	U->hdr = -1;
	w_actor("snap", snap2, NULL);
	eps[1] = U2 = mkclient("user2", A_ENC, lives[o][0], 2, 102);
	U2->hdr = -3500;
	eps[2] = PR = mkclient("user3", A_ENC, "w2000 s e c", 3, 103);
	PR->hdr = -30000;
	(void)u2;
	eps[3] = T = mkserver("target", A_TGT, lives[o][1], 101, -2, 3);
	W.horizon = W.now + 45 * SEC;
	W.chfilter = life_chf;
	W.nerrs = opt[0] ? 6 : 3;
	w_run();
	after_life(eps);
}

static void
life_target(struct ep * s)
{
}

static void
s_life(void)
{
	int o = choose_free(14, "life");

	X_ENABLE(K_NETERR);
	X_ENABLE(K_CONNECT);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_POLLSUB);
	life(o, "-f");
}

static void
s_life_pfs(void)
{
	int o = choose_free(14, "life");

	X_ENABLE(K_NETERR);
	X_ENABLE(K_CONNECT);
	life(o, "");
}

/* System calls on the sockets of one connection fail. */
static int
life_sysfilter(struct proc * p, int kind, const char * l)
{

	return (life_filter(p, kind, l) && (kind != K_SYSFAIL || !strcmp(l, "bind") || !strcmp(l, "socket") || !strcmp(l, "setsockopt") || !strcmp(l, "fcntl")));
}
static void
s_life_sys(void)
{
	int o = choose_free(3, "life") * 4;

	X_ENABLE(K_SYSFAIL);
	X_ENABLE(K_NETERR);
	life_chf = life_sysfilter;
	life(o, choose_free(2, "bind") ? "-f -b [10.0.0.99]:0" : "");
}

/* ------------------------------------------------------------------ */
/* Limits on the number of connections. */
static int lim_n, lim_max_seen;
static struct proc * LP;
static void
lim_step(void)
{
	int n = nopen(LP, 1);

	if (n > lim_max_seen)
		lim_max_seen = n;
	if (lim_n && n > lim_n)
		violate("C09", "%d connections are open at a time; the limit is %d", n, lim_n);
}

static int
lim_policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{
	static int k;

	/* Now and then the target refuses. */
	return (p == LP && ++k == 2 ? CP_REFUSE_ASYNC : CP_ASYNC_OK);
}

static void
s_limit(void)
{
	static const char * us[][6] = {
		{ "w10 s e c", "w20 s e c", "w30 s e c", "w40 s e c", "w50 s e c", "w60 s e c" },
		{ "w10 z300 s e c", "w20 z200 s e c", "w30 z400 s e c", "w40 z100 s e c", "w50 s e c", "w60 z10 s e c" },
		{ "w10 z100 R", "w20 z100 c", "w30 z300 R", "w40 s e c", "w50 z50 R", "w60 s e c" },
		{ "w10 s e c", "R", "c", "w40 z100 s e c", "R", "w60 s e c" },
	};
	int k, i, n, refuse;
	char opt[40];
	struct ep * eps[8], * u[6];

	lim_n = choose_free(4, "limit");
	k = choose_free(4, "users");
	refuse = choose_free(2, "refuse");
	st_side = choose_free(2, "side");
	snprintf(opt, sizeof(opt), "-f -n %d", lim_n);
	start(3, st_side ? "-f" : opt, st_side ? opt : "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	LP = st_side ? D : E;
	W.on_step = lim_step;
	if (refuse)
		W.connect_policy = lim_policy;
	eps[0] = T = mkserver("target", A_TGT, "r1 w100 e s c", 101, -2, 6);
	n = 6;
	for (i = 0; i < n; i++) {
		char nm[10];

		snprintf(nm, sizeof(nm), "user%d", i + 1);
		eps[i + 1] = u[i] = mkclient(strdup(nm), A_ENC, us[k][i], i + 1, -1);
		u[i]->hdr = -1;
	}
	eps[n + 1] = NULL;
	X_ENABLE(K_SCHED);
	X_ENABLE(K_NETERR);
	X_ENABLE(K_POLLSUB);
	W.horizon = W.now + 20 * SEC;
	w_run();
	alive("C09,C14");
	for (i = 0; i < n; i++)
		if (!u[i]->done)
			violate("C09", "%s was never served (limit %d, %s)", u[i]->name, lim_n, w_describe(LP));
	/* Everyone who stayed and had no accident was served. */
	if (!refuse && !(x_bound > 0) && k <= 1)
		for (i = 0; i < n; i++)
			if (u[i]->got != 100)
				violate("C09", "%s got %zu bytes", u[i]->name, u[i]->got);
	if (nopen(LP, 1) || nopen(LP, 0))
		violate("C08,C09", "sockets left open");
	if (lim_n && k == 1 && !refuse && lim_max_seen < lim_n && x_bound == 0)
		violate("C09", "never more than %d connections at a time with a limit of %d", lim_max_seen, lim_n);
	finish(eps);
}

/* The default limit, and no limit. */
#define MANY 130
static int many_fds[MANY];
static void
many_client(void * a)
{
	int i;
	uint8_t b[10] = { 1 };

	a_sleep(0.01);
	for (i = 0; i < MANY; i++) {
		if ((many_fds[i] = a_connect(A_ENC)) < 0)
			violate("C09", "client %d was refused", i);
	}
	a_sleep(1e6);
}
static int many_acc1, many_acc2;
static void many_look1(void * a) { a_sleep(1.5); many_acc1 = nopen(E, 1); a_sleep(2); many_acc2 = nopen(E, 1); lim_max_seen = 0; }
static void
many_target(void * a)
{
	int l = a_listen(A_MID), i, s;
	static int fds[300];

	for (i = 0; i < (lim_n && lim_n < MANY ? lim_n : MANY); i++)
		fds[i] = a_accept(l);
	a_sleep(2.2);
	/* Now some of the connections end. */
	for (i = 0; i < 7; i++) {
		if (i & 1)
			a_reset(fds[i * 2]);
		else
			a_close(fds[i * 2]);
	}
	for (;;)
		a_accept(l);
}

static void
s_many(void)
{
	struct ep * eps[] = { NULL };
	static const char * o[] = { "", "-n 0", "-n 100", "-n 120", "-n 17" };
	static const int lim[] = { 100, 0, 100, 120, 17 };
	int k = choose_free(5, "option"), i, tot = 0, exp;
	char opt[40];

	snprintf(opt, sizeof(opt), "-f -o 1000 %s", o[k]);
	lim_n = lim[k];
	start(1, opt, "", "[127.0.0.1]:2001", "");
	LP = E;
	W.on_step = lim_step;
	w_actor("target", many_target, NULL);
	w_actor("clients", many_client, NULL);
	w_actor("look", many_look1, NULL);
	W.horizon = W.now + 8 * SEC;
	W.maxsteps = 3000000;
	w_run();
	alive("C09,C14");
	exp = lim_n && lim_n < MANY ? lim_n : MANY;
	if (many_acc1 != exp)
		violate("C09", "%d of %d connections are open, not %d", many_acc1, MANY, exp);
	for (i = 0; i < W.nallfiles; i++)
		if (W.allfiles[i]->accepted && W.allfiles[i]->creator == E)
			tot++;
	exp = lim_n == 0 ? MANY : lim_n + 7 < MANY ? lim_n + 7 : MANY;
	if (tot != exp)
		violate("C09", "%d connections were accepted after 7 connections had ended, not %d", tot, exp);
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Several addresses. */
#define FB_MAX 40
static int fb_pol[FB_MAX], fb_n, fb_bindfail = -1;
static const char * fb_addr[FB_MAX] = { "10.0.0.1:3001", "[2001:db8::2]:3001", "10.0.0.3:3001" };
static struct proc * FP;
static int
fb_resolve(struct proc * p, const char * host, const char * serv, struct saddr * out, int max, uint64_t * delay)
{
	int i;

	for (i = 0; i < fb_n; i++)
		out[i] = mkaddr(fb_addr[i]);
	return (fb_n);
}
static int
fb_policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{
	int i;

	if (p != FP)
		return (CP_ASYNC_OK);
	for (i = 0; i < fb_n; i++) {
		struct saddr x = mkaddr(fb_addr[i]);

		if (saddr_eq(a, &x)) {
			*delay = 700 * MS;
			return (fb_pol[i]);
		}
	}
	violate("C12", "connecting to an address which the target does not have");
	return (CP_REFUSE_ASYNC);
}
static void
fb_step(void)
{

	if (nopen(FP, 0) > nopen(FP, 1))
		violate("C12,C08", "%d target sockets for %d connections", nopen(FP, 0), nopen(FP, 1));
}

/* A target with all addresses: a forwarding relay to A_DEC for side 0. */
static void
fallback(int errs)
{
	static const int pols[] = { CP_ASYNC_OK, CP_IMMEDIATE, CP_REFUSE_ASYNC, CP_REFUSE_SYNC, CP_SLOW_REFUSE, CP_BLACKHOLE, CP_SLOW_OK };
	int i, j, b, good = -1, dead = 0, seen, k = 0;
	struct ep * eps[FB_MAX + 1] = { NULL }, * t[FB_MAX] = { NULL }, * w = NULL;
	uint64_t at = 0;
	char o[80];

	if (errs == 2) {
		/* Long lists: one of the addresses works, or none. */
		static const int ns[] = { 4, 5, 8, 9, 16, 17, 33, 40 };
		static char more[FB_MAX][24];
		int how = choose_free(5, "how the others fail");

		fb_n = ns[choose_free(8, "addresses")];
		good = choose_free(fb_n + 1, "the address which works");
		for (i = 0; i < fb_n; i++) {
			fb_pol[i] = i == good ? CP_ASYNC_OK : how == 4 ? pols[2 + i % 2] : how == 3 ? pols[2 + (i + 1) % 2] : how == 2 && i == fb_n / 2 ? CP_SLOW_REFUSE : how == 1 ? CP_REFUSE_SYNC : CP_REFUSE_ASYNC;
			if (i >= 3) {
				snprintf(more[i], sizeof(more[i]), i & 1 ? "10.0.1.%d:3001" : "[2001:db8::%d]:3001", i + 10);
				fb_addr[i] = more[i];
			}
		}
		good = -1;
		errs = b = 0;
	} else if (errs) {
		/* All that can be wrong with an address. */
		static const int errnos[] = { ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES, EADDRNOTAVAIL, EADDRINUSE, ENETDOWN, EHOSTDOWN, EPERM, EAFNOSUPPORT, EAGAIN, ENOBUFS, EINVAL, EPROTO };

		fb_n = 2 + choose_free(2, "addresses");
		for (i = 0; i < fb_n - 1; i++)
			fb_pol[i] = pols[2 + choose_free(3, "policy")];
		fb_pol[i] = choose_free(2, "last") ? CP_REFUSE_ASYNC : CP_ASYNC_OK;
		errs = errnos[choose_free(16, "error")];
		b = 0;
	} else {
		fb_n = 1 + choose_free(3, "addresses");
		for (i = 0; i < fb_n; i++)
			fb_pol[i] = pols[choose_free(7, "policy")];
		b = choose_free(3, "bind");
	}
	start(2, "", "", "", b == 0 ? "target.example:3001" : b == 1 ? "target.example:3001 -b [10.0.0.99]" : "target.example:3001 -b [10.0.0.99]:777");
	(void)o;
	W.cerr = errs;
	FP = D;
	D->argv[D->argc - 1] = strdup("-F");
	W.resolve = fb_resolve;
	W.connect_policy = fb_policy;
	W.on_step = fb_step;
	/* The reference client on the encrypted side. */
	st_cut = 1 << 30;
	st_side = 1;
	w_actor("peer", st_client, NULL);
	for (i = 0; i < fb_n; i++) {
		static char nm[FB_MAX][10];

		snprintf(nm[i], 10, "target%d", i);
		/* (Of a long list only some can do more than refuse.) */
		if (i >= 3 && fb_pol[i] != CP_ASYNC_OK)
			continue;
		eps[k++] = t[i] = mkserver(nm[i], fb_addr[i], "w700 e s c", 101, 1, 2);
	}
	X_ENABLE(K_SHORTR);
	W.horizon = W.now + 50 * SEC;
	w_run();
	alive("C12,C14");
	/* What should have happened. */
	for (i = 0; i < fb_n && good < 0 && !dead; i++) {
		if (fb_pol[i] == CP_ASYNC_OK || fb_pol[i] == CP_IMMEDIATE || fb_pol[i] == CP_SLOW_OK)
			good = i;
		else if (fb_pol[i] == CP_BLACKHOLE)
			dead = 1;
		else if (fb_pol[i] == CP_SLOW_REFUSE)
			at += 700 * MS;
	}
	/* The addresses, in order, up to that point. */
	for (j = 0, seen = 0; j < W.nallfiles; j++) {
		struct sfile * f = W.allfiles[j];

		if (f->type != F_SOCK || f->creator != D || f->accepted || f->listening || f->remote.len == 0)
			continue;
		struct saddr x;

		if (seen >= i)
			violate("C12", "more addresses were tried after the connection was made or given up");
		x = mkaddr(fb_addr[seen]);
		if (!saddr_eq(&x, &f->remote))
			violate("C12", "address %d was not tried in its place", seen);
		if (b) {
			x = mkaddr(b == 1 ? "10.0.0.99:0" : "10.0.0.99:777");
			if (!f->isbound || !saddr_eq(&f->local, &x))
				violate("C12", "connecting from an address other than that of -b");
		} else if (f->isbound)
			violate("C12", "the outgoing socket was bound without -b");
		seen++;
	}
	if (seen != i)
		violate("C12", "%d addresses were tried, not %d", seen, i);
	for (k = 0; k < fb_n; k++) {
		if (k != good && t[k] && t[k]->nsubs)
			violate("C12", "target %d got a connection", k);
		if (k == good && t[k]->nsubs != 1)
			violate("C12", "target %d got %d connections, not one", k, t[k]->nsubs);
	}
	if (good >= 0) {
		w = t[good]->subs[0];
		if (w->got != 300 || w->badat || st_got != 700 || st_rxbad)
			violate("C12,C02", "data did not pass (%zu, %zu)", w->got, st_got);
	} else {
		struct sfile * a = accepted(D, 0);
		uint64_t end = a->t_conn + (dead ? 5 * SEC : at);

		if (!a->closed)
			violate("C12,C08", "the connection was not dropped though no address accepted");
		if (a->t_closed > end + 10 * MS)
			violate("C12,C07", "the connection was dropped %.3f s after its start, not %.3f s", (a->t_closed - a->t_conn) / 1e9, (end - a->t_conn) / 1e9);
		if (a->t_closed + 2 * MS < end)
			violate("C12,C07", "the connection was dropped %.3f s after its start, not %.3f s", (a->t_closed - a->t_conn) / 1e9, (end - a->t_conn) / 1e9);
	}
	if (nopen(D, 0) || nopen(D, 1))
		violate("C08,C12", "sockets left open");
	finish(eps);
}

static void s_fallback(void) { fallback(0); }
static void s_fberr(void) { fallback(1); }
static void s_fblong(void) { fallback(2); }

/* ------------------------------------------------------------------ */
/* Socket options. */
static int only_sockopt(struct proc * p, int kind, const char * l) { return (kind != K_SYSFAIL || (!strcmp(l, "setsockopt") && W.now >= 1000 * SEC + MS)); }

static void
s_sockopt(void)
{
	static const char * o[] = { "-f", "-f -j" };
	static const char * ad[][3] = {
		{ "[127.0.0.1]:1001", "[127.0.0.1]:2002", "[127.0.0.1]:3001" },
		{ "/enc.sock", "[127.0.0.1]:2002", "/tgt.sock" },
	};
	int a = choose_free(2, "enc -j"), b = choose_free(2, "dec -j"), un = choose_free(2, "unix"), i, v, n = 0;
	struct ep * eps[] = { NULL, NULL, NULL };
	char cmd[200];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -d -s %s -t %s -k /key -F %s", ad[un][1], ad[un][2], o[b]);
	D = w_spawn("decr", spiped_2_main, cmd);
	snprintf(cmd, sizeof(cmd), "spiped -e -s %s -t %s -k /key -F %s", ad[un][0], ad[un][1], o[a]);
	E = w_spawn("encr", spiped_1_main, cmd);
	W.horizon = W.now + 5 * SEC;
	eps[0] = U = mkclient("user", un ? "/enc.sock" : A_ENC, "w700 s e c", 1, 101);
	U->hdr = -1;
	eps[1] = T = mkserver("target", un ? "/tgt.sock" : A_TGT, "w800 s e c", 101, 1, 1);
	X_ENABLE(K_SYSFAIL);
	X_ENABLE(K_SHORTR);
	W.chfilter = only_sockopt;
	w_run();
	alive("C16,C14");
	if (T->nsubs != 1)
		violate("C16,C02", "no connection; %s / %s", w_describe(E), w_describe(D));
	chk_complete("C16,C02", "user->target", T->subs[0], U);
	chk_complete("C16,C02", "target->user", U, T->subs[0]);
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];
		int want;

		if (f->type != F_SOCK || f->listening || (f->creator != E && f->creator != D) || f->state != 2 || f->ispair)
			continue;
		n++;
		want = !(f->creator == E ? a : b);
		/* A failing call is an excuse. */
		if (!sock_opt(f, SOL_SOCKET, SO_KEEPALIVE, &v)) {
			if (f->sofail == 0)
				violate("C16", "SO_KEEPALIVE was not set on a socket of %s", f->creator->name);
		} else if (!!v != want)
			violate("C16", "SO_KEEPALIVE is %s on a socket of %s", v ? "on" : "off", f->creator->name);
		if (f->family == AF_UNIX)
			continue;
		if (!sock_opt(f, IPPROTO_TCP, TCP_NODELAY, &v)) {
			if (f->sofail == 0)
				violate("C16", "TCP_NODELAY was not set on a socket of %s", f->creator->name);
		} else if (!v)
			violate("C16", "TCP_NODELAY is off on a socket of %s", f->creator->name);
	}
	if (n != 4)
		violate("C16,C02", "%d sockets instead of 4", n);
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Termination on request. */
static uint64_t tm_last_end;
static int tm_k, tm_n, tm_bad_accepts, tm_acc_before, tm_fired;
static struct proc * TP;
static int tm_mode;
static void
tm_step(void)
{
	int i, n = 0;

	if (TP->t_sig == 0 || TP->exited)
		return;
	for (i = 0; i < W.nallfiles; i++)
		if (W.allfiles[i]->accepted && W.allfiles[i]->creator == TP)
			n++;
	if (W.now > TP->t_sig + 1100 * MS) {
		if (tm_acc_before == 0)
			tm_acc_before = n + 1;
		if (n + 1 > tm_acc_before)
			violate("C10", "a connection was accepted %.3f s after SIGTERM", (W.now - TP->t_sig) / 1e9);
	}
}

static void tm_killer(void * a) { a_sleep(*(int *)a / 1000.0); TP->t_sig = W.now; w_kill(TP, SIGTERM); }

static void
tm_end(struct ep ** us, int nus, struct ep ** eps)
{
	int i, k;
	uint64_t end;

	w_run();
	if ((E != TP && E->exited) || (D && D != TP && D->exited))
		violate("C10,C14", "the other daemon exited");
	if (TP->t_sig == 0) {
		/* It never came. */
		alive("C10,C14");
		for (i = 0; i < nus; i++)
			if (!us[i]->done)
				violate("C10,C02", "%s was not served", us[i]->name);
		finish(eps);
	}
	if (!TP->exited)
		violate("C10", "still running %.1f s after SIGTERM", (W.now - TP->t_sig) / 1e9);
	if (TP->status == 1000 + SIGTERM && !TP->sig_ready)
		/* Before it was ready for it. */
		finish(eps);
	if (TP->status != 0)
		violate("C10", "exit status %d after SIGTERM: %s", TP->status, w_describe(TP));
	/* Every connection it had accepted was served in full. */
	end = TP->t_sig;
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->accepted && f->creator == TP) {
			if (f->t_closed > end)
				end = f->t_closed;
		}
	}
	for (i = 0; i < nus; i++) {
		struct ep * u = us[i], * t = NULL;
		struct sfile * acc = NULL;

		for (k = 0; k < T->nsubs; k++)
			if (T->subs[k]->expect == u->stream)
				t = T->subs[k];
		if (!u->connected)
			continue;
		/* Was it accepted? */
		for (k = 0; k < W.nallfiles; k++)
			if (W.allfiles[k]->peer && W.allfiles[k]->accepted && W.allfiles[k]->creator == E &&
			    W.allfiles[k]->peer->creator == u->proc)
				acc = W.allfiles[k];
		if (acc == NULL)
			continue;
		if (t == NULL) {
			/* Fine if the terminated daemon never took it. */
			if (TP == E || u->got)
				violate("C10", "the connection of %s was cut off", u->name);
			continue;
		}
		if (strchr(u->script, 'R'))
			continue;
		chk_complete("C10,C02", "user->target", t, u);
		chk_complete("C10,C02", "target->user", u, t);
	}
	if (TP->t_exit > end + 1100 * MS)
		violate("C10", "exited only %.3f s after the last connection ended", (TP->t_exit - end) / 1e9);
	if (TP->heap_blocks)
		x_count(1, 1);
	finish(eps);
}

static int term_filter(struct proc * p, int kind, const char * l) { return (kind != K_SIGNAL || W.now < 1020 * SEC); }

static void
s_term(void)
{
	static struct ep * us[4], * eps[6];
	static const char * scr[][2] = {
		{ "w2000 s e c", "r1 w1500 e s c" },
		{ "w10 z2500 w2000 s e c", "r1 w1500 z4000 w10 e s c" },
		{ "w10 r1 s e c", "r1 w9 z3000 w2000 s e c" },
	};
	int k, i;
	char opt[30];

	tm_n = choose_free(3, "connections");
	k = choose_free(3, "script");
	st_side = choose_free(2, "which");
	tm_mode = choose_free(2, "limit");
	snprintf(opt, sizeof(opt), "-f %s", tm_mode ? "-n 1" : "");
	start(3, st_side ? "-f" : opt, st_side ? opt : "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	TP = st_side ? D : E;
	TP->sig_armed = SIGTERM;
	W.chfilter = term_filter;
	W.on_step = tm_step;
	eps[0] = T = mkserver("target", A_TGT, scr[k][1], 101, -2, 3);
	for (i = 0; i < tm_n; i++) {
		static char nm[FB_MAX][10];

		snprintf(nm[i], 10, "user%d", i + 1);
		eps[i + 1] = us[i] = mkclient(nm[i], A_ENC, scr[k][0], i + 1, 101 + i);
		us[i]->hdr = i ? -1200 : -1;
		us[i]->expect = -1;
	}
	/* Expectations depend on the order in which the target saw them. */
	for (i = 0; i < tm_n; i++)
		us[i]->expect = 100 + us[i]->stream;
	X_ENABLE(K_SIGNAL);
	if (strcmp(x_tier, "thorough") == 0)
		X_ENABLE(K_SCHED);
	W.horizon = W.now + 40 * SEC;
	tm_end(us, tm_n, eps);
}

/* At fixed times, with any connection; also during connects and handshakes. */
static void
s_term2(void)
{
	static const int ts[] = { 0, 1, 500, 999, 1000, 1001, 1500, 2700, 4000 };
	static int t;
	static struct ep * us[3], * eps[5];
	int side = choose_free(2, "which"), i;

	t = ts[choose_free(9, "time")];
	start(3, "-f", "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	TP = side ? D : E;
	W.on_step = tm_step;
	w_actor("killer", tm_killer, &t);
	eps[0] = T = mkserver("target", A_TGT, "r1 w2000 z3000 w300 e s c", 101, -2, 3);
	for (i = 0; i < 2; i++) {
		eps[i + 1] = us[i] = mkclient(i ? "user2" : "user1", A_ENC, i ? "w700 s e c" : "w10 z1800 w900 s e c", i + 1, 101 + i);
		us[i]->hdr = i ? -1300 : -1;
	}
	X_ENABLE(K_SCHED);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_POLLSUB);
	X_ENABLE(K_EINTR);
	W.horizon = W.now + 40 * SEC;
	tm_end(us, 2, eps);
}

/* As process 1 of a container, which is only sent the signals it handles. */
static int p1_sig;
static void
p1_killer(void * a)
{

	a_sleep(*(int *)a / 1000.0);
	TP->t_sig = W.now;
	w_kill(TP, p1_sig);
}
static void
s_pid1(void)
{
	static const int ts[] = { 1, 500, 1000, 1001, 2700 };
	static int t;
	static struct ep * us[2], * eps[4];
	int side = choose_free(2, "which"), n = choose_free(3, "connections"), first = choose_free(2, "as process 1"), i;

	p1_sig = choose_free(2, "signal") ? SIGTERM : SIGINT;
	t = ts[choose_free(5, "time")];
	start(3, "-f", "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	TP = side ? D : E;
	if (first)
		TP->pid = 1;
	w_actor("killer", p1_killer, &t);
	eps[0] = T = mkserver("target", A_TGT, "r1 w2000 z3000 w300 e s c", 101, -2, 3);
	for (i = 0; i < n; i++) {
		eps[i + 1] = us[i] = mkclient(i ? "user2" : "user1", A_ENC, i ? "w700 s e c" : "w10 z1800 w900 s e c", i + 1, 101 + i);
		us[i]->hdr = i ? -1300 : -1;
	}
	X_ENABLE(K_SCHED);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_POLLSUB);
	W.horizon = W.now + 40 * SEC;
	if (p1_sig == SIGTERM)
		tm_end(us, n, eps);
	w_run();
	if (!TP->exited || TP->t_exit > TP->t_sig + SEC / 10)
		violate("C10", "SIGINT does not end %s at once", first ? "process 1" : "the daemon");
	if (first ? TP->status != 0 : TP->status != 1000 + SIGINT)
		violate("C10", "status %d after SIGINT", TP->status);
	finish(eps);
}

/* Connections which end badly, with a request to terminate before that. */
static int t3_kind[2], t3_next, t3_server;
static void
t3_conn(int fd, int kind)
{
	struct ref_ep r;
	uint8_t junk[1060];

	patfill(junk, 77, 0, sizeof(junk));
	if (kind >= 4) {
		ref_init(&r, fd, t3_server, KEYA, strlen(KEYA), 3 + kind);
		r.nopfs = 1;
		if (ref_handshake(&r)) {
			a_close(fd);
			return;
		}
	}
	a_sleep(kind < 4 ? 1.2 : 1.4);
	switch (kind) {
	case 0: a_sleep(10); break;
	case 1: a_write(fd, junk, 400); a_sleep(10); break;
	case 2: a_reset(fd); return;
	case 3: break;
	case 4: a_write(fd, junk, 1060); a_sleep(10); break;
	case 5: a_reset(fd); return;
	case 6: a_shut(fd); a_readfull(fd, junk, 0); while (a_read(fd, junk, sizeof(junk)) > 0) ; break;
	case 7: while (a_read(fd, junk, sizeof(junk)) > 0) ; break;
	case 8: a_write(fd, junk, 500); break;
	}
	a_close(fd);
}
static void t3_sub(void * a) { t3_conn(3, *(int *)a); }
static void
t3_srv(void * a)
{
	int l = a_listen(A_MID), fd;

	while (t3_next < 2 && (fd = a_accept(l)) >= 0) {
		struct proc * p = w_actor("peer#", t3_sub, &t3_kind[t3_next++]);

		p_installfd(p, 3, w_cur()->fds[fd]);
		a_close(fd);
	}
	a_sleep(1e6);
}
static void
t3_cli(void * a)
{
	int fd;

	a_sleep(0.05);
	if ((fd = a_connect("127.0.0.1:2002")) >= 0)
		t3_conn(fd, *(int *)a);
}

static void
s_term3(void)
{
	static const int ts[] = { 40, 300, 900, 1350, 1950, 2500 };
	static const char * clear[] = { "w10 e c", "w10 e c", "w10 e c", "w10 e c", "w10 e c", "w10 e c", "w10 z1400 s e c", "w10 z1400 R", "w10 e c" };
	static int t;
	int i, n = 1 + choose_free(2, "connections"), lim;
	struct ep * eps[] = { NULL };
	uint64_t end;
	char opt[40];

	t3_server = !choose_free(2, "which");
	t = ts[choose_free(6, "time")];
	for (i = 0; i < n; i++)
		t3_kind[i] = choose_free(9, "end");
	/* The target's script is the same for both. */
	if ((!t3_server || x_bound > 0) && n == 2 && strcmp(clear[t3_kind[0]], clear[t3_kind[1]]))
		x_leaf();
	lim = choose_free(2, "limit");
	snprintf(opt, sizeof(opt), "-f -o 2 -R %s", lim ? "-n 1" : "");
	start(t3_server ? 1 : 2, opt, opt, "[127.0.0.1]:2001", "[127.0.0.1]:3001");
	TP = t3_server ? E : D;
	w_actor("killer", tm_killer, &t);
	if (t3_server)
		w_actor("peer", t3_srv, NULL);
	else
		T = mkserver("target", A_TGT, clear[t3_kind[0]], 1, -1, 2);
	for (i = 0; i < n; i++) {
		if (t3_server) {
			static char sc[2][40];

			/* In this order. */
			snprintf(sc[i], sizeof(sc[i]), "%s", clear[t3_kind[i]]);
			mkclient("user", A_ENC, sc[i], i + 1, -1);
		} else
			w_actor("peer", t3_cli, &t3_kind[i]);
	}
	W.on_step = tm_step;
	X_ENABLE(K_SCHED);
	W.horizon = W.now + 15 * SEC;
	w_run();
	x_outcome(TP->status * 100 + TP->exited);
	x_sample("%d connections, ends %d and %d, SIGTERM after %d ms: %s", n, t3_kind[0], t3_kind[1], t, w_describe(TP));
	if (!TP->exited)
		violate("C10", "still running %.1f s after SIGTERM", (W.now - TP->t_sig) / 1e9);
	if (TP->status == 1000 + SIGTERM && !TP->sig_ready)
		finish(eps);
	if (TP->status != 0)
		violate("C10", "exit status %d after SIGTERM: %s", TP->status, w_describe(TP));
	end = TP->t_sig;
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (!f->accepted || f->creator != TP)
			continue;
		if (!f->closed)
			violate("C10,C08", "a connection is still open");
		if (f->t_closed > end)
			end = f->t_closed;
		if (f->t_closed < f->t_conn + 1190 * MS && f->t_closed > TP->t_sig + 100 * MS)
			violate("C10", "a connection was cut off %.3f s after SIGTERM", (f->t_closed - TP->t_sig) / 1e9);
	}
	if (TP->t_exit > end + 1100 * MS)
		violate("C10", "exited only %.3f s after the last connection ended", (TP->t_exit - end) / 1e9);
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Hostile neighbours. */
enum { H_EMPTY, H_RESET, H_GARBAGE, H_BIGGARBAGE, H_HALF, H_FLOOD, H_STALL, H_RSTMID, H_MANY, H_NOREAD, H_ABORT, H_ABORTS, H_LAST };
static int hk;
static const char * h_addr;
static void
hostile(void * a)
{
	uint8_t junk[20000];
	int s, i;

	a_sleep(*(int *)a / 1000.0);
	patfill(junk, 55, 0, sizeof(junk));
	if (hk == H_ABORT || hk == H_ABORTS) {
		for (i = 0; i < (hk == H_ABORTS ? 12 : 1); i++)
			if ((s = a_abort(h_addr)) >= 0)
				a_close(s);
		return;
	}
	for (i = 0; i < (hk == H_MANY ? 12 : 1); i++) {
		if ((s = a_connect(h_addr)) < 0)
			return;
		switch (hk) {
		case H_EMPTY:
		case H_MANY:
			a_close(s);
			break;
		case H_RESET:
			a_reset(s);
			break;
		case H_GARBAGE:
			a_write(s, junk, 320);
			a_sleep(0.05);
			a_close(s);
			break;
		case H_BIGGARBAGE:
			a_write(s, junk, sizeof(junk));
			a_sleep(10);
			a_close(s);
			break;
		case H_HALF:
			a_write(s, junk, 33);
			a_shut(s);
			a_sleep(10);
			a_close(s);
			break;
		case H_FLOOD:
			for (;;)
				if (a_write(s, junk, sizeof(junk)) || ++i > 40)
					break;
			a_close(s);
			break;
		case H_STALL:
			a_write(s, junk, 31);
			a_sleep(20);
			a_close(s);
			break;
		case H_RSTMID:
			a_write(s, junk, 5000);
			a_sleep(0.01);
			a_reset(s);
			break;
		case H_NOREAD:
			a_write(s, junk, 3000);
			a_sleep(1e6);
			break;
		}
	}
}

static void
s_hostile(void)
{
	static int when;
	struct ep * eps[5] = { NULL }, * t;
	int side, i, k;

	hk = choose_free(H_LAST, "kind");
	side = choose_free(2, "side");
	when = choose_free(3, "when");
	when = when == 0 ? 1 : when == 1 ? 120 : 400;
	h_addr = side ? A_DEC : A_ENC;
	start(3, "-f", "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	eps[0] = T = mkserver("target", A_TGT, "r1 w900 z200 w1300 e s c", 101, -2, 15);
	eps[1] = U = mkclient("user1", A_ENC, "w800 z300 w1500 s e c", 1, 101);
	eps[2] = U2 = mkclient("user2", A_ENC, "w1200 s e c", 2, 102);
	U->hdr = -100;
	U2->hdr = -12000;
	w_actor("hostile", hostile, &when);
	X_ENABLE(K_SCHED);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_POLLSUB);
	W.horizon = W.now + 15 * SEC;
	W.default_cap = 5000;
	w_run();
	alive("C14");
	for (i = 1; i <= 2; i++) {
		t = NULL;
		for (k = 0; k < T->nsubs; k++)
			if (T->subs[k]->expect == i)
				t = T->subs[k];
		if (t == NULL)
			violate("C14", "%s was not served", eps[i]->name);
		chk_complete("C14,C02", "user->target", t, eps[i]);
		chk_complete("C14,C02", "target->user", eps[i], t);
	}
	if (W.steps > 100000)
		violate("C14", "%lu system calls: a daemon spins", (long)W.steps);
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Nobody reads: what has been taken, and memory in use, are bounded. */
#define BP_MEM 65536
static struct base bp_e, bp_d;
static long bp_be, bp_bd, bp_pe, bp_pd;
static void
bp_step(void)
{

	if (!bp_e.set)
		return;
	if (E->heap_bytes - bp_be > bp_pe)
		bp_pe = E->heap_bytes - bp_be;
	if (D->heap_bytes - bp_bd > bp_pd)
		bp_pd = D->heap_bytes - bp_bd;
}
static void
bp_snap(void * a)
{

	a_sleep(0.0005);
	snap(&bp_e, E);
	snap(&bp_d, D);
	bp_be = E->heap_bytes;
	bp_bd = D->heap_bytes;
}

static void
s_slow(void)
{
	static const char * us[] = {
		"w400000 s e c",			/* target reads late */
		"z20000 w100 s e c",			/* user reads late */
		"w400000 z15000 s e c",		/* both */
	};
	static const char * ts[] = {
		"r1 z20000 w100 e s c",
		"w400000 s e c",
		"r1 w400000 z15000 e s c",
	};
	static const int caps[] = { 700, 4096, 65536 };
	static struct ep * eps[4];
	int k = choose_free(3, "reader"), n = 1 + choose_free(2, "users"), i;
	size_t cap = caps[choose_free(3, "socket buffers")], room;

	start(3, "-f", "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	W.default_cap = cap;
	W.maxsteps = 3000000;
	W.on_step = bp_step;
	w_actor("snap", bp_snap, NULL);
	eps[0] = T = mkserver("target", A_TGT, ts[k], 101, k == 1 ? 1 : -2, n);
	for (i = 0; i < n; i++) {
		eps[1 + i] = mkclient(i ? "user2" : "user", A_ENC, us[k], 1 + i, -1);
		eps[1 + i]->hdr = -1 - i;
	}
	X_ENABLE(K_SCHED);
	X_ENABLE(K_POLLSUB);
	W.horizon = W.now + 10 * SEC;
	w_run();
	/* Three sockets' worth, and a fixed amount within each daemon. */
	room = 3 * (cap * 2) + 2 * BP_MEM;
	for (i = 0; i < n; i++) {
		struct ep * r = k == 1 ? eps[1 + i] : i < T->nsubs ? T->subs[i] : NULL;
		struct ep * w = k == 1 ? (i < T->nsubs ? T->subs[i] : NULL) : eps[1 + i];
		struct sfile * f = accepted(E, i), * g = conn_to(D, A_TGT, i);

		if (w == NULL || f == NULL || g == NULL)
			violate("C15,C02", "no connection");
		(void)r;
		if (k != 1 && f->rx->rd > room)
			violate("C15", "%zu bytes were taken from a user whose peer does not read", f->rx->rd);
		if (k != 0 && g->rx->rd > room)
			violate("C15", "%zu bytes were taken from a target whose peer does not read", g->rx->rd);
		if (k == 0 && f->rx->rd < 320)
			violate("C15,C02", "nothing was taken from the user");
	}
	if (bp_pe > n * BP_MEM || bp_pd > n * BP_MEM)
		violate("C15", "%ld and %ld bytes of memory are in use for %d connections with a slow reader", bp_pe, bp_pd, n);
	x_trace_note("memory peak %ld %ld", bp_pe, bp_pd);
	finish(eps);
}

/* The same, and then it all gets through. */
static void
s_slow_end(void)
{
	static const char * us[] = { "w150000 s e c", "z5000 w100 s e c", "w1500 s z3000 e c" };
	static const char * ts[] = { "r1 z5000 w100 e s c", "w150000 s e c", "w1500 s z4000 e c" };
	static const int caps[] = { 700, 4096, 65536 };
	static struct ep * eps[4];
	int k = choose_free(3, "reader"), c = choose_free(3, "socket buffers");

	start(3, "-f", "-f", "[127.0.0.1]:2002", "[127.0.0.1]:3001");
	W.default_cap = caps[c];
	W.maxsteps = 3000000;
	W.on_step = bp_step;
	w_actor("snap", bp_snap, NULL);
	eps[0] = T = mkserver("target", A_TGT, ts[k], 101, 1, 1);
	eps[1] = U = mkclient("user", A_ENC, us[k], 1, 101);
	U->hdr = -1;
	X_ENABLE(K_SCHED);
	X_ENABLE(K_POLLSUB);
	W.horizon = W.now + 30 * SEC;
	w_run();
	if (T->nsubs != 1)
		violate("C15,C02", "no connection");
	chk_complete("C15,C02", "user->target", T->subs[0], U);
	chk_complete("C15,C02", "target->user", U, T->subs[0]);
	if (bp_pe > BP_MEM || bp_pd > BP_MEM)
		violate("C15", "%ld and %ld bytes of memory were in use for a connection with a slow reader", bp_pe, bp_pd);
	alive("C15,C14");
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* A daemon which always has something to do still looks at the clock. */
static int bz_dir, bz_n;
static struct sfile * bz_late;
static void
bz_bulk(int s, struct ref_ep * r, int sends, int plain)
{
	static uint8_t b[8000];

	for (;;) {
		if (sends) {
			if (plain ? a_write(s, b, 8000) : ref_send(r, b, 1000))
				break;
			a_yield();
		} else if (a_read(s, b, 8000) <= 0)
			break;
	}
}
/* The clear-text end; the other end. */
static void bz_user(void * a) { int s; a_sleep(0.1); if ((s = a_connect(A_ENC)) >= 0) bz_bulk(s, NULL, bz_dir, 1); }
static void bz_tgt1(void * a) { int s = *(int *)a; bz_bulk(s, NULL, !bz_dir, 1); }
static int bz_fd3 = 3;
static void
bz_srv1(void * a)
{
	struct ref_ep r;

	if (bz_n >= 4) {
		/* It never answers. */
		a_sleep(1e6);
	}
	ref_init(&r, 3, 1, KEYA, strlen(KEYA), 5);
	r.nopfs = 1;
	if (ref_handshake(&r) == 0)
		bz_bulk(3, &r, !bz_dir, 0);
}
static void
bz_accept(void * a)
{
	int l = a_listen(t3_server ? A_MID : A_TGT), fd;
	struct proc * p;

	for (;;) {
		fd = a_accept(l);
		bz_n++;
		p = w_actor("peer", t3_server ? bz_srv1 : bz_tgt1, &bz_fd3);
		p_installfd(p, 3, w_cur()->fds[fd]);
		a_close(fd);
	}
}
static void
bz_cli(void * a)
{
	struct ref_ep r;
	int s;

	a_sleep(0.1);
	if ((s = a_connect(A_DEC)) < 0)
		return;
	ref_init(&r, s, 0, KEYA, strlen(KEYA), 5);
	r.nopfs = 1;
	if (ref_handshake(&r) == 0)
		bz_bulk(s, &r, bz_dir, 0);
}
static void
bz_silent(void * a)
{

	a_sleep(*(int *)a / 1000.0);
	a_connect(t3_server ? A_ENC : A_DEC);
	a_sleep(1e6);
}

static void
s_busy(void)
{
	static int at[] = { 1000, 4300, 4900, 5500 };
	static int t = 4000;
	int i, n = 0;
	struct ep * eps[] = { NULL };

	t3_server = !choose_free(2, "which");
	bz_dir = choose_free(2, "direction");
	start(t3_server ? 1 : 2, "-f -o 2 -R", "-f -o 2 -R", "[127.0.0.1]:2001", "[127.0.0.1]:3001");
	TP = t3_server ? E : D;
	W.cost = (1 + choose_free(3, "speed")) * MS;
	w_actor("acceptor", bz_accept, NULL);
	for (i = 0; i < 3; i++)
		w_actor("bulk", t3_server ? bz_user : bz_cli, NULL);
	for (i = 0; i < 4; i++)
		w_actor("silent", bz_silent, &at[i]);
	w_actor("killer", tm_killer, &t);
	if (x_bound > 0)
		X_ENABLE(K_SCHED);
	W.horizon = W.now + 8 * SEC;
	w_run();
	if (TP->exited)
		violate("C10", "it has exited: %s", w_describe(TP));
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (!f->accepted || f->creator != TP)
			continue;
		if (n++ == 3) {
			/* The silent one. */
			if (!f->closed || f->t_closed > f->t_acc + 2600 * MS)
				violate("C07,C17", "a busy daemon let a handshake last for %.1f s with -o 2", ((f->closed ? f->t_closed : W.now) - f->t_acc) / 1e9);
		}
		if (f->t_acc > TP->t_sig + 1500 * MS)
			violate("C10,C17", "a busy daemon accepted a connection %.1f s after SIGTERM", (f->t_acc - TP->t_sig) / 1e9);
	}
	if (n < 4)
		violate("C10,C17", "only %d connections were accepted", n);
	x_outcome(n);
	x_sample("%s, %d ms per system call: %d connections accepted", TP->name, (int)(W.cost / MS), n);
	finish(eps);
}

static const struct x_scenario scens[] = {
	{ "slow", s_slow, 1, 2, "C15" },
	{ "slow_end", s_slow_end, 1, 2, "C15,C02" },
	{ "stall", s_stall, 1, 2, "C07,C08,C03" },
	{ "trickle", s_trickle, 0, 0, "C07,C02" },
	{ "nick", s_nick, 0, 0, "C07" },
	{ "connect", s_connect, 1, 3, "C07,C12,C08" },
	{ "life", s_life, 1, 2, "C08,C14" },
	{ "life_pfs", s_life_pfs, 2, 3, "C08,C14" },
	{ "life_sys", s_life_sys, 2, 3, "C08,C14,C12" },
	{ "limit", s_limit, 1, 2, "C09" },
	{ "many", s_many, 0, 0, "C09" },
	{ "fallback", s_fallback, 1, 3, "C12" },
	{ "fallback_long", s_fblong, 0, 1, "C12" },
	{ "fallback_err", s_fberr, 0, 1, "C12" },
	{ "sockopt", s_sockopt, 1, 2, "C16" },
	{ "term", s_term, 1, 2, "C10,C34" },
	{ "term2", s_term2, 1, 2, "C10,C34" },
	{ "pid1", s_pid1, 1, 2, "C10" },
	{ "term3", s_term3, 0, 1, "C10" },
	{ "busy", s_busy, 0, 1, "C07,C10,C17" },
	{ "hostile", s_hostile, 0, 2, "C14" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
