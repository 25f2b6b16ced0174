/* Two daemons, users and a target: transparency of the pipe. */
#include "topo.h"

static struct ep * U, * U2, * T;
static struct proc * E, * D;
static const char * what = "";

static void
enable_io(void)
{

	X_ENABLE(K_SCHED);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EAGAIN);
	X_ENABLE(K_EINTR);
	X_ENABLE(K_POLLSUB);
}

/* Once the ends are done, let things settle with no more choices. */
static void
settle(void)
{
	int i;

	for (i = 0; i < T->maxaccept; i++)
		if (T->nsubs <= i || !T->subs[i]->done)
			return;
	if (U->done && (U2 == NULL || U2->done)) {
		x_enabled = 0;
		W.horizon = W.now + 3 * SEC;
		W.on_step = NULL;
	}
}

static void
daemons(const char * enc_s, const char * mid_s, const char * tgt_s,
    const char * eopt, const char * dopt)
{
	char cmd[256];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -d -s %s -t %s -k /key -F %s", mid_s, tgt_s, dopt);
	D = w_spawn("decr", spiped_2_main, cmd);
	snprintf(cmd, sizeof(cmd), "spiped -e -s %s -t %s -k /key -F %s", enc_s, mid_s, eopt);
	E = w_spawn("encr", spiped_1_main, cmd);
	W.horizon = W.now + 20 * SEC;
	W.on_step = settle;
}

static void
basic(const char * eopt, const char * dopt, const char * us, const char * ts)
{

	daemons("[127.0.0.1]:1001", "[127.0.0.1]:2002", "[127.0.0.1]:3001", eopt, dopt);
	T = mkserver("target", A_TGT, ts, 100, 1, 1);
	U = mkclient("user", A_ENC, us, 1, 100);
	U->hdr = -1;
}

static void
basic_end(void)
{
	struct ep * t, * eps[] = { U, T, NULL };

	w_run();
	if (E->exited || D->exited)
		violate("C02,C14,C28,C08", "a daemon exited by itself: %s / %s", w_describe(E), w_describe(D));
	if (U->conn_failed)
		violate("C02,C22", "connection refused; %s", w_describe(E));
	if (T->nsubs != 1)
		violate("C02,C12,C07", "the target got %d connections; %s", T->nsubs, w_describe(D));
	t = T->subs[0];
	chk_complete("C01,C02,C07,C15,C16", "user->target", t, U);
	chk_complete("C01,C02,C07,C15,C16", "target->user", U, t);
	if (strstr(E->argv[E->argc - 1], "-f")) {
		struct sfile * f = conn_to(E, A_DEC, 0);

		if (f)
			chk_wire("C05,C06", KEYA, f->tx, f->rx, ysc_one, 1, 100);
	}
	if (w_openfds(E) > 7 || w_openfds(D) > 7)
		violate("C08", "descriptors left open after the connection: encr %d decr %d", w_openfds(E), w_openfds(D));
	finish(eps);
}

static void
s_basic(void)
{

	basic("-f", "-f", "w3000 s e c", "w2000 s e c");
	enable_io();
	basic_end();
}

static void
s_basic_pfs(void)
{

	basic("", "", "w1025 s e c", "w1 s e c");
	enable_io();
	basic_end();
}

/* Options which have nothing to do with the data. */
static void
s_optmix(void)
{
	static const char * pfs[] = { "-f", "", "-g" }, * n[] = { "", "-n 1", "-n 0" };
	int p = choose_free(3, "pfs"), side = choose_free(2, "side"), k = choose_free(3, "traffic");
	static char o[100];

	snprintf(o, sizeof(o), "%s %s %s %s %s %s", choose_free(2, "-o") ? "-o 7" : "", n[choose_free(3, "-n")], choose_free(2, "-j") ? "-j" : "",
	    choose_free(2, "-R") ? "-R" : "-r 3", choose_free(2, "-D") ? "-D" : "", pfs[p]);
	basic(side ? pfs[p == 2 ? 1 : p] : o, side ? o : pfs[p == 2 ? 1 : p],
	    k == 0 ? "w3000 s e c" : k == 1 ? "w10 z9000 w1024 s e c" : "r2000 w1500 s e c", k == 2 ? "w2000 e s c" : "w2000 s e c");
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	basic_end();
}

/* Lengths around every boundary, in both directions. */
static void
s_sizes(void)
{
	static const int sz[] = { 0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049,
	    3072, 4095, 4096, 4097, 5120, 8191, 8192, 8193, 8480, 16384, 33000 };
	static const int sz2[] = { 0, 1, 1024, 1025, 4096, 4097, 9000 };
	int a = sz[choose_free(20, "usize")], b = sz2[choose_free(7, "tsize")];
	int c = choose_free(4, "chunk");
	static char us[64], ts[64];

	switch (c) {
	case 0:
		snprintf(us, 64, "w%d s e c", a);
		snprintf(ts, 64, "w%d s e c", b);
		break;
	case 1:
		snprintf(us, 64, "W%d:1000 s e c", a);
		snprintf(ts, 64, "e W%d:333 s c", b);
		break;
	case 2:
		snprintf(us, 64, "r%d w%d s e c", b, a);
		snprintf(ts, 64, "w%d e s c", b);
		break;
	case 3:
		snprintf(us, 64, "W%d:4096 z10 s e c", a);
		snprintf(ts, 64, "w%d z5 s e c", b);
		break;
	}
	x_trace_note("user %s target %s", us, ts);
	basic("-f", "-f", us, ts);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_SCHED);
	basic_end();
}

/* Orders of half-closing, request/response, idle times. */
static const char * orders[][2] = {
	{ "w100 s e c", "e w200 s c" },
	{ "e w50 s c", "w200 s e c" },
	{ "w10 r10 w10 r10 s e c", "r10 w10 r10 w10 e s c" },
	{ "w10 r10 w10 r10 e s c", "r10 w10 r10 w10 s e c" },
	{ "w5000 s e c", "W6000:700 s e c" },
	{ "s e c", "s e c" },
	{ "s e c", "e s c" },
	{ "e s c", "s e c" },
	{ "w2000 c", "e s c" },
	{ "e c", "w2000 c" },
	{ "z500 w10 s e c", "w10 z2000 w10 s e c" },
	{ "w1 z1 w1 z1 w1 z1 w1 s e c", "w1 z1 w1 z1 w1 s e c" },
	{ "w1024 z1 w1 s z100 e c", "w1 r1 s z10 e c" },
};
static void
s_orders(void)
{
	int o = choose_free(sizeof(orders) / sizeof(orders[0]), "order");

	basic("-f", "-f", orders[o][0], orders[o][1]);
	enable_io();
	basic_end();
}

static void
s_idle(void)
{

	/* Established connections are not subject to the timeout. */
	switch (choose_free(3, "idle")) {
	case 0:
		basic("-f -o 2", "-f -o 2", "w10 z30000 w10 s e c", "w10 r10 z45000 w10 s e c");
		break;
	case 1:
		basic("-f", "-f", "z30000 w10 r10 z30000 s z30000 e c", "r10 w10 z15000 e z100000 w5 s c");
		break;
	case 2:
		basic("-f -o 0.5", "-f -o 0.25", "z20000 w3000 s e c", "z10000 w3000 s e c");
		break;
	}
	W.horizon = W.now + 400 * SEC;
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_POLLSUB);
	basic_end();
}

/* Small socket buffers and much data: partial writes and back-pressure. */
static void
s_big(void)
{
	static const size_t caps[] = { 700, 1060, 1061, 4096, 9000 };
	size_t cap = caps[choose_free(5, "cap")];

	switch (choose_free(4, "flow")) {
	case 0:
		basic("-f", "-f", "w40000 s e c", "e w30000 s c");
		break;
	case 1:
		basic("-f", "-f", "e w30000 s c", "W7000:7 s e c");
		break;
	case 2:
		basic("-f", "-f", "w30000 r30000 w5000 s e c", "r30000 w30000 e s c");
		break;
	case 3:
		basic("-f", "-f", "w30000 s z3000 e c", "z4000 r9000 z10 r1 z10 r8000 z10 e w9000 s c");
		break;
	}
	W.default_cap = cap;
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_SHORTR);
	if (strcmp(x_tier, "thorough") && cap != 1061)
		x_enabled = 0;
	basic_end();
}

/* One end does not read: what is read from the other end stays bounded. */
#define BP_TOTAL 400000
#define BP_LIMIT 65536
static size_t base_heap;
static int bp_dir;
static void
bp_step(void)
{
	size_t taken, given;
	struct sfile * f, * g;

	settle();
	if (W.on_step == NULL)
		return;
	if (!U->connected || T->nsubs == 0 || !T->subs[0]->connected)
		return;
	if (U->closed || T->subs[0]->closed || U->proc->exited || T->subs[0]->proc->exited)
		return;
	f = U->proc->fds[U->fd];
	g = T->subs[0]->proc->fds[3];
	taken = bp_dir ? g->tx->rd : f->tx->rd;
	given = bp_dir ? f->rx->loglen : g->rx->loglen;
	if (taken > given + BP_LIMIT)
		violate("C15", "%zu bytes were read from one end while %zu had been passed on", taken, given);
	if (E->heap_bytes > 262144 || D->heap_bytes > 262144)
		violate("C15", "memory in use: encr %ld decr %ld bytes", E->heap_bytes, D->heap_bytes);
	x_count(0, 1);
}

static void
s_backpressure(void)
{
	static const size_t caps[] = { 2000, 8192 };
	size_t cap = caps[choose_free(2, "cap")];

	bp_dir = choose_free(2, "dir");
	if (bp_dir)
		basic("-f", "-f", "z8000 e s c", "w400000 s e c");
	else
		basic("-f", "-f", "w400000 s e c", "z8000 r100000 z3000 e s c");
	W.default_cap = cap;
	W.on_step = bp_step;
	X_ENABLE(K_SHORTW);
	basic_end();
}

/* Unix-domain and IPv6 addresses. */
static void
s_addr(void)
{
	static const char * ad[][4] = {
		{ "/enc.sock", "/mid.sock", "/tgt.sock", NULL },
		{ "[::1]:1001", "[::1]:2002", "[::1]:3001", NULL },
		{ "[127.0.0.1]:1001", "/mid.sock", "[::1]:3001", NULL },
	};
	int k = choose_free(3, "family");

	daemons(ad[k][0], ad[k][1], ad[k][2], "-f", "-f");
	T = mkserver("target", k == 0 ? "/tgt.sock" : "[::1]:3001", "w2000 s e c", 100, 1, 1);
	U = mkclient("user", k == 0 ? "/enc.sock" : k == 1 ? "[::1]:1001" : A_ENC, "w3000 s e c", 1, 100);
	U->hdr = -1;
	enable_io();
	basic_end();
}

/* Two users at once: their data never mixes. */
static void
two(const char * u1, const char * u2, const char * ts)
{

	daemons("[127.0.0.1]:1001", "[127.0.0.1]:2002", "[127.0.0.1]:3001", "-f", "-f");
	T = mkserver("target", A_TGT, ts, 100, -2, 2);
	U = mkclient("user1", A_ENC, u1, 1, 101);
	U->hdr = -1;
	U2 = mkclient("user2", A_ENC, u2, 2, 102);
	U2->hdr = -1;
}

static void
two_end(void)
{
	struct ep * eps[] = { U, U2, T, NULL };
	int i;

	w_run();
	if (E->exited || D->exited)
		violate("C02,C14", "a daemon exited by itself: %s / %s", w_describe(E), w_describe(D));
	if (T->nsubs != 2)
		violate("C02,C09", "the target got %d connections", T->nsubs);
	for (i = 0; i < 2; i++) {
		struct ep * t = T->subs[i], * u;

		if (t->badat || (t->expect != 1 && t->expect != 2))
			violate("C02,C01", "the target received data at offset %d which no user sent", t->badat - 1);
		u = t->expect == 1 ? U : U2;
		if (i == 1 && T->subs[0]->expect == t->expect)
			violate("C02,C01", "the same user's data arrived on two connections");
		chk_complete("C02,C01", "user->target", t, u);
		chk_complete("C02,C01", "target->user", u, t);
	}
	finish(eps);
}

static void
s_two(void)
{

	switch (choose_free(3, "mix")) {
	case 0:
		two("w2000 s e c", "w1500 s e c", "r1 w1200 s e c");
		break;
	case 1:
		two("w10 r10 w10 s e c", "w1500 z1 w3 s e c", "r1 w20 z1 w1 e s c");
		break;
	case 2:
		two("w1 r5 s e c", "z3 w1025 s e c", "r1 w5 e w30 s c");
		break;
	}
	enable_io();
	two_end();
}

static const struct x_scenario scens[] = {
	{ "basic", s_basic, 2, 3, "C02,C01,C05,C06,C14" },
	{ "basic_pfs", s_basic_pfs, 1, 3, "C02,C04" },
	{ "optmix", s_optmix, 0, 1, "C02,C05,C14" },
	{ "sizes", s_sizes, 1, 2, "C02,C01,C05" },
	{ "orders", s_orders, 1, 2, "C02,C08" },
	{ "idle", s_idle, 1, 1, "C07,C02" },
	{ "big", s_big, 1, 1, "C02,C15" },
	{ "backpressure", s_backpressure, 0, 1, "C15,C02" },
	{ "addr", s_addr, 1, 2, "C02,C19" },
	{ "two", s_two, 1, 2, "C02,C01,C14" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
