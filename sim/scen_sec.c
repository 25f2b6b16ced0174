/* Attackers on the wire, rogue peers, wire format, key handling. */
#include "topo.h"

static struct ep * U, * U2, * T;
static struct proc * E, * D;
static int withheld;		/* the attacker keeps something back: ends may wait for it */

static void
start(int which, const char * eopt, const char * dopt, const char * etgt)
{
	char cmd[256];

	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	if (which & 2) {
		snprintf(cmd, sizeof(cmd), "spiped -d -s [127.0.0.1]:2002 -t [127.0.0.1]:3001 -k /key -F %s", dopt);
		D = w_spawn("decr", spiped_2_main, cmd);
	}
	if (which & 1) {
		snprintf(cmd, sizeof(cmd), "spiped -e -s [127.0.0.1]:1001 -t %s -k /key -F %s", etgt, eopt);
		E = w_spawn("encr", spiped_1_main, cmd);
	}
	W.horizon = W.now + 30 * SEC;
}

static void
alive(const char * tags)
{

	if ((E && E->exited) || (D && D->exited))
		violate(tags, "a daemon exited by itself: %s / %s", E ? w_describe(E) : "-", D ? w_describe(D) : "-");
	if (withheld)
		return;
	if ((E && w_openfds(E) > 7) || (D && w_openfds(D) > 7))
		violate("C08,C03,C01", "descriptors left open after the connections ended: encr %d decr %d",
		    E ? w_openfds(E) : 0, D ? w_openfds(D) : 0);
}

/* ------------------------------------------------------------------ */
/* Man in the middle. */
struct unit { uint8_t b[R_PKT]; size_t len; };
#define MAXU 64
static struct half {
	int from, to;		/* descriptors */
	int dir;		/* 0: client to server */
	int session;
	struct unit u[MAXU];
	int n;
	uint8_t out[MAXU * R_PKT];	/* what was passed on */
	size_t outlen;
	int first_bad;		/* index of the first altered unit, or -1 */
	int touched;
	int dead;
	int ended;
	struct half * other;
} H[4][2];
static int nsess;
static int attack_session;	/* which session is attacked */
static int single_flip = -1;	/* exhaustive bit flips: global bit number */
static int flip_dir;

enum { M_PASS, M_FLIP0, M_FLIPLEN, M_FLIPMAC, M_DROP, M_DUP, M_SWAP, M_REPLAY0, M_REFLECT, M_SPLICE, M_TRUNC, M_EOF,
    M_GARBAGE, M_RESET, M_ZERO, M_LAST };
static const char * mname[] = { "pass", "flip0", "fliplen", "flipmac", "drop", "dup", "swap", "replay0", "reflect", "splice",
    "trunc", "eof", "garbage", "reset", "zero" };

static void
snd(struct half * h, const void * b, size_t n)
{

	if (h->dead)
		return;
	if (h->outlen + n <= sizeof(h->out)) {
		memcpy(h->out + h->outlen, b, n);
		h->outlen += n;
	}
	if (a_write(h->to, b, n))
		h->dead = 1;
}

/* Where does what was passed on first differ from the original? */
static void
find_bad(struct half * h)
{
	int i;
	size_t off = 0, k;

	h->first_bad = -1;
	for (i = 0; i < MAXU; i++) {
		for (k = 0; k < h->u[i].len; k++) {
			if (off + k == h->outlen)
				return;
			if (h->out[off + k] != h->u[i].b[k]) {
				h->first_bad = i;
				return;
			}
		}
		off += k;
		if (k < (i == 0 ? 32 : i == 1 ? R_YH : R_PKT)) {
			if (h->outlen > off)
				h->first_bad = i;
			return;
		}
	}
}

static void
mitm_half(void * a)
{
	struct half * h = a;
	struct unit * u, swapped;
	int i, act, hold = 0;
	size_t want;
	ssize_t r;
	uint8_t g[R_PKT];

	h->from = 3;
	h->to = 4;
	for (i = 0; i < MAXU; i++) {
		want = i == 0 ? 32 : i == 1 ? R_YH : R_PKT;
		u = &h->u[i];
		r = a_readfull(h->from, u->b, want);
		u->len = r > 0 ? r : 0;
		if (u->len)
			h->n = i + 1;
		if (u->len < want) {
			/* End of the stream. */
			if (u->len)
				snd(h, u->b, u->len);
			if (hold)
				snd(h, swapped.b, swapped.len);
			if (!h->dead)
				a_shut(h->to);
			break;
		}
		act = M_PASS;
		if (h->session == attack_session)
			act = choose(K_ADV, M_LAST, h->dir ? "adv-sc" : "adv-cs");
		h->touched |= act != 0;
		if (act)
			x_trace_note("mitm: %s on unit %d of direction %d", mname[act], i, h->dir);
		memcpy(g, u->b, want);
		switch (act) {
		case M_PASS:
			if (single_flip >= 0 && flip_dir == h->dir) {
				size_t base = i == 0 ? 0 : i == 1 ? 32 : 320 + (i - 2) * R_PKT;

				if (single_flip / 8 >= base && single_flip / 8 < base + want) {
					g[single_flip / 8 - base] ^= 1 << (single_flip % 8);
					h->touched = 1;
				}
			}
			snd(h, g, want);
			if (hold) {
				snd(h, swapped.b, swapped.len);
				hold = 0;
			}
			break;
		case M_FLIP0:
			g[0] ^= 0x80;
			goto sendbad;
		case M_FLIPLEN:
			g[want == R_PKT ? 1027 : want / 2] ^= 1;
			goto sendbad;
		case M_FLIPMAC:
			g[want - 1] ^= 1;
			goto sendbad;
		case M_DROP:
			withheld = 1;
			break;
		case M_DUP:
			snd(h, g, want);
			snd(h, g, want);
			break;
		case M_SWAP:
			if (hold) {
				snd(h, g, want);
				break;
			}
			swapped = *u;
			withheld = hold = 1;
			break;
		case M_REPLAY0:
			if (i <= 2) {
				/* An earlier session's message. */
				if (h->session > 0 && H[h->session - 1][h->dir].n > i)
					memcpy(g, H[h->session - 1][h->dir].u[i].b, want);
				else
					g[3] ^= 2;
			} else
				memcpy(g, h->u[2].b, want);
			goto sendbad;
		case M_REFLECT:
			if (h->other->n > i)
				memcpy(g, h->other->u[i].b, want);
			else
				memset(g, 1, want);
			goto sendbad;
		case M_SPLICE:
			if (h->session > 0 && H[h->session - 1][h->dir].n > i)
				memcpy(g, H[h->session - 1][h->dir].u[i].b, want);
			else
				g[want / 3] ^= 4;
			goto sendbad;
		case M_TRUNC:
			snd(h, g, want - 1);
			if (!h->dead)
				a_shut(h->to);
			h->dead = 1;
			break;
		case M_EOF:
			if (!h->dead)
				a_shut(h->to);
			h->dead = 1;
			break;
		case M_GARBAGE:
			patfill(g, 77, i * 2000, want);
			goto sendbad;
		case M_RESET:
			if (!h->dead)
				a_reset(h->to);
			h->dead = 1;
			break;
		case M_ZERO:
			memset(g, 0, want);
			goto sendbad;
		sendbad:
			snd(h, g, want);
			break;
		}
	}
	h->ended = 1;
}

static void
mitm(void * a)
{
	int l = a_listen(A_MID), s, t;

	for (;;) {
		struct half * h = H[nsess];
		int d;

		if ((s = a_accept(l)) < 0)
			break;
		if ((t = a_connect(A_DEC)) < 0) {
			a_close(s);
			continue;
		}
		for (d = 0; d < 2; d++) {
			struct proc * p;

			h[d].dir = d;
			h[d].session = nsess;
			h[d].first_bad = -1;
			h[d].other = &h[!d];
			p = w_actor(d ? "mitm-sc" : "mitm-cs", mitm_half, &h[d]);
			p_installfd(p, 3, w_cur()->fds[d ? t : s]);
			p_installfd(p, 4, w_cur()->fds[d ? s : t]);
		}
		a_close(s);
		a_close(t);
		nsess++;
	}
}

static void
mitm_check(int si, struct ep * u)
{
	struct ep * t = NULL;
	int i;
	size_t m0, m1;
	int hs;

	find_bad(&H[si][0]);
	find_bad(&H[si][1]);
	for (i = 0; i < T->nsubs; i++)
		if (T->subs[i]->expect == u->stream)
			t = T->subs[i];
	for (i = 0; i < T->nsubs; i++)
		if (T->subs[i]->badat)
			violate("C01,C03", "the target received forged data at offset %d", T->subs[i]->badat - 1);
	chk_stream("C01", "target->user", u, t ? t : NULL);
	if (t)
		chk_stream("C01", "user->target", t, u);
	/* Nothing is delivered from the first altered packet on. */
	hs = (H[si][0].first_bad >= 0 && H[si][0].first_bad < 2) || (H[si][1].first_bad >= 0 && H[si][1].first_bad < 2);
	m0 = H[si][0].first_bad < 0 ? SIZE_MAX : H[si][0].first_bad < 2 ? 0 : (H[si][0].first_bad - 2) * 1024;
	m1 = H[si][1].first_bad < 0 ? SIZE_MAX : H[si][1].first_bad < 2 ? 0 : (H[si][1].first_bad - 2) * 1024;
	if (t && t->got > m0)
		violate("C01", "%zu bytes were delivered to the target though unit %d was altered", t->got, H[si][0].first_bad);
	if (u->got > m1)
		violate("C01", "%zu bytes were delivered to the user though unit %d was altered", u->got, H[si][1].first_bad);
	/*
	 * Altered nonces: no data at all.  (A client which already has a good
	 * answer does not notice when its own message was altered.)
	 */
	if (hs && H[si][0].first_bad >= 0 && H[si][0].first_bad < 2 && (u->got || (t && t->got)))
		violate("C01,C03", "data was delivered over an altered handshake");
	if (hs && H[si][1].first_bad == 0 && (u->got || (t && t->got)))
		violate("C01,C03", "data was delivered over an altered nonce");
	if (hs && H[si][1].first_bad == 1 && u->got)
		violate("C01,C03", "data was delivered to the user over an altered handshake");
}

static int mitm_sessions;
static void
mitm_step(void)
{
	int i;

	if (!U->done || (U2 && !U2->done) || nsess < mitm_sessions)
		return;
	for (i = 0; i < T->nsubs; i++)
		if (!T->subs[i]->done)
			return;
	x_enabled = 0;
	W.horizon = W.now + 8 * SEC;
	W.on_step = NULL;
}

static void
mitm_end(void)
{
	struct ep * eps[] = { U, T, U2, NULL };

	w_run();
	mitm_check(0, U);
	if (U2)
		mitm_check(1, U2);
	alive("C01,C14");
	/* Untouched sessions work. */
	if (!H[0][0].touched && !H[0][1].touched) {
		int i;

		for (i = 0; i < T->nsubs; i++)
			if (T->subs[i]->expect == 1) {
				chk_complete("C02,C01,C14", "user->target", T->subs[i], U);
				chk_complete("C02,C01,C14", "target->user", U, T->subs[i]);
			}
	}
	/* All ends have been told. */
	if (!withheld && (!U->done || (U2 && !U2->done)))
		violate("C08,C01", "a user was never told of the end of the connection");
	finish(eps);
}

static void
s_mitm(void)
{
	static const char * sc[][2] = {
		{ "w3500 s e c", "r1 w2500 e s c" },
		{ "w1 r1100 w1100 s e c", "r1 w2200 e s c" },
	};
	int k = choose_free(2, "flow");

	start(3, "-f", "-f", "[127.0.0.1]:2001");
	w_actor("mitm", mitm, NULL);
	T = mkserver("target", A_TGT, sc[k][1], 100, -2, 1);
	U = mkclient("user", A_ENC, sc[k][0], 1, 101);
	U->hdr = -1;
	mitm_sessions = 1;
	W.on_step = mitm_step;
	X_ENABLE(K_ADV);
	mitm_end();
}

/* A recorded session, then an attacked one. */
static void
s_mitm2(void)
{
	int pfs = choose_free(2, "pfs");

	start(3, pfs ? "" : "-f", pfs ? "" : "-f", "[127.0.0.1]:2001");
	w_actor("mitm", mitm, NULL);
	T = mkserver("target", A_TGT, "r1 w1500 e s c", 100, -2, 2);
	U = mkclient("user1", A_ENC, "w2500 s e c", 1, 101);
	U->hdr = -1;
	U2 = mkclient("user2", A_ENC, "w2400 s e c", 2, 102);
	U2->hdr = -3000;
	attack_session = 1;
	mitm_sessions = 2;
	W.on_step = mitm_step;
	X_ENABLE(K_ADV);
	mitm_end();
}

/* Every single-bit flip of a whole conversation. */
static void
s_bitflip(void)
{
	int n, ck = 0;

	flip_dir = choose_free(2, "dir");
	/* 32 + 288 + 2 packets */
	n = (32 + 288 + 1060) * 8;
	if (strcmp(x_tier, "thorough") == 0)
		single_flip = choose_free(n, "bit");
	else {
		/* All of the handshake; every 5th bit of the packet. */
		single_flip = choose_free(320 * 8 + 1696, "bit");
		if (single_flip >= 320 * 8)
			single_flip = 320 * 8 + (single_flip - 320 * 8) * 5 + flip_dir;
	}
	start(3, "-f", "-f", "[127.0.0.1]:2001");
	w_actor("mitm", mitm, NULL);
	T = mkserver("target", A_TGT, "r1 w900 e s c", 100, -2, 1);
	U = mkclient("user", A_ENC, "w1000 s e c", 1, 101);
	U->hdr = -1;
	mitm_sessions = 1;
	W.on_step = mitm_step;
	mitm_end();
}

/* ------------------------------------------------------------------ */
/* Connecting daemons to the wrong things: themselves, each other. */
static int cross_a, cross_b;
static void
bridge_half(void * a)
{
	uint8_t b[4096];
	ssize_t r;

	while ((r = a_read(3, b, sizeof(b))) > 0)
		if (a_write(4, b, r))
			break;
	if (r == 0)
		a_shut(4);
}

static void
bridge(int s, int t)
{
	int d;

	for (d = 0; d < 2; d++) {
		struct proc * p = w_actor("bridge", bridge_half, NULL);

		p_installfd(p, 3, w_cur()->fds[d ? t : s]);
		p_installfd(p, 4, w_cur()->fds[d ? s : t]);
	}
	a_close(s);
	a_close(t);
}

static void
crosser(void * a)
{
	int l, s, t;

	switch (cross_a) {
	case 0:			/* reflect an encrypting daemon to itself */
		l = a_listen(A_MID);
		s = a_accept(l);
		{
			uint8_t b[4096];
			ssize_t r;

			while ((r = a_read(s, b, sizeof(b))) > 0)
				if (a_write(s, b, r))
					break;
			a_close(s);
		}
		break;
	case 1:			/* two clients with each other */
		l = a_listen(A_MID);
		s = a_accept(l);
		t = a_accept(l);
		bridge(s, t);
		break;
	case 2:			/* a decrypting daemon to itself */
		if ((s = a_connect(A_DEC)) < 0)
			return;
		{
			uint8_t b[4096];
			ssize_t r;

			while ((r = a_read(s, b, sizeof(b))) > 0)
				if (a_write(s, b, r))
					break;
			a_close(s);
		}
		break;
	case 3:			/* two server connections with each other */
		s = a_connect(A_DEC);
		t = a_connect(A_DEC);
		if (s >= 0 && t >= 0)
			bridge(s, t);
		break;
	}
}

static void
s_cross(void)
{
	struct ep * eps[5];
	int n = 0, i, pfs;

	cross_a = choose_free(4, "cross");
	pfs = choose_free(2, "pfs");
	start(cross_a < 2 ? 1 : 2, pfs ? "" : "-f", pfs ? "" : "-f", "[127.0.0.1]:2001");
	T = mkserver("target", A_TGT, "w2000 s e c", 100, -2, 2);
	eps[n++] = T;
	if (cross_a < 2) {
		eps[n++] = U = mkclient("user1", A_ENC, "w3000 s e c", 1, 999);
		U->hdr = -1;
	}
	if (cross_a == 1) {
		eps[n++] = U2 = mkclient("user2", A_ENC, "w3000 s e c", 2, 999);
		U2->hdr = -1;
	}
	eps[n] = NULL;
	w_actor("crosser", crosser, NULL);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SCHED);
	w_run();
	for (i = 0; i < n; i++) {
		int k;

		if (eps[i]->got)
			violate("C03,C01", "%s received %zu bytes from an unauthenticated peer", eps[i]->name, eps[i]->got);
		for (k = 0; k < eps[i]->nsubs; k++) {
			if (eps[i]->subs[k]->got)
				violate("C03,C01", "the target received %zu bytes from an unauthenticated peer", eps[i]->subs[k]->got);
			if (!eps[i]->subs[k]->done)
				violate("C03,C07,C08", "the target's connection is still open");
		}
		if (!eps[i]->is_server && !eps[i]->done)
			violate("C03,C07,C08", "%s's connection is still open", eps[i]->name);
	}
	/* No user data leaves. */
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->tx && f->creator == E && E && !f->accepted && f->tx->loglen > 320)
			violate("C03", "%zu bytes were sent to an unauthenticated server", f->tx->loglen);
		if (f->tx && f->creator == D && D && f->accepted && f->tx->loglen > 32)
			violate("C03", "%zu bytes were sent to an unauthenticated client", f->tx->loglen);
	}
	alive("C03,C14");
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Rogue peers which do not have the key. */
enum { R_WRONGKEY, R_GARBAGE, R_ZEROMAC, R_REFLECTYH, R_OTHERMAC, R_TRUNCMAC, R_MACBYTE, R_Y1, R_EARLYDATA, R_NONCE_ONLY,
    R_PARTIAL, R_CLOSE, R_RESET, R_REPLAYREC, R_KEYPREFIX, R_LAST };
static int rogue_kind, rogue_arg;
static int rogue_wrote;

static void
rogue_body(int s, int decr)
{
	struct ref_ep r;
	uint8_t dc[32], ds[32], y[256], yh[R_YH], junk[4000], rx[R_YH];
	uint8_t * nc, * ns;

	ref_init(&r, s, decr, KEYA, strlen(KEYA), 1);
	if (rogue_kind == R_WRONGKEY)
		r.K[31] ^= 1;
	else if (rogue_kind == R_KEYPREFIX)
		ref_sha256(KEYA, strlen(KEYA) - 1, r.K);
	else if (rogue_kind != R_TRUNCMAC && rogue_kind != R_MACBYTE && rogue_kind != R_OTHERMAC)
		memset(r.K, 0, 32);
	patfill(junk, 66, 0, sizeof(junk));
	if (rogue_kind == R_CLOSE) {
		a_write(s, junk, rogue_arg);
		a_close(s);
		return;
	}
	if (rogue_kind == R_RESET) {
		a_write(s, junk, rogue_arg);
		a_reset(s);
		return;
	}
	if (rogue_kind == R_PARTIAL) {
		a_write(s, junk, rogue_arg);
		a_sleep(20);
		a_close(s);
		return;
	}
	a_write(s, r.nl, 32);
	if (rogue_kind == R_NONCE_ONLY) {
		a_sleep(20);
		a_close(s);
		return;
	}
	if (rogue_kind == R_EARLYDATA) {
		a_write(s, junk, sizeof(junk));
		a_sleep(2);
		a_close(s);
		return;
	}
	if (a_readfull(s, r.nr, 32) != 32)
		return;
	nc = decr ? r.nr : r.nl;
	ns = decr ? r.nl : r.nr;
	ref_dhmac(r.K, nc, ns, dc, ds);
	memset(y, 0, 256);
	y[255] = 1;
	if (rogue_kind != R_Y1)
		ref_pow2(r.x, y);
	ref_mkyh(y, decr ? ds : dc, yh);
	if (decr && rogue_kind != R_GARBAGE)
		a_readfull(s, rx, R_YH);
	switch (rogue_kind) {
	case R_GARBAGE:
		memcpy(yh, junk, R_YH);
		break;
	case R_ZEROMAC:
		memset(yh + 256, 0, 32);
		break;
	case R_REFLECTYH:
		if (decr)
			memcpy(yh, rx, R_YH);
		break;
	case R_OTHERMAC:
		/* MAC with the other direction's key. */
		ref_mkyh(y, decr ? dc : ds, yh);
		break;
	case R_TRUNCMAC:
		memset(yh + 256 + rogue_arg, 0x5a, 32 - rogue_arg);
		break;
	case R_MACBYTE:
		yh[256 + rogue_arg] ^= 1 + rogue_arg * 7;
		break;
	case R_REPLAYREC:
		break;
	}
	a_write(s, yh, R_YH);
	/* And go on as if all was well. */
	if (!decr && a_readfull(s, rx, R_YH) != R_YH)
		;
	ref_keyset(r.K, nc, ns, ysc_one, &r.c, &r.s);
	ref_send(&r, "attack at dawn", 14);
	a_write(s, junk, sizeof(junk));
	a_sleep(20);
	a_close(s);
}

static void
rogue_server(void * a)
{
	int l = a_listen(A_MID), s = a_accept(l);

	rogue_body(s, 1);
}

static void
rogue_client(void * a)
{
	int s;

	a_sleep(0.001);
	if ((s = a_connect(A_DEC)) >= 0)
		rogue_body(s, 0);
}

static void
s_rogue(void)
{
	static const int cut[] = { 0, 1, 31, 32, 33, 64, 287, 288, 319, 320, 321, 1380 };
	int side = choose_free(2, "side"), pfs = choose_free(3, "opt");
	static const char * opts[] = { "-f", "", "-g" };
	struct ep * eps[4];
	int n = 0, i, k;

	rogue_kind = choose_free(R_LAST, "rogue");
	if (rogue_kind == R_TRUNCMAC || rogue_kind == R_MACBYTE)
		rogue_arg = choose_free(32, "byte");
	if (rogue_kind == R_PARTIAL || rogue_kind == R_CLOSE || rogue_kind == R_RESET)
		rogue_arg = cut[choose_free(12, "cut")];
	start(side ? 2 : 1, opts[pfs], opts[pfs], "[127.0.0.1]:2001");
	if (side) {
		eps[n++] = T = mkserver("target", A_TGT, "w2000 s e c", 100, -2, 1);
		w_actor("rogue", rogue_client, NULL);
	} else {
		eps[n++] = U = mkclient("user", A_ENC, "w3000 s e c", 1, 999);
		U->hdr = -1;
		w_actor("rogue", rogue_server, NULL);
	}
	eps[n] = NULL;
	W.horizon = W.now + 12 * SEC;
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SCHED);
	w_run();
	for (i = 0; i < n; i++) {
		if (eps[i]->got)
			violate("C03", "%s received %zu bytes from an unauthenticated peer", eps[i]->name, eps[i]->got);
		for (k = 0; k < eps[i]->nsubs; k++) {
			if (eps[i]->subs[k]->got)
				violate("C03", "the target received %zu bytes from an unauthenticated peer", eps[i]->subs[k]->got);
			if (!eps[i]->subs[k]->done)
				violate("C03,C07,C08", "the target's connection is still open");
		}
		if (!eps[i]->is_server && !eps[i]->done)
			violate("C03,C07,C08", "%s's connection is still open", eps[i]->name);
	}
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->tx && f->creator == E && E && !f->accepted && f->tx->loglen > 320)
			violate("C03", "%zu bytes were sent to an unauthenticated server", f->tx->loglen);
		if (f->tx && f->creator == D && D && f->accepted && f->tx->loglen > 32)
			violate("C03", "%zu bytes were sent to an unauthenticated client", f->tx->loglen);
	}
	alive("C03,C14");
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Forward secrecy options. */
static void
s_pfsmatrix(void)
{
	static const char * o[] = { "", "-f", "-g" };
	int a = choose_free(3, "enc-opt"), b = choose_free(3, "dec-opt"), ok, weak, i;
	struct ep * t, * eps[] = { NULL, NULL, NULL };
	struct sfile * f;

	start(3, o[a], o[b], "[127.0.0.1]:2002");
	eps[0] = T = mkserver("target", A_TGT, "w1500 s e c", 100, 1, 1);
	eps[1] = U = mkclient("user", A_ENC, "w1700 s e c", 1, 100);
	U->hdr = -1;
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	W.horizon = W.now + 9 * SEC;
	w_run();
	ok = !((a == 1 && b == 2) || (a == 2 && b == 1));
	weak = (a == 1 || b == 1);
	if (ok) {
		if (T->nsubs != 1)
			violate("C04", "no connection with options '%s' and '%s'", o[a], o[b]);
		t = T->subs[0];
		chk_complete("C04", "user->target", t, U);
		chk_complete("C04", "target->user", U, t);
	} else {
		if (U->got || (T->nsubs && T->subs[0]->got))
			violate("C04", "data was exchanged with options '%s' and '%s'", o[a], o[b]);
		if (!U->done || (T->nsubs && !T->subs[0]->done))
			violate("C04", "connection not dropped with options '%s' and '%s'", o[a], o[b]);
	}
	if ((f = conn_to(E, A_DEC, 0)) == NULL)
		violate("C04", "no connection between the daemons");
	for (i = 0; i < 2; i++) {
		struct chan * c = i ? f->rx : f->tx;
		int opt = i ? b : a, isone;

		if (c->loglen < 320)
			continue;
		isone = memcmp(c->log + 32, ysc_one, 256) == 0;
		if (isone != (opt == 1))
			violate("C04", "the %s with option '%s' sent y %s 1", i ? "server" : "client", o[opt], isone ? "=" : "!=");
	}
	/* Keys derivable from the key file alone if and only if weak. */
	if (ok) {
		uint8_t K[32], buf[1024];
		struct ref_keys kc, ks;

		chk_wire("C05,C04", KEYA, f->tx, f->rx, weak ? ysc_one : NULL, 1, 100);
		if (!weak && f->tx->loglen > 1380) {
			ref_sha256(KEYA, strlen(KEYA), K);
			ref_keyset(K, f->tx->log, f->rx->log, ysc_one, &kc, &ks);
			if (ref_decrypt(&kc, 0, f->tx->log + 320, buf) >= 0)
				violate("C04", "the traffic can be decrypted with the key file alone");
			memset(buf, 0, 256);
			ref_keyset(K, f->tx->log, f->rx->log, buf, &kc, &ks);
			if (ref_decrypt(&kc, 0, f->tx->log + 320, buf) >= 0)
				violate("C04", "the traffic can be decrypted with the key file alone");
		}
	}
	alive("C04");
	finish(eps);
}

/* A peer with the key which sends a special y. */
static int yval_kind, yv_decr, yv_res;
static size_t yv_rx;
static const char * yvn[] = { "1", "p", "p+1", "2^2048-1", "p-1", "2", "1 in the top byte", "0", "normal" };
static void
yv_body(int s, int decr)
{
	struct ref_ep r;
	uint8_t dc[32], ds[32], y[256] = { 0 }, yh[R_YH], rx[R_YH], ysc[256], buf[1024];
	uint8_t * nc, * ns;
	ssize_t n;

	ref_init(&r, s, decr, KEYA, strlen(KEYA), 1);
	a_write(s, r.nl, 32);
	if (a_readfull(s, r.nr, 32) != 32)
		return;
	nc = decr ? r.nr : r.nl;
	ns = decr ? r.nl : r.nr;
	ref_dhmac(r.K, nc, ns, dc, ds);
	switch (yval_kind) {
	case 0: y[255] = 1; break;
	case 1: memcpy(y, ref_p, 256); break;
	case 2: memcpy(y, ref_p, 256); memset(y + 248, 0, 8); y[247]++; break;
	case 3: memset(y, 0xff, 256); break;
	case 4: memcpy(y, ref_p, 256); y[255]--; break;
	case 5: y[255] = 2; break;
	case 6: y[0] = 1; break;
	case 7: break;
	case 8: ref_pow2(r.x, y); break;
	}
	ref_mkyh(y, decr ? ds : dc, yh);
	if (decr && a_readfull(s, rx, R_YH) != R_YH)
		return;
	a_write(s, yh, R_YH);
	if (!decr && a_readfull(s, rx, R_YH) != R_YH) {
		a_close(s);
		return;
	}
	yv_res = 1;
	/* We can compute the shared value only when x is known or y = 1. */
	if (yval_kind == 0)
		memcpy(ysc, ysc_one, 256);
	else
		ref_modexp(rx, r.x, ysc);
	ref_keyset(r.K, nc, ns, ysc, &r.c, &r.s);
	if (yval_kind == 0 || yval_kind == 8) {
		ref_send(&r, "hello", 5);
		if ((n = ref_recv(&r, buf)) > 0)
			yv_rx = n;
	} else {
		yv_rx = a_readfull(s, buf, 1024);
	}
	a_close(s);
}
static void yv_server(void * a) { int l = a_listen(A_MID); yv_body(a_accept(l), 1); }
static void yv_client(void * a) { int s; a_sleep(0.001); if ((s = a_connect(A_DEC)) >= 0) yv_body(s, 0); }

static void
s_yvalues(void)
{
	static const char * o[] = { "", "-g", "-f" };
	int side = choose_free(2, "side"), opt = choose_free(3, "opt"), accept;
	struct ep * eps[] = { NULL, NULL };

	yval_kind = choose_free(9, "y");
	start(side ? 2 : 1, o[opt], o[opt], "[127.0.0.1]:2001");
	if (side) {
		eps[0] = T = mkserver("target", A_TGT, "w500 r5 s e c", 100, -1, 1);
		w_actor("peer", yv_client, NULL);
	} else {
		eps[0] = U = mkclient("user", A_ENC, "w700 s e c", 1, -1);
		U->hdr = -1;
		w_actor("peer", yv_server, NULL);
	}
	W.horizon = W.now + 9 * SEC;
	X_ENABLE(K_SHORTR);
	w_run();
	if (yval_kind == 8 && opt == 2) {
		/* Weak on our side: the peer's shared value is 1 too (checked
		 * from the other side elsewhere). */
		alive("C04,C14");
		finish(eps);
	}
	accept = !(yval_kind >= 1 && yval_kind <= 3) && !(yval_kind == 0 && opt == 1);
	/* As a server it answers only good values. */
	if (side && yv_res != accept)
		violate("C04", "y = %s was %s with options '%s'", yvn[yval_kind], yv_res ? "accepted" : "rejected", o[opt]);
	if (!accept && yv_rx)
		violate("C04", "data was sent after y = %s with options '%s'", yvn[yval_kind], o[opt]);
	if (accept && (yval_kind == 0 || yval_kind == 8) && yv_rx == 0)
		violate("C04,C05", "no data after y = %s with options '%s'", yvn[yval_kind], o[opt]);
	if (accept && !side && yv_rx == 0)
		violate("C04", "y = %s was rejected with options '%s'", yvn[yval_kind], o[opt]);
	alive("C04,C14");
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Conformance with the reference implementation of the protocol. */
static struct ref_ep R;
static int rf_decr, rf_lenkind, rf_npk, rf_ok, rf_weak;
static size_t rf_got, rf_sent;
static int rf_eof, rf_badat;
static const char * rf_key;
static size_t rf_keylen;
static uint32_t rf_badlen;

static void
ref_rx(int stream)
{
	uint8_t b[1024];
	ssize_t n, i;

	while ((n = ref_recv(&R, b)) > 0) {
		for (i = 0; i < n; i++)
			if (b[i] != pat(stream, rf_got + i))
				rf_badat = 1 + rf_got + i;
		rf_got += n;
	}
	if (n < 0 && rf_badlen == 1)
		violate("C05,C06", "the daemon's packet is not as the protocol says: %s", R.why);
	rf_eof = 1;
}

static void
ref_tx(int stream)
{
	static const int ls[] = { 1, 1024, 2, 1023, 512, 77 };
	uint8_t b[1024];
	int i, n;

	for (i = 0; i < rf_npk; i++) {
		n = ls[i % 6];
		patfill(b, stream, rf_sent, n);
		if (ref_send(&R, b, n))
			return;
		rf_sent += n;
	}
	if (rf_badlen != 1) {
		struct ref_keys * k = R.decr ? &R.s : &R.c;
		uint8_t pkt[R_PKT], d[1024];

		memset(d, 'X', 1024);
		ref_encrypt(k, k->pnum++, d, 1024, rf_badlen, pkt);
		a_write(R.fd, pkt, R_PKT);
		/* More good packets after the bad one. */
		ref_send(&R, d, 10);
	}
}

static void
ref_body(int s, int decr)
{

	ref_init(&R, s, decr, rf_key, rf_keylen, 3);
	R.nopfs = rf_weak;
	if (ref_handshake(&R))
		violate("C05,C18,C25", "the daemon's handshake is not as the protocol says: %s", R.why);
	rf_ok = 1;
	ref_tx(decr ? 101 : 1);
	a_shut(s);
	ref_rx(decr ? 1 : 101);
	a_close(s);
}
static void ref_server(void * a) { int l = a_listen(A_MID); ref_body(a_accept(l), 1); }
static void ref_client(void * a) { int s; a_sleep(0.001); if ((s = a_connect(A_DEC)) >= 0) ref_body(s, 0); }

static void
ref_run(int side, const char * opt, size_t n, int npk)
{
	static char sc[64];
	struct ep * eps[] = { NULL, NULL };

	rf_npk = npk;
	snprintf(sc, sizeof(sc), "w%zu s e c", n);
	start(side ? 2 : 1, opt, opt, "[127.0.0.1]:2001");
	w_file("/key", rf_key, rf_keylen);
	if (side) {
		eps[0] = T = mkserver("target", A_TGT, sc, 101, 1, 1);
		w_actor("peer", ref_client, NULL);
	} else {
		eps[0] = U = mkclient("user", A_ENC, sc, 1, 101);
		U->hdr = -1;
		w_actor("peer", ref_server, NULL);
	}
}

static void
ref_end(int side, size_t n)
{
	struct ep * e, * eps[] = { side ? T : U, NULL };

	w_run();
	e = side ? (T->nsubs ? T->subs[0] : NULL) : U;
	if (!rf_ok || e == NULL)
		violate("C05,C18", "no handshake with the reference implementation: %s", R.why ? R.why : "-");
	if (rf_badat)
		violate("C05", "data received by the reference peer is wrong at %d", rf_badat - 1);
	if (e->badat)
		violate("C05,C01", "data delivered is wrong at %d", e->badat - 1);
	if (rf_badlen == 1) {
		if (rf_got != n)
			violate("C05", "the reference peer got %zu of %zu bytes", rf_got, n);
		if (e->got != rf_sent)
			violate("C05", "%zu of the %zu bytes from the reference peer were delivered", e->got, rf_sent);
		if (!e->eof)
			violate("C05,C02", "end of file not passed on");
	} else {
		if (e->got > rf_sent)
			violate("C05,C01", "a packet with length field %u was delivered", rf_badlen);
		if (!e->done)
			violate("C05,C08", "the connection survived a packet with length field %u", rf_badlen);
	}
	alive("C05,C14");
	finish(eps);
}

static void
s_ref(void)
{
	static const size_t ns[] = { 1, 1024, 1025, 5000 };
	int side = choose_free(2, "side"), opt = choose_free(2, "opt");
	size_t n = ns[choose_free(4, "len")];

	rf_badlen = 1;
	rf_weak = choose_free(2, "refweak");
	rf_key = KEYA;
	rf_keylen = strlen(KEYA);
	ref_run(side, opt ? "-f" : "", n, 7);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	X_ENABLE(K_EAGAIN);
	ref_end(side, n);
}

/* Many packets: the packet number's bytes. */
static void
s_refmany(void)
{
	int side = choose_free(2, "side");

	rf_badlen = 1;
	rf_weak = 1;
	rf_key = KEYA;
	rf_keylen = strlen(KEYA);
	ref_run(side, "-f", 700000, 600);
	ref_end(side, 700000);
}

static void
s_refkeys(void)
{
	static const size_t ks[] = { 0, 1, 31, 32, 55, 56, 63, 64, 65, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000 };
	size_t l = ks[choose_free(17, "keylen")], i;
	int side = choose_free(2, "side"), zero = choose_free(2, "zeros");
	char * k = malloc(l + 1);

	patfill((uint8_t *)k, 9, 0, l);
	if (zero) {
		/* Nulls, newlines and 0xff inside. */
		for (i = 0; i < l; i += 3)
			k[i] = i % 2 ? 0 : i % 5 ? '\n' : (char)0xff;
	}
	rf_badlen = 1;
	rf_weak = 1;
	rf_key = k;
	rf_keylen = l;
	ref_run(side, "-f", 100, 2);
	X_ENABLE(K_SHORTR);
	ref_end(side, 100);
}

static void
s_refbadlen(void)
{
	static const uint32_t bl[] = { 0, 1025, 1028, 1060, 2048, 65536, 65537, 0x10000001, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x01000000 };
	int side = choose_free(2, "side");

	rf_badlen = bl[choose_free(13, "badlen")];
	rf_weak = 1;
	rf_key = KEYA;
	rf_keylen = strlen(KEYA);
	ref_run(side, "-f", 100, choose_free(3, "good-first"));
	X_ENABLE(K_SHORTR);
	ref_end(side, 100);
}

/* ------------------------------------------------------------------ */
/* Several connections: everything that must be fresh is. */
static void
s_fresh(void)
{
	static const char * op[][2] = { { "", "" }, { "-f", "-f" }, { "-g", "" }, { "", "-g" }, { "-g", "-g" }, { "-f", "" }, { "", "-f" }, { "-g -j -o 3 -n 7", "-o 2 -R -n 0 -j" } };
	int o = choose_free(8, "options"), pfs = o != 1 && o != 5 && o != 6, i, j, n = 3;
	struct ep * us[4], * eps[6];
	struct sfile * f[4];

	start(3, op[o][0], op[o][1], "[127.0.0.1]:2002");
	eps[0] = T = mkserver("target", A_TGT, "r1 w1100 e s c", 100, -2, n);
	for (i = 0; i < n; i++) {
		char nm[10];

		snprintf(nm, sizeof(nm), "user%d", i + 1);
		/* The first two send the same data. */
		eps[i + 1] = us[i] = mkclient(strdup(nm), A_ENC, "w1100 s e c", i + 1, 101 + i);
		us[i]->hdr = i < 2 ? -1 : -2000;
	}
	eps[n + 1] = NULL;
	X_ENABLE(K_SCHED);
	X_ENABLE(K_SHORTR);
	X_ENABLE(K_SHORTW);
	W.horizon = W.now + 5 * SEC;
	w_run();
	for (i = 0; i < n; i++) {
		struct ep * t = NULL;

		for (j = 0; j < T->nsubs; j++)
			if (T->subs[j]->expect == i + 1)
				t = T->subs[j];
		if (t == NULL)
			violate("C06,C02", "user %d did not reach the target", i);
		chk_complete("C02,C06", "user->target", t, us[i]);
		chk_complete("C02,C06", "target->user", us[i], t);
		if ((f[i] = conn_to(E, A_DEC, i)) == NULL)
			violate("C06", "connection %d not found", i);
	}
	for (i = 0; i < n; i++) {
		if (!memcmp(f[i]->tx->log, f[i]->rx->log, 32))
			violate("C06", "both ends used the same nonce");
		if (pfs && !memcmp(f[i]->tx->log + 32, f[i]->rx->log + 32, 256))
			violate("C06", "both ends used the same y");
		if (!pfs)
			chk_wire("C05,C06", KEYA, f[i]->tx, f[i]->rx, ysc_one, -1, -1);
		for (j = 0; j < i; j++) {
			if (!memcmp(f[i]->tx->log, f[j]->tx->log, 32) || !memcmp(f[i]->rx->log, f[j]->rx->log, 32))
				violate("C06", "a nonce was used for two connections");
			if (pfs && (!memcmp(f[i]->tx->log + 32, f[j]->tx->log + 32, 256) ||
			    !memcmp(f[i]->rx->log + 32, f[j]->rx->log + 32, 256)))
				violate("C06", "a Diffie-Hellman value was used for two connections");
		}
	}
	/* No 64-byte window of ciphertext, nor keystream, repeats. */
	for (i = 0; i < n; i++) {
		for (j = 0; j < n; j++) {
			int di, dj;

			for (di = 0; di < 2; di++)
				for (dj = 0; dj < 2; dj++) {
					struct chan * a = di ? f[i]->rx : f[i]->tx, * b = dj ? f[j]->rx : f[j]->tx;
					size_t x, y;
					int k, xs = di ? 101 + i : 1 + i, ys = dj ? 101 + j : 1 + j;

					if (i == j && di == dj) {
						/* Packets of the same stream. */
						for (x = 320; x + R_PKT <= a->loglen; x += R_PKT)
							for (y = 320; y < x; y += R_PKT) {
								for (k = 100; k < 1024; k++)
									if (a->log[x + k] != a->log[y + k])
										break;
								if (k > 116)
									violate("C06", "keystream repeated between packets");
							}
						continue;
					}
					if (a->loglen < 1380 || b->loglen < 1380)
						continue;
					/*
					 * The first 64 bytes of plaintext are known: same
					 * keystream iff the differences agree.
					 */
					for (k = 0; k < 32; k++)
						if ((a->log[320 + 1024 - 1 - k] ^ b->log[320 + 1024 - 1 - k]) != 0 && k >= 0)
							break;
					(void)xs; (void)ys;
					for (k = 1; k < 33; k++)
						if ((a->log[320 + k] ^ b->log[320 + k]) != (pat(xs, k) ^ pat(ys, k)))
							break;
					if (k == 33)
						violate("C06", "keystream repeated between connections or directions");
				}
		}
	}
	alive("C06");
	finish(eps);
}

static const struct x_scenario scens[] = {
	{ "mitm", s_mitm, 2, 3, "C01,C14" },
	{ "mitm2", s_mitm2, 1, 2, "C01,C06" },
	{ "bitflip", s_bitflip, 0, 0, "C01,C03" },
	{ "cross", s_cross, 1, 2, "C03,C01" },
	{ "rogue", s_rogue, 0, 1, "C03,C14,C07,C08" },
	{ "pfsmatrix", s_pfsmatrix, 1, 2, "C04" },
	{ "yvalues", s_yvalues, 0, 1, "C04,C23" },
	{ "ref", s_ref, 1, 2, "C05,C06,C25" },
	{ "refmany", s_refmany, 0, 0, "C05,C06,C25" },
	{ "refkeys", s_refkeys, 1, 1, "C05,C18" },
	{ "refbadlen", s_refbadlen, 0, 1, "C05,C01,C14" },
	{ "fresh", s_fresh, 1, 2, "C06,C24" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
