/* Memory, descriptors or any other resource run out, anywhere. */
#include <netinet/in.h>
#include "topo.h"

#define MS 1000000ULL
#define T0 (1000 * SEC)
#define T_FAULT (T0 + 4 * SEC)		/* no more faults from now on */
#define T_LATE 40000			/* ms: the last user arrives */
static struct proc * E, * D, * V;	/* V: the daemon with the faults */
static struct ep * T, * us[6];
static int nus, conf, peakn, snapped;
static uint64_t t_start;
static struct { long blocks, bn, fops, ai; int fds; } B0;
static struct ref_ep RP;
static int rp_ok, rp_sent;

static int
nlive(struct proc * p, int acc)
{
	int i, n = 0;

	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type == F_SOCK && f->creator == p && !f->listening && !f->closed && !f->ispair && f->accepted == acc)
			n++;
	}
	return (n);
}

static int
flt(struct proc * p, int kind, const char * l)
{

	(void)l;
	if (kind == K_ALLOC || kind == K_SYSFAIL || kind == K_NETERR)
		return (p == V && W.now < T_FAULT && W.now >= t_start);
	return (1);
}

static void
step(void)
{
	int n = nlive(V, 1);

	if (n > peakn)
		peakn = n;
}

static void
snapper(void * a)
{

	(void)a;
	a_sleep(0.05);
	B0.blocks = V->heap_blocks;
	B0.bn = V->bn_live;
	B0.fops = V->fopen_live;
	B0.ai = V->ai_live;
	B0.fds = w_openfds(V);
	snapped = 1;
}

/* Somebody without the key. */
static void
rogue(void * a)
{
	static const uint8_t ok[256] = { 0 };
	int s;

	(void)a;
	a_sleep(0.15);
	if ((s = a_connect(A_DEC)) == -1)
		return;
	ref_init(&RP, s, 0, "not the key", 11, 5);
	RP.nopfs = 1;
	rp_sent = 1;
	rp_ok = ref_handshake(&RP) == 0;
	a_write(s, ok, 200);
	a_sleep(3);
	a_close(s);
}

static int
names(struct proc * p, const char * h, const char * s, struct saddr * out, int max, uint64_t * delay)
{

	(void)p; (void)h; (void)s; (void)max;
	*delay = MS;
	*out = mkaddr(A_TGT);
	return (1);
}

static void
fault(int kind, int mode)
{
	static const char * const eo[] = { "-f -o 2", "-f -o 2", "-o 2", "-f -o 2 -n 1", "-f -o 2 -u alice", "-f -o 2" };
	static const char * const dopt[] = { "-f -o 2", "-f -o 2", "-g -o 2", "-f -o 2 -n 1", "-f -o 2 -u alice", "-f -o 2 -r 1" };
	static const char * const ut[][2] = { { "w300 s e c", "e w2500 s c" }, { "w3000 z30 w5 s e c", "w40 z80 w10 s e c" } };
	int who, tr, i, steady = 0;
	struct ep * eps[8] = { NULL };
	char cmd[300];

	conf = choose_free(6, "configuration");
	who = choose_free(2, "which daemon");
	tr = conf == 2 ? 0 : choose_free(2, "traffic");
	if (conf == 5 && who == 0)
		x_leaf();
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	snprintf(cmd, sizeof(cmd), "spiped -d -s [127.0.0.1]:2002 -t %s -k /key -F %s", conf == 5 ? "target:1" : "[127.0.0.1]:3001", dopt[conf]);
	D = w_spawn("decr", spiped_2_main, cmd);
	snprintf(cmd, sizeof(cmd), "spiped -e -s [127.0.0.1]:1001 -t [127.0.0.1]:2002 -k /key -F %s", eo[conf]);
	E = w_spawn("encr", spiped_1_main, cmd);
	V = who ? D : E;
	if (mode == 2)
		V->nfd_max = 3 + choose_free(16, "descriptor limit");
	W.oom_sticky = mode == 1;
	T = mkserver("target", A_TGT, ut[tr][1], 101, 1, 6);
	/* Two together, and a last one when all is over. */
	us[nus++] = mkclient("u1", A_ENC, ut[tr][0], 1, 101);
	us[0]->hdr = -100;
	us[nus++] = mkclient("u2", A_ENC, ut[tr][0], 1, 101);
	us[1]->hdr = -200;
	us[nus++] = mkclient("late", A_ENC, ut[tr][0], 1, 101);
	us[2]->hdr = -T_LATE;
	for (i = 0; i < nus; i++) {
		us[i]->stream = 1 + i;
		us[i]->expect = -4;
	}
	T->expect = -4;
	if (conf == 1)
		w_actor("rogue", rogue, NULL);
	t_start = T0 + (steady ? 90 * MS : 0);
	w_actor("snapper", snapper, NULL);
	W.chfilter = flt;
	W.on_step = step;
	W.resolve = names;
	W.abort_ok = "Failed to allocate memory in getopt";
	X_ENABLE(kind);
	if (kind == K_SYSFAIL)
		X_ENABLE(K_NETERR);
	W.horizon = T0 + (T_LATE + 20000) * MS;
	w_run();

	x_sample("configuration %d, faults in %s: %s; u1 %zu/%zu u2 %zu/%zu late %zu/%zu", conf, V->name,
	    V->exited ? "it exits" : "it serves on", us[0]->got, us[0]->sent, us[1]->got, us[1]->sent, us[2]->got, us[2]->sent);
	for (i = 0; i < nus; i++)
		eps[i] = us[i];
	eps[i++] = T;
	if ((who ? E : D)->exited)
		violate("C28,C14", "the other daemon is gone: %s", w_describe(who ? E : D));
	if (V->exited) {
		if (V->status != 1 && V->status != 1006)
			violate("C28,C14", "not an orderly exit: %s", w_describe(V));
		if (V->outlen == 0)
			violate("C28", "exit without a message");
	}
	if (peakn > 1 && conf == 3)
		violate("C28,C09", "%d connections at a time with -n 1", peakn);
	if (conf == 1 && rp_ok)
		violate("C28,C03", "a peer without the key was accepted");
	/* All that arrives is right. */
	if (!V->exited && conf == 4 && (V->euid != 1001 || V->uid != 1001 || V->suid != 1001))
		violate("C28,C21", "serving as uid %u", V->euid);
	/* Every connection has ended. */
	for (i = 0; i < 2; i++)
		if (us[i]->connected && !us[i]->done)
			violate("C28", "%s is left hanging: %s / %s", us[i]->name, w_describe(E), w_describe(D));
	for (i = 0; i < nus; i++)
		chk_stream("C28,C01", "to the user", us[i], NULL);
	for (i = 0; i < T->nsubs; i++)
		chk_stream("C28,C01", "to the target", T->subs[i], NULL);
	/* And if it lives, it still works, and has lost nothing. */
	if (!V->exited) {
		struct ep * l = us[2];

		if (mode == 2 ? !l->done : (!l->connected || l->got == 0 || !l->eof || l->rderr))
			violate("C28", "it lives, but does not serve any more: %s", w_describe(V));
		if (nlive(V, 0) || nlive(V, 1))
			violate("C28,C08", "connections are left over");
		if (snapped && w_openfds(V) != B0.fds)
			violate("C28,C08", "%d descriptors are open now, %d at first", w_openfds(V), B0.fds);
		if (snapped && conf != 5 && (V->heap_blocks != B0.blocks || V->bn_live != B0.bn || V->ai_live != B0.ai))
			violate("C28,C08", "%ld blocks of memory are in use now, %ld at first (%ld/%ld numbers, %ld/%ld addresses)",
			    V->heap_blocks, B0.blocks, V->bn_live, B0.bn, V->ai_live, B0.ai);
	}
	finish(eps);
}
static void s_f_mem(void) { fault(K_ALLOC, 0); }
static void s_f_sys(void) { fault(K_SYSFAIL, 0); }

static void s_f_oom(void) { fault(K_ALLOC, 1); }
static void s_f_fds(void) { fault(K_NETERR, 2); }

static const struct x_scenario scens[] = {
	{ "f_oom", s_f_oom, 1, 1, "C28" },
	{ "f_fds", s_f_fds, 1, 2, "C28" },
	{ "f_mem", s_f_mem, 2, 3, "C28" },
	{ "f_sys", s_f_sys, 1, 2, "C28" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
