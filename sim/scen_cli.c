/* Command lines, addresses, key files and privileges. */
#include <ctype.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include "topo.h"

#define MS 1000000ULL
#define T0 (1000 * SEC)
static struct proc * E;
static int touched;		/* E has used the system */
static const char * touch_what;
static int
is_touch(const char * n)
{
	static const char * const t[] = { "socket", "socketpair", "pipe", "bind", "listen", "connect", "open", "fork",
	    "getaddrinfo", "accept", "unlink", "setuid", "setgid", "setgroups", "pthread_create", "read", "write", NULL };
	int i;

	for (i = 0; t[i]; i++)
		if (!strcmp(t[i], n))
			return (1);
	return (0);
}
static void
look(struct proc * p, const char * n)
{

	if (p == E && !touched && is_touch(n)) {
		touched = 1;
		touch_what = n;
	}
}

/* "[1.2.3.4]:80" */
static struct saddr
unbr(const char * a)
{
	char b[200];
	int n = 0;

	for (; *a && n < 199; a++)
		if (*a != '[' && *a != ']')
			b[n++] = *a;
	b[n] = '\0';
	return (mkaddr(b));
}

static struct sfile *
the_listener(void)
{
	struct sfile * r = NULL;
	int i;

	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type == F_SOCK && f->listening && !f->closed && f->creator && !f->creator->is_actor) {
			if (r)
				violate("C22,C19", "two listening sockets");
			r = f;
		}
	}
	return (r);
}
static int
ever_socket(void)
{
	int i;

	for (i = 0; i < W.nallfiles; i++)
		if (W.allfiles[i]->type == F_SOCK && W.allfiles[i]->creator == E)
			return (1);
	return (0);
}

/* ------------------------------------------------------------------ */
/* The documented command line, parsed independently. */
struct cfg {
	int bad, maybe, version, anyv;	/* refused; either way; -v */
	int e, d, D, f, F, g, j, R, syslog;
	const char * b, * k, * s, * t, * p, * u;
	int nset, oset, rset, nfs;
	double n, o, r;
};
static struct cfg C;

/* 1 good, 0 bad, -1 either way. */
static int
num(const char * a, int isint, double * v)
{
	const char * p = a;
	int dig = 0;

	*v = 0;
	if (*p == '\0' || *p == ' ' || *p == '+')
		return (*p == '\0' ? 0 : -1);
	if (!strcmp(a, "inf") || !strcmp(a, "1e20")) {
		*v = 1e20;
		return (isint ? 0 : -2);	/* valid; a very long time */
	}
	if (p[0] == '0' && p[1] != '\0' && p[1] != '.')
		return (-1);		/* octal, hexadecimal */
	for (; isdigit((unsigned char)*p); p++)
		dig = 1;
	if (!isint && *p == '.')
		for (p++; isdigit((unsigned char)*p); p++)
			dig = 1;
	if (!isint && dig && *p == 'e')
		for (p++; isdigit((unsigned char)*p); p++)
			;
	if (*p || !dig)
		return (0);
	*v = atof(a);
	if (isint) {
		errno = 0;
		(void)strtoull(a, NULL, 10);
		if (errno)
			return (0);
	}
	return (1);
}

static void
optarg1(int spiped, char o, const char * a)
{
	int r = 1;
	double v;

#define ONCE(x) do { if (x) C.bad = 1; x = a; } while (0)
	switch (o) {
	case 'b': ONCE(C.b); break;
	case 'k': ONCE(C.k); break;
	case 't': ONCE(C.t); break;
	case 'o':
		if (C.oset++)
			C.bad = 1;
		if ((r = num(a, 0, &v)) == -2)
			r = 1;
		C.o = v;
		break;
	default:
		if (!spiped) {
			C.bad = 1;
			return;
		}
		switch (o) {
		case 's': ONCE(C.s); break;
		case 'p': ONCE(C.p); break;
		case 'u': ONCE(C.u); break;
		case 'n':
			if (C.nset++)
				C.bad = 1;
			r = num(a, 1, &v);
			C.n = v;
			break;
		case 'r':
			if (C.rset++)
				C.bad = 1;
			if ((r = num(a, 0, &v)) == -2)
				r = 1;
			C.r = v;
			break;
		}
	}
	if (r == 0)
		C.bad = 1;
	if (r == -1)
		C.maybe = 1;
}

static void
flag1(int spiped, char o)
{
	int * w = NULL;

	switch (o) {
	case 'f': w = &C.f; break;
	case 'g': w = &C.g; break;
	case 'j': w = &C.j; break;
	case 'v': C.version = 1; return;
	}
	if (spiped)
		switch (o) {
		case 'd': w = &C.d; break;
		case 'e': w = &C.e; break;
		case 'D': w = &C.D; break;
		case 'F': w = &C.F; break;
		case 'R': w = &C.R; break;
		}
	if (w == NULL || *w)
		C.bad = 1;
	else
		*w = 1;
}

static int
addr_syntax(const char * a)
{

	return (a[0] != '\0' && a[0] != ':');
}

static void
refparse(int spiped, int ac, const char ** av)
{
	const char * withargs = spiped ? "bknoprstu" : "bkot";
	int i;

	memset(&C, 0, sizeof(C));
	for (i = 1; i < ac; i++)
		if (!strcmp(av[i], "-v"))
			C.anyv = 1;
	for (i = 1; i < ac && !C.bad && !C.version; i++) {
		const char * w = av[i];

		if (!strcmp(w, "--")) {
			i++;
			break;
		}
		if (w[0] != '-' || w[1] == '\0')
			break;
		if (w[1] == '-') {
			if (spiped && !strcmp(w, "--syslog")) {
				if (C.syslog++)
					C.bad = 1;
			} else
				C.bad = 1;
			continue;
		}
		for (w++; *w && !C.bad && !C.version; w++) {
			if (strchr(withargs, *w)) {
				if (w[1]) {
					optarg1(spiped, *w, w + 1);
					break;
				}
				if (++i == ac) {
					C.bad = 1;
					break;
				}
				optarg1(spiped, *w, av[i]);
				break;
			}
			flag1(spiped, *w);
		}
	}
	if (C.version)
		return;
	if (i < ac)
		C.bad = 1;
	if (spiped && (!C.d == !C.e || C.s == NULL))
		C.bad = 1;
	if ((C.f && C.g) || C.k == NULL || C.t == NULL)
		C.bad = 1;
	if (C.R && C.rset && C.r != 0) {
		if (C.r == 60)
			C.maybe = 1;
		else
			C.bad = 1;
	}
	if ((C.s && !addr_syntax(C.s)) || (C.t && !addr_syntax(C.t)) || (C.b && !addr_syntax(C.b)))
		C.bad = 1;
	if (!C.nset)
		C.n = 100;
	else if (C.n == 0)
		C.n = 1e30;
	if (!C.oset || C.o == 0)
		C.o = 5;
}

/* ------------------------------------------------------------------ */
static const char * const items[][3] = {
	{ NULL },
	{ "-D" }, { "-f" }, { "-F" }, { "-g" }, { "-j" }, { "-R" }, { "--syslog" }, { "-d" }, { "-e" },
	{ "-b", "10.0.0.9" }, { "-b", "[10.0.0.9]:7000" }, { "-b", "" }, { "-b", ":80" },
	{ "-k", "/key" }, { "-s", "[127.0.0.1]:1002" }, { "-t", "[127.0.0.1]:3002" }, { "-s", "" }, { "-t", ":1" },
	{ "-n", "1" }, { "-n", "2" }, { "-n2" }, { "-n", "0" }, { "-n", "18446744073709551615" }, { "-n", "18446744073709551616" },
	{ "-n", "x" }, { "-n", "-1" }, { "-n", "1.5" }, { "-n", "" }, { "-n", "3x" }, { "-n", "-18446744073709551615" },
	{ "-o", "2" }, { "-o", "2.5" }, { "-o1e1" }, { "-o", "0" }, { "-o", "-1" }, { "-o", "nan" }, { "-o", "2s" }, { "-o", "" }, { "-o", "1e20" }, { "-o", "inf" },
	{ "-p", "/pid" }, { "-p/pid" },
	{ "-r", "2" }, { "-r", "0" }, { "-r", "60" }, { "-r", "nan" }, { "-r", "-2" }, { "-r", "z" }, { "-r", "inf" },
	{ "-u", "alice" }, { "-u", ":staff" },
	{ "-v" }, { "-1" }, { "-x" }, { "--foo" }, { "extra" }, { "-" }, { "--" }, { "-jf" }, { "-fF" }, { "-jx" }, { "-jn", "3" },
	{ "-n" }, { "-o" }, { "-k" }, { "-u" }, { "--syslog=1" }, { "--sys" }, { "-j1" }, { "-jj" },
};
#define NITEMS ((int)(sizeof(items) / sizeof(items[0])))

static struct ep * users[4], * TG;

static void
s_cli_opts(void)
{
	const char * av[32];
	const char * base[][2] = { { "-e" }, { "-s", "[127.0.0.1]:1001" }, { "-t", "[127.0.0.1]:3001" }, { "-k", "/key" }, { "-F" } };
	int ac = 0, i, j, miss = -1, mode, it[3] = { 0, 0, 0 }, n = 0, nt = 0;
	struct ep * eps[] = { NULL };
	struct proc * d;
	struct sfile * l;
	double o;

	mode = choose_free(3, "mode");
	if (choose_free(2, "role"))
		base[0][0] = "-d";
	if (mode == 0) {		/* two extra items, anywhere */
		it[0] = choose_free(NITEMS, "item");
		it[1] = choose_free(NITEMS, "item");
	} else if (mode == 1) {	/* one missing, one extra */
		miss = choose_free(5, "missing");
		it[choose_free(2, "where")] = choose_free(NITEMS, "item");
	} else {		/* three in a row (thorough) */
		if (strcmp(x_tier, "thorough") != 0)
			x_leaf();
		it[0] = choose_free(NITEMS, "item");
		it[1] = choose_free(NITEMS, "item");
		it[2] = choose_free(NITEMS, "item");
	}
	av[ac++] = "spiped";
	if (it[0])
		for (j = 0; j < 3 && items[it[0]][j]; j++)
			av[ac++] = items[it[0]][j];
	if (it[2])
		for (j = 0; j < 3 && items[it[2]][j]; j++)
			av[ac++] = items[it[2]][j];
	for (i = 0; i < 5; i++)
		for (j = 0; i != miss && j < 2 && base[i][j]; j++)
			av[ac++] = base[i][j];
	if (it[1])
		for (j = 0; j < 3 && items[it[1]][j]; j++)
			av[ac++] = items[it[1]][j];
	refparse(1, ac, av);
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	E = w_spawnv("spiped", spiped_1_main, ac, av);
	W.on_syscall = look;
	for (i = 0; i < 4; i++) {
		users[i] = mkclient("user", "127.0.0.1:1001", "ec", 1, 2);
		users[i]->hdr = -100;
	}
	TG = mkserver("target", "127.0.0.1:3001", "ec", 2, 1, 8);
	W.horizon = T0 + 20 * SEC;
	w_run();
	{
		char b[400] = "";

		for (i = 0; i < ac; i++)
			snprintf(b + strlen(b), sizeof(b) - strlen(b), "%s ", av[i][0] ? av[i] : "''");
		x_sample("%s: %s", b, C.bad ? "refused" : C.version ? "version" : "accepted");
		x_trace_note("command line: %s", b);
	}
	x_outcome(C.bad + 2 * C.version);
	if (C.version) {
		if (!E->exited || (E->status != 0 && E->status != 1) || touched)
			violate("C22", "-v did more than print the version: %s", w_describe(E));
		if (E->status == 0 && (E->out == NULL || strstr(E->out, "spiped ") == NULL))
			violate("C22", "no version was printed");
		finish(eps);
	}
	if (C.bad || (C.maybe && E->exited && E->status == 1)) {
		/* Values may be looked at before or after "-v". */
		if (C.anyv && E->exited && E->status == 0 && !touched && E->out && strstr(E->out, "spipe"))
			finish(eps);
		if (!E->exited || E->status != 1)
			violate("C22", "a bad command line was accepted: %s", w_describe(E));
		if (E->outlen == 0)
			violate("C22", "a bad command line was refused without a word");
		if (touched && !C.maybe)
			violate("C22", "a bad command line was refused only after %s()", touch_what);
		finish(eps);
	}
	/* An option taken as the name of a user. */
	if (C.u && strcmp(C.u, "alice") && strcmp(C.u, ":staff"))
		finish(eps);
	/* The daemon. */
	d = E;
	if (!C.F) {
		const char * pf = C.p ? C.p : NULL;
		char pb[100], want[20];
		struct simfile * sf;

		if (!E->exited || E->status != 0 || (d = w_child(E, 0)) == NULL)
			violate("C22,C20", "a good command line was not accepted: %s", w_describe(E));
		snprintf(pb, sizeof(pb), "%s.pid", C.s);
		if (pf == NULL)
			pf = pb;
		sf = w_lookup(pf);
		snprintf(want, sizeof(want), "%u", d->pid);
		if (sf == NULL || sf->len != strlen(want) || memcmp(sf->data, want, sf->len))
			violate("C20,C22", "the pid file %s is not right", pf);
	} else if (w_lookup("/pid"))
		violate("C20,C22", "a pid file was written with -F");
	if (d->exited)
		violate("C22", "a good command line was refused: %s", w_describe(d));
	if (C.maybe)
		finish(eps);
	if ((l = the_listener()) == NULL || l->creator == NULL)
		violate("C22", "not listening");
	{
		struct saddr x = unbr(C.s);

		if (!saddr_eq(&x, &l->local))
			violate("C19,C22", "listening on the wrong address");
		if (strcmp(C.s, "[127.0.0.1]:1001"))
			finish(eps);	/* the users went somewhere else */
	}
	for (i = 0; i < W.nallfiles && strcmp(C.t, "[127.0.0.1]:3001"); i++) {
		struct sfile * f = W.allfiles[i];
		struct saddr x = unbr(C.t);

		if (f->type == F_SOCK && f->creator == d && !f->listening && !f->ispair && !f->accepted) {
			nt++;
			if (!saddr_eq(&x, &f->remote))
				violate("C22,C19", "connecting to the wrong target");
		}
	}
	if (strcmp(C.t, "[127.0.0.1]:3001")) {
		if (nt == 0)
			violate("C22", "no connection to the target");
		finish(eps);	/* nobody is there */
	}
	/* How many were served at first, and until when. */
	o = C.o;
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];
		int v;

		if (f->type != F_SOCK || f->creator != d || f->listening || f->ispair)
			continue;
		if (f->accepted && f->t_acc < T0 + 200 * MS)
			n++;
		if (f->accepted && f->closed && f->t_closed < T0 + 15 * SEC) {
			double age = (f->t_closed - f->t_acc) / 1e9;

			if (f->t_acc < T0 + 200 * MS && (age < o - 0.01 || age > o + 0.1))
				violate("C22,C07", "a silent connection was dropped after %.3f s instead of %.3f", age, o);
		}
		if (f->accepted && !f->closed && f->t_acc < T0 + 200 * MS && o < 15)
			violate("C22,C07", "a silent connection was not dropped");
		if (!f->accepted) {
			struct saddr x = unbr(C.t), y = mkaddr(C.b && C.b[0] == '[' ? "10.0.0.9:7000" : "10.0.0.9:0");

			nt++;
			if (!saddr_eq(&x, &f->remote))
				violate("C22,C19", "connecting to the wrong target");
			if (C.b && (!f->isbound || !saddr_eq(&y, &f->local)))
				violate("C22,C12", "not connecting from the -b address");
			if (!C.b && f->isbound)
				violate("C22,C12", "connecting from a particular address without -b");
		}
		if (f->state == 2 && (f->accepted || f->t_conn)) {
			if (sock_opt(f, SOL_SOCKET, SO_KEEPALIVE, &v) && v && C.j)
				violate("C16,C22", "keep-alives are on in spite of -j");
		}
	}
	if (n != (C.n < 4 ? (int)C.n : 4))
		violate("C22,C09", "%d connections are served at a time with -n %g", n, C.n);
	if (nt == 0)
		violate("C22", "no connection to the target");
	if (C.u && (strcmp(C.u, "alice") ? d->gid != 3001 || d->uid != 0 : d->uid != 1001))
		violate("C21,C22", "-u has no effect");
	if (!C.u && (d->uid || d->gid))
		violate("C21,C22", "privileges were dropped without -u");
	/* Direction: who takes cleartext, who speaks the protocol. */
	if (TG->nsubs && C.e && !TG->subs[0]->got)
		violate("C22", "with -e nothing is sent to the target");
	if (C.d) {
		if (TG->nsubs && TG->subs[0]->got)
			violate("C22", "with -d something is sent to the target before the handshake");
		if (!users[0]->got && !users[1]->got && !users[2]->got && !users[3]->got)
			violate("C22", "with -d nothing is sent to the client");
	}
	finish(eps);
}

/* spipe. */
static const char * const pitems[][3] = {
	{ NULL }, { "-f" }, { "-g" }, { "-j" }, { "-F" }, { "-D" }, { "-e" }, { "-d" }, { "-R" }, { "--syslog" },
	{ "-b", "10.0.0.9" }, { "-b", "[10.0.0.9]:7000" }, { "-b", "" }, { "-b", ":80" }, { "-b", "[10.0.0.9" },
	{ "-k", "/key" }, { "-t", "[127.0.0.1]:3002" }, { "-t", "" }, { "-n", "1" }, { "-s", "[127.0.0.1]:1002" },
	{ "-o", "2" }, { "-o", "2.5" }, { "-o1e1" }, { "-o", "0" }, { "-o", "-1" }, { "-o", "nan" }, { "-o", "2s" }, { "-o", "" }, { "-o", "1e20" }, { "-o", "inf" },
	{ "-v" }, { "-1" }, { "-x" }, { "--foo" }, { "extra" }, { "-" }, { "--" }, { "-jf" }, { "-jx" }, { "-jo", "3" },
	{ "-o" }, { "-k" }, { "-b" }, { "-jj" },
};
#define NPITEMS ((int)(sizeof(pitems) / sizeof(pitems[0])))

static void
s_cli_spipe(void)
{
	const char * av[32];
	const char * base[][2] = { { "-t", "[127.0.0.1]:3001" }, { "-k", "/key" } };
	int ac = 0, i, j, miss = -1, it[3] = { 0, 0, 0 }, nt = 0, else_where;
	struct ep * eps[] = { NULL };

	if (choose_free(2, "mode") == 0) {
		it[0] = choose_free(NPITEMS, "item");
		it[1] = choose_free(NPITEMS, "item");
		it[2] = choose_free(strcmp(x_tier, "thorough") ? 2 : NPITEMS, "item");
	} else {
		miss = choose_free(2, "missing");
		it[choose_free(2, "where")] = choose_free(NPITEMS, "item");
	}
	av[ac++] = "spipe";
	for (i = 0; i < 2; i++) {
		for (j = 0; j < 2 && it[i * 2] && pitems[it[i * 2]][j]; j++)
			av[ac++] = pitems[it[i * 2]][j];
		for (j = 0; i != miss && j < 2; j++)
			av[ac++] = base[i][j];
	}
	for (j = 0; j < 2 && it[1] && pitems[it[1]][j]; j++)
		av[ac++] = pitems[it[1]][j];
	refparse(0, ac, av);
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	E = w_spawnv("spipe", spipe_1_main, ac, av);
	{
		struct chan * c;

		p_installfd(E, 0, mkpipe_r(&c));
	}
	W.on_syscall = look;
	TG = mkserver("target", "127.0.0.1:3001", "ec", 2, 1, 8);
	W.horizon = T0 + 20 * SEC;
	w_run();
	{
		char b[400] = "";

		for (i = 0; i < ac; i++)
			snprintf(b + strlen(b), sizeof(b) - strlen(b), "%s ", av[i][0] ? av[i] : "''");
		x_sample("%s: %s", b, C.bad ? "refused" : C.version ? "version" : "accepted");
		x_trace_note("command line: %s", b);
	}
	x_outcome(C.bad + 2 * C.version);
	if (C.version) {
		if (!E->exited || (E->status != 0 && E->status != 1) || touched)
			violate("C22", "-v did more than print the version: %s", w_describe(E));
		if (E->status == 0 && (E->out == NULL || strstr(E->out, "spipe") == NULL))
			violate("C22", "no version was printed");
		finish(eps);
	}
	if (C.bad || (C.maybe && E->exited && E->status == 1 && !touched)) {
		/* Values may be looked at before or after "-v". */
		if (C.anyv && E->exited && E->status == 0 && !touched && E->out && strstr(E->out, "spipe"))
			finish(eps);
		if (!E->exited || E->status != 1)
			violate("C22", "a bad command line was accepted: %s", w_describe(E));
		if (E->outlen == 0)
			violate("C22", "a bad command line was refused without a word");
		if (touched)
			violate("C22", "a bad command line was refused only after %s()", touch_what);
		finish(eps);
	}
	if (C.b && !strcmp(C.b, "[10.0.0.9")) {
		if (!E->exited || E->status != 1 || TG->nsubs)
			violate("C19,C22", "a bad address was accepted: %s", w_describe(E));
		finish(eps);
	}
	if (C.maybe)
		finish(eps);
	else_where = strcmp(C.t, "[127.0.0.1]:3001") != 0;
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];
		struct saddr x = unbr(C.t), y = mkaddr(C.b && C.b[0] == '[' ? "10.0.0.9:7000" : "10.0.0.9:0");
		int v;

		if (f->type != F_SOCK || f->creator != E || f->ispair)
			continue;
		nt++;
		if (f->listening || f->accepted)
			violate("C22", "spipe listens");
		if (!saddr_eq(&x, &f->remote))
			violate("C22,C19", "connecting to the wrong target");
		if (C.b && (!f->isbound || !saddr_eq(&y, &f->local)))
			violate("C22,C12", "not connecting from the -b address");
		if (!C.b && f->isbound)
			violate("C22,C12", "connecting from a particular address without -b");
		if (sock_opt(f, SOL_SOCKET, SO_KEEPALIVE, &v) && v && C.j)
			violate("C16,C22", "keep-alives are on in spite of -j");
		if (else_where)
			continue;
		if (C.o < 15) {
			double age = (f->t_closed - f->t_conn) / 1e9;

			if (!f->closed || age < C.o - 0.01 || age > C.o + 0.1)
				violate("C22,C07", "a silent connection was dropped after %.3f s instead of %.3f", age, C.o);
		} else if (f->closed)
			violate("C22,C07", "a silent connection was dropped though -o %g was given", C.o);
	}
	if (nt != 1)
		violate("C22", "%d connections were made: %s", nt, w_describe(E));
	if (C.o < 15 && (!E->exited || E->status == 0))
		violate("C13,C22", "the handshake failed, but: %s", w_describe(E));
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Addresses: every sequence of up to N of these pieces. */
static const char * const pieces[] = {
	"[", "]", ":", "1.2.3.4", "::1", "80", "host.example", "/", "/sock", "65536", "65535", "-1", "1.2.3", "x", "fe80::1%lo", "0",
	"LONG107", "LONG108",
};
#define NPIECES ((int)(sizeof(pieces) / sizeof(pieces[0])))
static char addr[1024], rs_host[1024], rs_serv[1024];
static int rs_n;
static int
rec_resolve(struct proc * p, const char * host, const char * serv, struct saddr * out, int max, uint64_t * delay)
{

	rs_n++;
	snprintf(rs_host, sizeof(rs_host), "%s", host);
	snprintf(rs_serv, sizeof(rs_serv), "%s", serv ? serv : "(null)");
	out[0] = mkaddr("10.7.7.7:4242");
	return (1);
}

/* 0 refused, 1 this address, 2 the resolver is asked, -1 do not care. */
static int
refaddr(const char * a, int addport, struct saddr * out, char * host, char * serv)
{
	const char * c, * b, * p;
	char ip[256];
	long port;
	size_t n;

	memset(out, 0, sizeof(*out));
	if (a[0] == '\0' || a[0] == ':')
		return (0);
	if (a[0] == '/') {
		struct sockaddr_un * u = (void *)out->b;

		if (strlen(a) >= sizeof(u->sun_path))
			return (0);
		*out = mkaddr(a);
		return (1);
	}
	c = strrchr(a, ':');
	if (a[0] == '[') {
		b = strchr(a, ']');
		if (b == NULL)
			return (0);
		if (addport && b[1] == '\0')
			port = 0;
		else {
			if (b[1] != ':')
				return (0);
			p = b + 2;
			if (*p == '\0')
				return (-1);
			/* Blanks, a plus sign, minus nothing: not said. */
			if (!strcmp(p, "-0"))
				return (-1);
			if (strspn(p, " \t\n+") && !strchr(p, '-'))
				return (-1);
			for (n = 0; isdigit((unsigned char)p[n]); n++)
				;
			if (p[n] || n == 0)
				return (0);
			port = strtol(p, NULL, 10);
			if (port > 65535)
				return (0);
			if (port == 0 && !addport)
				return (-1);
		}
		n = b - a - 1;
		if (n >= sizeof(ip))
			return (0);
		memcpy(ip, a + 1, n);
		ip[n] = '\0';
		{
			struct in_addr a4;
			struct in6_addr a6;

			if (inet_pton(AF_INET, ip, &a4) == 1) {
				struct sockaddr_in * s = (void *)out->b;

				s->sin_family = AF_INET;
				s->sin_addr = a4;
				s->sin_port = htons(port);
				out->len = sizeof(*s);
				return (1);
			}
			if (inet_pton(AF_INET6, ip, &a6) == 1) {
				struct sockaddr_in6 * s = (void *)out->b;

				s->sin6_family = AF_INET6;
				s->sin6_addr = a6;
				s->sin6_port = htons(port);
				out->len = sizeof(*s);
				return (1);
			}
		}
		return (0);
	}
	if (c == NULL) {
		if (!addport)
			return (0);
		strcpy(host, a);
		strcpy(serv, "0");
	} else {
		n = c - a;
		memcpy(host, a, n);
		host[n] = '\0';
		strcpy(serv, c + 1);
	}
	return (2);
}

static void
addr_user(void * a)
{
	int fd;

	a_sleep(0.1);
	if ((fd = a_connect("127.0.0.1:1001")) != -1) {
		a_sleep(0.05);
		a_close(fd);
	}
}

static void
cli_addr(int odd)
{
	static char host[1024], serv[1024];
	const char * av[20] = { "spiped", "-e", "-F", "-R", "-k", "/key" };
	int i, np, where, ac = 6, k, acc = 0;
	struct ep * eps[] = { NULL };
	struct saddr x;
	struct sfile * l;

	where = choose_free(3, "option");
	if (odd) {
		/* Unusual ways to write numbers. */
		static const char * hs[] = { "[1.2.3.4]", "[::1]", "[01.2.3.4]", "[1.2.3.4.5]", "[256.1.1.1]", "[1.2.3]", "[0x1.2.3.4]", "[1.2.3.4 ]", "[ 1.2.3.4]", "[]", "[1.2.3.08]",
		    "[::ffff:1.2.3.4]", "[1::2::3]", "[:::1]", "[12345::]", "[::]", "[0.0.0.0]", "[1:2:3:4:5:6:7:8]", "[1:2:3:4:5:6:7:8:9]", "[255.255.255.255]", "[2001:DB8::A]", "[[::1]]",
		    "[1.2.3.4", "1.2.3.4]", "[host.example]", "host.example", "a.b-c_d.e", "[::1%1]", "[::1/64]", "[16909060]" };
		static const char * ps[] = { ":80", ":0080", ":010", ":09", ":0x50", ":+80", ": 80", ":80 ", ":-0", ":-80", ":1e3", ":00000000000000000000000000000000080", ":65536", ":65535", ":065535",
		    ":65616", ":131152", ":4294967376", ":18446744073709551696", ":18446744073709551615", ":99999999999999999999999999", ":8 0", ":80:", "::80", ":80]", ":1", ":8.0", ":http", "", ":" };

		strcat(addr, hs[choose_free(30, "host")]);
		strcat(addr, ps[choose_free(30, "port")]);
		np = 0;
	} else
		np = choose_free(strcmp(x_tier, "thorough") ? 5 : 6, "pieces");
	for (i = 0; i < np; i++) {
		k = choose_free(NPIECES, "piece");
		if (!strncmp(pieces[k], "LONG", 4)) {
			int n = atoi(pieces[k] + 4);

			if (i > 0)
				x_leaf();
			addr[0] = '/';
			memset(addr + 1, 'a', n - 1);
			addr[n] = '\0';
			continue;
		}
		strcat(addr, pieces[k]);
	}
	k = refaddr(addr, where == 2, &x, host, serv);
	av[ac++] = "-s";
	av[ac++] = where == 0 ? addr : "[127.0.0.1]:1001";
	av[ac++] = "-t";
	av[ac++] = where == 1 ? addr : "[127.0.0.1]:3001";
	if (where == 2) {
		av[ac++] = "-b";
		av[ac++] = addr;
	}
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	E = w_spawnv("spiped", spiped_1_main, ac, av);
	W.resolve = rec_resolve;
	if (where)
		w_actor("user", addr_user, NULL);
	W.horizon = T0 + 300 * MS;
	w_run();
	x_trace_note("%s %s", where == 0 ? "-s" : where == 1 ? "-t" : "-b", addr);
	x_sample("%s %s: %s", where == 0 ? "-s" : where == 1 ? "-t" : "-b", addr, k == 0 ? "refused" : k == 1 ? "accepted" : "resolved");
	x_outcome(k + 1);
	if (E->exited) {
		/* (An address which can be seen to be none at once may be answered with the usage.) */
		if (E->out == NULL || strstr(E->out, "usage") == NULL)
			chk_words(E, "spiped", 0);
		if (E->status != 1 || E->outlen == 0)
			violate("C19,C14", "the address \"%s\" leads to: %s", addr, w_describe(E));
		if (k == 1)
			violate("C19", "the address \"%s\" was refused: %s", addr, w_describe(E));
		if (the_listener())
			violate("C19", "listening after exit");
		/* The resolver may refuse a service. */
		if (k == 2 && rs_n)
			violate("C19", "the name \"%s\" was resolved, but then refused: %s", addr, w_describe(E));
		if (k == 2 && !rs_n) {
			char * e;
			long p = strtol(serv, &e, 10);
			struct in_addr a4;
			struct in6_addr a6;

			(void)a4;
			(void)a6;
			if (*serv && *e == '\0' && p >= 0 && p <= 65535)
				violate("C19", "the address \"%s\" was refused: %s", addr, w_describe(E));
		}
		finish(eps);
	}
	if (k == 0)
		violate("C19", "the bad address \"%s\" was accepted", addr);
	if (k == -1)
		finish(eps);
	if (k == 2) {
		if (rs_n == 0) {
			/* A number without brackets. */
			char b[1100];
			struct in6_addr a6;

			if (inet_pton(AF_INET6, host, &a6) == 1)
				snprintf(b, sizeof(b), "[%s]:%s", host, *serv ? serv : "0");
			else
				snprintf(b, sizeof(b), "%s:%s", host, *serv ? serv : "0");
			x = mkaddr(b);
		} else {
			if (strcmp(rs_host, host) || strcmp(rs_serv, serv) || rs_n != 1)
				violate("C19", "for \"%s\", the host \"%s\" and the port \"%s\" were looked up (%d times)", addr, rs_host, rs_serv, rs_n);
			x = mkaddr("10.7.7.7:4242");
		}
	}
	if ((l = the_listener()) == NULL)
		violate("C19", "not listening: %s", w_describe(E));
	if (where == 0 && !saddr_eq(&l->local, &x))
		violate("C19", "listening somewhere else than at \"%s\"", addr);
	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type != F_SOCK || f->creator != E || f->accepted || f->listening || f->ispair)
			continue;
		acc++;
		if (where == 1 && !saddr_eq(&f->remote, &x))
			violate("C19", "connecting to somewhere else than \"%s\"", addr);
		if (where == 2 && (!f->isbound || !saddr_eq(&f->local, &x)))
			violate("C19,C12", "connecting from somewhere else than \"%s\"", addr);
	}
	if (where && !acc)
		violate("C19", "no connection was attempted");
	finish(eps);
}

static void s_cli_addr(void) { cli_addr(0); }
static void s_cli_addr2(void) { cli_addr(1); }

/* ------------------------------------------------------------------ */
/* Key files. */
static uint8_t keybuf[20000];
static size_t keylen;
static int peer_ok, peer_tried;
static void
key_peer(void * a)
{
	struct ref_ep r;
	int s = *(int *)a, l, fd;

	if (s) {		/* we connect to spiped -d */
		a_sleep(0.2);
		if ((fd = a_connect("127.0.0.1:1001")) == -1)
			return;
		ref_init(&r, fd, 0, keybuf, keylen, 5);
	} else {
		l = a_listen("127.0.0.1:3001");
		fd = a_accept(l);
		ref_init(&r, fd, 1, keybuf, keylen, 5);
	}
	r.nopfs = 1;
	peer_tried = 1;
	peer_ok = ref_handshake(&r) == 0;
	a_sleep(0.1);
	a_close(fd);
	if (!s)
		a_sleep(100);
}
static int
keyfilter(struct proc * p, int kind, const char * l)
{
	static const char * const fileops[] = { "open", "fclose", "fread-error", "urandom-read", NULL };
	int i;

	if (kind == K_SHORTR)
		return (!strcmp(l, "file-short") || !strcmp(l, "read-short"));
	if (kind == K_SYSFAIL) {
		for (i = 0; fileops[i]; i++)
			if (!strcmp(l, fileops[i]))
				return (1);
		return (0);
	}
	return (1);
}

static void
s_cli_key(void)
{
	static const int lens[] = { 0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385 };
	int prog = choose_free(3, "program"), kind = choose_free(5, "content"), how = choose_free(7, "file"), i;
	static int isd;
	size_t at = 0;
	struct simfile * sf = NULL;
	struct ep * eps[] = { NULL };
	const char * kf = how == 1 ? "-" : "/key";
	char cmd[200];
	struct chan * c = NULL;

	keylen = lens[choose_free(25, "length")];
	for (i = 0; i < (int)keylen; i++)
		keybuf[i] = kind == 0 ? pat(7, i + 1) : kind == 1 ? 0 : kind == 2 ? (i == (int)keylen - 1 ? '\n' : 'a' + i % 26) :
		    kind == 3 ? 0xff : (i % 3 == 0 ? '\r' : '\n');
	if (how >= 4)
		at = choose_free(3, "error at");
	if (how >= 2 && kind)
		x_leaf();
	if (how == 6 && !keylen)
		x_leaf();
	w_init();
	w_secret(keybuf, keylen);
	if (how == 0 || how >= 4)
		w_file("/key", keybuf, keylen);
	if (how == 3 || how == 5) {
		w_file("/key", "", 0);
		sf = w_lookup("/key");
		sf->isdir = how == 3;
		sf->noperm = how == 5;
	}
	if (how == 4) {
		sf = w_lookup("/key");
		sf->errat = 1 + (at == 0 ? 0 : at == 1 ? keylen / 2 : keylen);
	}
	isd = prog == 1;
	if (prog < 2)
		snprintf(cmd, sizeof(cmd), "spiped %s -s [127.0.0.1]:1001 -t [127.0.0.1]:3001 -k %s -F -f -o 1", prog ? "-d" : "-e", kf);
	else
		snprintf(cmd, sizeof(cmd), "spipe -t [127.0.0.1]:3001 -k %s -f -o 1", kf);
	E = w_spawn(prog < 2 ? "spiped" : "spipe", prog < 2 ? spiped_1_main : spipe_1_main, cmd);
	if (how == 1 || prog == 2) {
		p_installfd(E, 0, mkpipe_r(&c));
		if (how == 1)
			chan_write(c, keybuf, keylen);
		c->wclosed = 1;
	}
	W.chfilter = keyfilter;
	if (prog == 0)
		users[0] = mkclient("user", "127.0.0.1:1001", "ec", 1, 2), users[0]->hdr = -100;
	if (prog == 1)
		TG = mkserver("target", "127.0.0.1:3001", "ec", 2, 1, 8);
	w_actor("peer", key_peer, &isd);
	if (how < 2 && kind == 0)
		X_ENABLE(K_SHORTR);
	if (how == 6)
		X_ENABLE(K_SYSFAIL);
	W.horizon = T0 + 5 * SEC;
	w_run();
	x_outcome(how * 8 + peer_ok * 2 + peer_tried);
	x_sample("%s, %zu bytes, case %d: %s", cmd, keylen, how, peer_ok ? "the peer agrees" : "refused");
	chk_words(E, prog < 2 ? "spiped" : "spipe", 0);
	if (how >= 2 && how != 6) {
		if (!E->exited || E->status != 1 || E->outlen == 0)
			violate("C18", "the key file could not be read, but: %s", w_describe(E));
		if (ever_socket() && (the_listener() || peer_tried))
			violate("C18", "serving without a key");
		finish(eps);
	}
	if (how == 6) {
		/* Some call failed: either it is the right key, or there is no service. */
		if (peer_tried && !peer_ok && !(E->exited && E->status == 1))
			violate("C18,C28", "a failing system call led to a wrong key");
		if (!peer_tried && (!E->exited || E->status == 0) && prog < 2)
			violate("C18,C28", "no service, but: %s", w_describe(E));
		finish(eps);
	}
	if (!peer_tried || !peer_ok)
		violate("C18", "the key is not the SHA-256 of the %zu bytes of the key file: %s", keylen, w_describe(E));
	finish(eps);
}

/* ------------------------------------------------------------------ */
/* Privileges. */
static int accepted_any;
static void
priv_look(struct proc * p, const char * n)
{

	if (!strcmp(n, "accept") && p == E)
		accepted_any = 1;
}

/* What should -u ARG do: 0 refused, 1 done. */
static int
refpriv(const char * a, long * uid, long * gid)
{
	char user[200], * g;
	char * e;

	*uid = *gid = -1;
	strcpy(user, a);
	g = strchr(user, ':');
	if (g)
		*g++ = '\0';
	if (g && *g == '\0')
		return (0);
	if (!g && !*user)
		return (0);
	if (g) {
		if (!strcmp(g, "root")) *gid = 0;
		else if (!strcmp(g, "staff")) *gid = 3001;
		else if (!strcmp(g, "alice")) *gid = 2001;
		else {
			*gid = strtol(g, &e, 10);
			if (*e || *gid < 0 || *gid > 4294967294L || !isdigit((unsigned char)*g))
				return (0);
		}
	}
	if (*user) {
		if (!strcmp(user, "root")) *uid = 0;
		else if (!strcmp(user, "alice")) *uid = 1001;
		else if (!strcmp(user, "bob")) *uid = 1002;
		else {
			*uid = strtol(user, &e, 10);
			if (*e || *uid < 0 || *uid > 4294967294L || !isdigit((unsigned char)*user))
				return (0);
		}
	}
	return (1);
}

static void
s_cli_priv(void)
{
	static const char * us[] = { "alice", "bob", "root", "1001", "4242", ":staff", ":3001", ":77", "alice:staff", "bob:alice", "1002:77", "alice:77", "root:root", "0:0",
	    "", ":", "alice:", "nobody-there", ":no-such-group", "alice:nope", "nope:staff", "4294967295", ":4294967295", "-1", ":-1", "4294967296", ":99999999999",
	    "alice:staff:x", "1001x", "alice ", "18446744073709551615" };
	static const struct { unsigned uid, gid; int ng; unsigned g[4]; } st[] = {
		{ 0, 0, 0, { 0 } }, { 0, 0, 1, { 0 } }, { 0, 0, 3, { 0, 7, 3001 } }, { 1001, 2001, 0, { 0 } }, { 1001, 2001, 1, { 2001 } }, { 1001, 2001, 2, { 2001, 3001 } }, { 0, 5, 4, { 1, 2, 3, 4 } },
	};
	const char * av[] = { "spiped", "-e", "-F", "-R", "-k", "/key", "-s", "[127.0.0.1]:1001", "-t", "[127.0.0.1]:3001", "-u", NULL };
	int iu = choose_free(31, "user"), is = choose_free(7, "start"), want, i;
	struct ep * eps[] = { NULL };
	long uid, gid;
	unsigned wu, wg;

	av[11] = us[iu];
	want = refpriv(us[iu], &uid, &gid);
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	E = w_spawnv("spiped", spiped_1_main, 12, av);
	w_creds(E, st[is].uid, st[is].gid, st[is].ng, st[is].g);
	W.on_syscall = priv_look;
	w_actor("user", addr_user, NULL);
	W.abort_ok = "Failed to allocate memory in getopt";
	X_ENABLE(K_SYSFAIL);
	X_ENABLE(K_ALLOC);
	W.horizon = T0 + 500 * MS;
	w_run();
	x_outcome(E->exited * 64 + iu);
	x_sample("-u %s from uid %u gid %u with %d groups: exit %d", us[iu], st[is].uid, st[is].gid, st[is].ng, E->exited ? E->status : -1);
	chk_words(E, "spiped", 0);
	if (E->exited) {
		if ((E->status != 1 && E->status != 1006) || E->outlen == 0)
			violate("C21,C28", "-u %s: %s", us[iu], w_describe(E));
		if (accepted_any && want && uid > 0 && E->euid != (unsigned)uid)
			violate("C21", "a connection was accepted before privileges were dropped");
		if (want && st[is].uid == 0 && x_bound == 0)
			violate("C21", "-u %s was refused: %s", us[iu], w_describe(E));
		if (!want && accepted_any)
			violate("C21", "connections were accepted in spite of -u %s", us[iu]);
		finish(eps);
	}
	/* Serving. */
	if (!want)
		violate("C21", "serving in spite of -u %s (uid %u gid %u)", us[iu], E->euid, E->egid);
	wu = uid < 0 ? st[is].uid : (unsigned)uid;
	wg = gid < 0 ? st[is].gid : (unsigned)gid;
	if (E->uid != wu || E->euid != wu || E->suid != wu)
		violate("C21", "-u %s: the user ids are %u, %u and %u", us[iu], E->uid, E->euid, E->suid);
	if (E->gid != wg || E->egid != wg || E->sgid != wg)
		violate("C21", "-u %s: the group ids are %u, %u and %u", us[iu], E->gid, E->egid, E->sgid);
	for (i = 0; i < E->ngroups; i++)
		if (E->groups[i] != E->egid && !(E->out && strstr(E->out, "supplementary")))
			violate("C21", "-u %s: still in group %u", us[iu], E->groups[i]);
	if (E->ngroups && st[is].uid == 0 && x_bound == 0)
		violate("C21", "-u %s: still in %d groups", us[iu], E->ngroups);
	finish(eps);
}
static void s_cli_priv0(void) { s_cli_priv(); }

/* ------------------------------------------------------------------ */
/* Daemonizing. */
static struct {
	int D, where, pre, broken, faults, slow, syslog;
	const char * pidfile;
	int par_exit, par_status, lst, pidok, sidok;
	char pids[40];
} DM;

static struct proc *
dm_child(void)
{

	return (w_child(E, 0));
}

/* The pid file holds exactly the daemon's pid. */
static int
dm_pidok(void)
{
	struct simfile * f = w_lookup(DM.pidfile);
	struct proc * c = dm_child();
	char b[40];
	size_t n;

	if (f == NULL || c == NULL || f->isdir)
		return (0);
	n = f->len < 39 ? f->len : 39;
	memcpy(DM.pids, f->data, n);
	DM.pids[n] = '\0';
	snprintf(b, sizeof(b), "%u", c->pid);
	if (n && DM.pids[n - 1] == '\n')
		DM.pids[n - 1] = '\0';
	return (!strcmp(b, DM.pids));
}

static void
dm_exit(struct proc * p)
{
	struct proc * c = dm_child();
	int i;

	if (p != E || DM.par_exit)
		return;
	DM.par_exit = 1;
	DM.par_status = p->status;
	DM.pidok = dm_pidok();
	DM.sidok = c && c->sid == c->pid && c->noctty;
	for (i = 0; i < W.nallfiles; i++)
		if (W.allfiles[i]->type == F_SOCK && W.allfiles[i]->listening && !W.allfiles[i]->closed &&
		    W.allfiles[i]->creator == E)
			DM.lst = 1;
	if (c)
		c->kill_armed = 0;
}

static void
dm_look(struct proc * p, const char * n)
{
	struct proc * c;

	(void)n;
	c = dm_child();
	if (p == c && DM.faults == 2 && !DM.par_exit)
		c->kill_armed = 1;
}

static int
dm_filter(struct proc * p, int kind, const char * l)
{

	if (kind == K_SYSFAIL || kind == K_ALLOC || kind == K_SHORTW) {
		if (DM.par_exit)
			return (0);
		if (DM.faults == 1)
			return (p == E && (kind != K_SYSFAIL || strcmp(l, "urandom-read")));
		if (DM.faults == 2)
			return (p == dm_child());
		return (0);
	}
	return (1);
}

static int
dm_resolve(struct proc * p, const char * h, const char * s, struct saddr * out, int max, uint64_t * delay)
{

	(void)p; (void)h; (void)s; (void)max; (void)delay;
	if (W.now < T0 + 2500 * MS)
		return (-1);
	*out = mkaddr("127.0.0.1:3001");
	return (1);
}

static void
dm_user(void * a)
{
	int fd;

	(void)a;
	a_sleep(4);
	if ((fd = a_connect(DM.where == 1 ? "/run/sock" : "127.0.0.1:1001")) != -1) {
		a_sleep(0.5);
		a_close(fd);
	}
}
static int dm_reached;
static void
dm_target(void * a)
{
	int l = a_listen("127.0.0.1:3001");

	(void)a;
	a_accept(l);
	dm_reached = 1;
	a_sleep(1e6);
}
static void
dm_squat(void * a)
{

	(void)a;
	a_listen("127.0.0.1:1001");
	a_sleep(1e6);
}

static void
daemon_(int faulty)
{
	const char * av[20] = { "spiped", "-e", "-R", "-k", "/key", "-o", "1" };
	int ac = 7;
	struct ep * eps[] = { NULL };
	struct proc * c;
	int want;
	uint64_t lim = T0 + 3 * SEC;

	DM.D = choose_free(2, "-D");
	DM.where = choose_free(4, "where");
	DM.pre = faulty ? choose_free(2, "old pid file") : choose_free(5, "old pid file");
	DM.broken = faulty ? 0 : choose_free(6, "trouble");
	DM.faults = faulty ? 1 + choose_free(2, "whose faults") : 0;
	DM.syslog = faulty ? 0 : choose_free(2, "--syslog");
	w_init();
	w_file("/key", KEYA, strlen(KEYA));
	av[ac++] = "-s";
	av[ac++] = DM.where == 1 ? "/run/sock" : "[127.0.0.1]:1001";
	DM.pidfile = DM.where == 1 ? "/run/sock.pid" : "[127.0.0.1]:1001.pid";
	av[ac++] = "-t";
	av[ac++] = DM.broken == 2 ? "name:3001" : "[127.0.0.1]:3001";
	if (DM.where >= 2) {
		av[ac++] = "-p";
		av[ac++] = DM.pidfile = "/var/x.pid";
	}
	if (DM.where == 3) {
		av[ac++] = "-u";
		av[ac++] = DM.broken == 5 ? "no-such-user" : "alice";
	}
	if (DM.D)
		av[ac++] = "-D";
	if (DM.syslog)
		av[ac++] = "--syslog";
	if (DM.broken == 5 && DM.where != 3)
		x_leaf();
	if (DM.broken == 3 && DM.where == 1)
		x_leaf();
	switch (DM.pre) {
	case 1: w_file(DM.pidfile, "12345678901234567890\nand more\n", 30); break;
	case 2: w_file(DM.pidfile, "", 0); break;
	case 3: w_file(DM.pidfile, "", 0); w_lookup(DM.pidfile)->isdir = 1; break;
	case 4: w_file(DM.pidfile, "1", 1); w_lookup(DM.pidfile)->noperm = 1; break;
	}
	if (DM.broken == 1)
		w_lookup("/key")->noperm = 1;
	if (DM.broken == 4) {
		av[ac++] = "-b";
		av[ac++] = "name:1";
	}
	if (DM.broken == 3)
		w_actor("squatter", dm_squat, NULL);
	E = w_spawnv("spiped", spiped_1_main, ac, av);
	E->on_exit = dm_exit;
	w_delay(E, 10 * MS);
	W.on_syscall = dm_look;
	W.chfilter = dm_filter;
	W.resolve = dm_resolve;
	w_actor("user", dm_user, NULL);
	w_actor("target", dm_target, NULL);
	X_ENABLE(K_SCHED);
	if (faulty) {
		X_ENABLE(K_SYSFAIL);
		X_ENABLE(K_ALLOC);
		X_ENABLE(K_CRASH);
		X_ENABLE(K_EINTR);
		X_ENABLE(K_SHORTW);
		X_ENABLE(K_SHORTR);
	} else {
		X_ENABLE(K_PREEMPT);
		X_ENABLE(K_EINTR);
	}
	W.abort_ok = "Failed to allocate memory in getopt";
	W.horizon = T0 + 6 * SEC;
	w_run();
	c = dm_child();
	x_outcome(DM.D * 512 + DM.par_status * 16 + DM.lst + 2 * DM.pidok + 4 * DM.sidok + 8 * (c && !c->exited));
	x_sample("%s%s old pid file %d trouble %d: parent %d, daemon %s, %s", DM.D ? "-D " : "", DM.pidfile, DM.pre, DM.broken,
	    DM.par_status, c ? c->exited ? "gone" : "running" : "none", dm_reached ? "serving" : "not serving");
	if (!DM.par_exit)
		violate("C20", "the parent hangs: %s", w_describe(E));
	if (E->t_exit > lim)
		violate("C20", "the parent waited until %.1f s", (E->t_exit - T0) / 1e9);
	if (DM.par_status == 0) {
		if (c == NULL)
			violate("C20", "success without a daemon");
		if (!DM.pidok)
			violate("C20", "the parent reported success, but the pid file %s holds \"%s\", and the pid is %u", DM.pidfile, DM.pids, c->pid);
		if (!DM.sidok)
			violate("C20", "the parent reported success, but the daemon has session %u and%s a terminal", c->sid, c->noctty ? " not" : "");
		if (!DM.D && !DM.lst)
			violate("C20", "the parent reported success before the socket was listening");
		if (DM.pre >= 3 || (!DM.D && (DM.broken && DM.broken != 5)))
			violate("C20", "the parent reported success in spite of the trouble (%d, %d)", DM.pre, DM.broken);
	} else {
		if (DM.par_status >= 1000 && DM.par_status != 1006)
			violate("C20,C28", "the parent died: %s", w_describe(E));
		if (E->outlen == 0 && (c == NULL || c->outlen == 0))
			violate("C20,C22,C33", "failure without a word: %s", w_describe(E));
		if (DM.faults != 1 && c && !c->exited)
			violate("C20", "the parent reported failure, but the daemon runs: %s", w_describe(E));
	}
	/* The messages: from success on in syslog, if so wanted. */
	chk_words(E, "spiped", 0);
	chk_words(c, "spiped", DM.syslog && DM.par_status == 0);
	if (!faulty) {
		want = DM.pre >= 3 || (!DM.D && DM.broken && DM.broken != 5);
		if (DM.par_status != want)
			violate("C20", "the parent exited with status %d instead of %d: %s", DM.par_status, want, w_describe(E));
		/* The daemon itself. */
		if (!want) {
			int dead = DM.broken == 5 || (DM.D && (DM.broken == 1 || DM.broken == 3));

			if (!dm_pidok())
				violate("C20", "the pid file is not as it was when success was reported");
			if (dead ? !c->exited : c->exited)
				violate("C20,C21", "the daemon: %s", w_describe(c));
			if (dead && c->outlen == 0)
				violate("C33", "the daemon ends without a word");
			if (dead ? dm_reached : !dm_reached)
				violate("C20,C21", "the daemon is %sserving: %s", dead ? "" : "not ", w_describe(c));
			if (!dead && DM.where == 3 && (c->euid != 1001 || c->egid != 0))
				violate("C21", "the daemon is still uid %u gid %u", c->euid, c->egid);
		}
	}
	finish(eps);
}
static void s_daemon(void) { daemon_(0); }
static void s_daemonf(void) { daemon_(1); }

static const struct x_scenario scens[] = {
	{ "cli_opts", s_cli_opts, 0, 0, "C22" },
	{ "cli_spipe", s_cli_spipe, 0, 0, "C22" },
	{ "cli_addr", s_cli_addr, 0, 0, "C19,C33" },
	{ "cli_addr2", s_cli_addr2, 0, 0, "C19" },
	{ "cli_key", s_cli_key, 1, 2, "C18,C33,C34" },
	{ "cli_priv0", s_cli_priv0, 0, 0, "C21,C33" },
	{ "cli_priv", s_cli_priv, 1, 2, "C21,C33" },
	{ "daemon", s_daemon, 2, 3, "C20,C33" },
	{ "daemonf", s_daemonf, 2, 3, "C20,C28,C33" },
	{ NULL }
};

int
main(int argc, char ** argv)
{

	return (x_main(argc, argv, scens));
}
