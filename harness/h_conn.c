/* Asynchronous connects and accepts, against what really happened to the sockets. */
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "events.h"
#include "network.h"
#include "sock.h"
#include "explore.h"
#include "sim.h"

#define T "C31"
#define MS 1000000ULL
static int oom(void) { return (w_cur()->oom); }
static int
nfds(void)
{
	int i, n = 0;

	for (i = 0; i < SIM_NFD; i++)
		n += w_cur()->fds[i] != NULL;
	return (n);
}
static int running, fatal, retval;
static void
runloop(void)
{
	int rc;

	running = 1;
	W.user = 1;
	rc = events_run();
	W.user = 0;
	running = 0;
	if (rc == -1 && oom())
		fatal = 1;
	else if (rc != retval)
		violate(T, "events_run() returns %d instead of %d", rc, retval);
	retval = 0;
}

/* --- connects --- */
#define NA 3
static const int pols[] = { CP_ASYNC_OK, CP_REFUSE_ASYNC, CP_REFUSE_SYNC, CP_BLACKHOLE, CP_SLOW_OK, CP_SLOW_REFUSE, CP_IMMEDIATE };
static const uint64_t timeos[] = { 0, 0, 400 * MS, 2500 * MS };
enum { V_PLAIN, V_BIND, V_SHORT, V_LONG };
static const char * const names[2][NA] = { { "[10.0.0.1]:80", "[10.0.0.2]:80", "/s3" }, { "[10.0.1.1]:80", "[10.0.1.2]:80", "[fd00::5]:7" } };
static const char * const raw[2][NA] = { { "10.0.0.1:80", "10.0.0.2:80", "/s3" }, { "10.0.1.1:80", "10.0.1.2:80", "[fd00::5]:7" } };
static struct conn {
	int id, n, var, live, done, next;
	int pol[NA];
	struct sock_addr ** l[NA];
	struct sock_addr * sas[NA + 1];
	struct saddr a[NA];
	uint64_t due;			/* when the next address may be tried */
	int expect;			/* index of the address which will work, or -1 */
	uint64_t tdone;
	int last, inlast;
	void * cookie;
} C[2];
static struct sock_addr ** bindto;
static int base, again, canat, nruns, checktime;
static void start(struct conn *);

/* Someone connects: was it its turn? */
static int
policy(struct proc * p, const struct saddr * a, uint64_t * delay)
{
	struct conn * c;
	struct saddr b;
	int i, k, live = 0;
	(void)p;

	for (k = 0; k < 2; k++)
		for (i = 0; i < C[k].n; i++) {
			b = C[k].a[i];
			if (b.len == a->len && memcmp(b.b, a->b, a->len) == 0)
				goto found;
		}
	violate(T, "connecting to an address which is not in the list");
	return (CP_REFUSE_SYNC);
found:
	c = &C[k];
	x_trace_note("connection %d tries address %d at %llu ms", k, i, (unsigned long long)(W.now / MS));
	if (!c->live)
		violate(T, "connecting after the end of the attempt");
	if (i < c->next)
		violate(T, "address %d is tried twice or out of order", i);
	else if (i > c->next && !w_sysfailed())
		violate(T, "address %d is left out", c->next);
	/* Its time has come: the ones before have failed or timed out. */
	if (i > 0 && checktime && W.now < c->due)
		violate(T, "address %d is tried before the one before it has failed", i);
	if (i > 0 && checktime && W.now > c->due + 2 * MS)
		violate(T, "address %d is tried %llu ms late", i, (unsigned long long)((W.now - c->due) / MS));
	c->next = i + 1;
	for (k = 0; k < 2; k++)
		live += C[k].live;
	if (nfds() > base + live)
		violate(T, "the socket of an earlier address is still open");
	*delay = SEC;
	c->due = W.now;
	if (c->pol[i] == CP_BLACKHOLE || c->pol[i] == CP_SLOW_REFUSE || c->pol[i] == CP_SLOW_OK) {
		uint64_t t = timeos[c->var];

		if (c->pol[i] != CP_BLACKHOLE && (t == 0 || t > SEC))
			t = SEC;
		c->due = t ? W.now + t : UINT64_MAX;
	}
	c->inlast = 0;
	if (c->pol[i] == CP_ASYNC_OK || c->pol[i] == CP_IMMEDIATE || (c->pol[i] == CP_SLOW_OK && timeos[c->var] != 400 * MS))
		c->inlast = 1;		/* this one works, at c->due */
	c->last = i;
	return (c->pol[i]);
}
static int
cb(void * v, int s)
{
	struct conn * c = v;
	struct sfile * f;
	struct saddr b;

	x_trace_note("connection %d: callback(%d) at %llu ms", c->id, s, (unsigned long long)(W.now / MS));
	if (!c->live)
		violate(T, "the connect callback is called %s", c->done ? "twice" : "after the cancellation");
	if (!running && !oom())
		violate(T, "the connect callback is called outside of the loop");
	c->live = 0;
	c->done = 1;
	c->tdone = W.now;
	c->cookie = NULL;
	if (s == -1) {
		if (oom())
			return (0);
		if (!w_sysfailed()) {
			if (c->next != c->n)
				violate(T, "an attempt gives up before its last address");
			if (c->n && c->inlast)
				violate(T, "an attempt gives up although address %d works", c->last);
		}
		if (c->next == c->n && c->n && checktime && (W.now < c->due || W.now > c->due + 2 * MS))
			violate(T, "an attempt gives up at the wrong time");
	} else {
		f = s >= 0 && s < SIM_NFD ? w_cur()->fds[s] : NULL;
		if (f == NULL) {
			violate(T, "the connect callback gets %d, which is not a descriptor", s);
			return (0);
		}
		if (f->state != 2)
			violate(T, "the connect callback gets a socket which is not connected");
		if (c->next == 0)
			violate(T, "the connect callback gets a socket although none was connected");
		else {
			b = c->a[c->last];
			if (b.len != f->remote.len || memcmp(b.b, f->remote.b, b.len))
				violate(T, "the connect callback gets a connection to another address");
			if (!c->inlast)
				violate(T, "an address which does not work is connected");
		}
		if (!f->nonblock)
			violate(T, "the connected socket blocks");
		if (checktime && W.now > c->due + 2 * MS)
			violate(T, "a connection is reported %llu ms late", (unsigned long long)((W.now - c->due) / MS));
		if (c->var == V_BIND) {
			b = mkaddr("10.0.0.9:0");
			if (!f->isbound || f->local.len != b.len || memcmp(f->local.b, b.b, b.len))
				violate(T, "the connected socket is not bound to the address which was asked for");
		} else if (f->isbound)
			violate(T, "the connected socket is bound");
		W.user = 0;
		close(s);
		W.user = 1;
	}
	if (c->id == 0 && again == 2 && !fatal) {
		start(&C[1]);
		W.user = 1;
	}
	if (retval == 0 && c->id == 0 && choose_free(2, "the callback returns"))
		retval = 7;
	return (c->id == 0 ? retval : 0);
}
static void
start(struct conn * c)
{
	struct timeval tv;
	int r = running;

	tv.tv_sec = timeos[c->var] / SEC;
	tv.tv_usec = timeos[c->var] % SEC / 1000;
	c->live = 1;
	c->due = W.now;
	x_trace_note("connection %d starts", c->id);
	running = 0;
	W.user = 1;
	switch (c->var) {
	case V_PLAIN: c->cookie = network_connect(c->sas, cb, c); break;
	case V_BIND: c->cookie = network_connect_bind(c->sas, bindto[0], cb, c); break;
	default:
		c->cookie = network_connect_timeo(c->sas, &tv, cb, c);
		/* It is not needed any more. */
		memset(&tv, 0xEE, sizeof(tv));
	}
	W.user = 0;
	running = r;
	if (c->cookie == NULL) {
		if (!oom())
			violate(T, "network_connect fails without a reason");
		c->live = 0;
		fatal = 1;
	}
}
static void
cancel(struct conn * c)
{
	int n = nfds();

	x_trace_note("connection %d is cancelled", c->id);
	W.user = 1;
	network_connect_cancel(c->cookie);
	W.user = 0;
	c->cookie = NULL;
	c->live = 0;
	if (nfds() > n)
		violate(T, "cancelling opens a descriptor");
}
static int
tick(void * v)
{
	int * w = v;

	*w = 1;
	if (C[0].live && canat >= 5) {
		cancel(&C[0]);
		W.user = 1;
	}
	return (0);
}
static int
guard(void * v)
{

	*(int *)v = 1;
	return (0);
}
/* A signal handler interrupts the loop at some point. */
static int intrat, intred;
static void
interrupting(struct proc * p, const char * name)
{

	(void)p; (void)name;
	if (W.user && running && intrat && --intrat == 0) {
		x_trace_note("the loop is interrupted");
		events_interrupt();
		intred = 1;
	}
}
static int
listener(const struct saddr * a)
{
	int s = socket(((const struct sockaddr *)a->b)->sa_family, SOCK_STREAM, 0);

	if (s == -1 || bind(s, (const void *)a->b, a->len) || listen(s, 10))
		machine_error("listener");
	fcntl(s, F_SETFL, O_NONBLOCK);
	return (s);
}
static int
connects(int nmax, int few)
{
	static const int fewat[] = { 0, 1, 2, 6 };
	static const double at[] = { 0, 0, 0, 0, 0, 0.2, 0.7, 1.7, 0 };
	int i, k, g = 0, tk = 0;
	void * gc, * tc = NULL;

	W.user = 0;
	C[0].n = choose_free(nmax + 1, "addresses");
	C[0].var = choose_free(4, "variant");
	for (i = 0; i < C[0].n; i++)
		C[0].pol[i] = pols[choose_free(7, "outcome")];
	canat = few ? fewat[choose_free(4, "cancel")] : choose_free(9, "cancel");
	if (canat == 8) {
		intrat = 1 + choose_free(12, "interrupted at");
		W.on_syscall = interrupting;
	}
	again = canat == 8 ? 0 : few ? 2 * choose_free(2, "second connection") : choose_free(3, "second connection");
	C[1].id = 1;
	C[1].n = again ? 2 : 0;
	C[1].var = V_LONG;
	C[1].pol[0] = CP_REFUSE_ASYNC;
	C[1].pol[1] = CP_SLOW_OK;
	for (k = 0; k < 2; k++)
		for (i = 0; i < C[k].n; i++) {
			C[k].l[i] = sock_resolve(k == 0 && i == 2 && C[0].var == V_BIND ? "[10.0.0.3]:80" : names[k][i]);
			if (C[k].l[i] == NULL)
				machine_error("sock_resolve");
			C[k].sas[i] = C[k].l[i][0];
			C[k].a[i] = mkaddr(k == 0 && i == 2 && C[0].var == V_BIND ? "10.0.0.3:80" : raw[k][i]);
			listener(&C[k].a[i]);
		}
	if ((bindto = sock_resolve("[10.0.0.9]:0")) == NULL)
		machine_error("sock_resolve");
	W.connect_policy = policy;
	base = nfds();
	checktime = 1;
	if ((gc = events_timer_register_double(guard, &g, 20.0)) == NULL)
		machine_error("timer");
	if (canat >= 5 && canat < 8 && (tc = events_timer_register_double(tick, &tk, at[canat])) == NULL)
		machine_error("timer");

	start(&C[0]);
	if (again == 1 && !fatal)
		start(&C[1]);
	if (C[0].live && canat == 1)
		cancel(&C[0]);
	/* Everything which can end does so before the guard. */
	while (!g && !fatal) {
		runloop();
		nruns++;
		if (C[0].live && canat >= 2 && canat <= 4 && nruns == canat - 1)
			cancel(&C[0]);
		if (C[0].live && intred)
			cancel(&C[0]);
	}
	if (fatal)
		for (k = 0; k < 2; k++)
			C[k].live = C[k].live && C[k].cookie != NULL;
	for (k = 0; k < 2; k++)
		if (C[k].live) {
			if (!fatal && (timeos[C[k].var] || C[k].next == 0 || C[k].pol[C[k].last] != CP_BLACKHOLE))
				violate(T, "a connection attempt never ends");
			/* (A fatal error in the loop may have come at any point: only the cookies given out and not used are ours.) */
			if (!fatal)
				cancel(&C[k]);
		}
	if (!fatal && nfds() != base)
		violate(T, "%d descriptors are left open", nfds() - base);
	if (!fatal && again && !C[1].done && !(again == 2 && !C[0].done))
		violate(T, "the other connection never ends");
	x_outcome(((((uint64_t)C[0].done * 8 + C[0].last) * 8 + C[0].next) * 2 + fatal) * 1000003 + C[0].tdone / MS);
	if (fatal)
		exit(0);
	if (!g)
		events_timer_cancel(gc);
	if (tc && !tk)
		events_timer_cancel(tc);
	for (k = 0; k < 2; k++)
		for (i = 0; i < C[k].n; i++)
			sock_addr_freelist(C[k].l[i]);
	sock_addr_freelist(bindto);
	for (i = 0; i < SIM_NFD; i++)
		for (k = 0; k < 2; k++) {
			if (w_cur()->fds[i] == NULL)
				continue;
			if (events_network_cancel(i, k ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ) == 0)
				violate(T, "descriptor %d is still registered", i);
		}
	events_shutdown();
	exit(0);
}

/* --- accepts --- */
#define MAXC 12
static int lfd, budget, incb, nc, ncalled, sawerr;
static int cfd[MAXC];
static struct sfile * cf[MAXC];
static void * acookie;
static void act(void);

/* The next connection to be handed over. */
static int
nextclient(void)
{
	int i;

	for (i = 0; i < nc; i++)
		if (!cf[i]->reset && !cf[i]->peer->accepted)
			break;
	return (i);
}
static int
naccepted(void)
{
	int i, n = 0;

	for (i = 0; i < nc; i++)
		n += cf[i]->peer->accepted;
	return (n);
}
/* Accepts which failed for good. */
static int
nfailed(void)
{
	int i, n = w_sysfailed();

	for (i = 0; i < nc; i++)
		n -= cf[i]->reset && !cf[i]->peer->aborted;
	return (n);
}
static int queued(void) { return (w_cur()->fds[lfd]->nbacklog); }
static int
acb(void * v, int s)
{
	int i;

	x_trace_note("accept callback: %d", s);
	if (v != &acookie)
		violate(T, "the accept callback gets another cookie");
	if (acookie == NULL)
		violate(T, "the accept callback is called without being asked for");
	if (!running)
		violate(T, "the accept callback is called outside of the loop");
	W.user = 0;
	acookie = NULL;
	if (s == -1) {
		sawerr++;
		if (sawerr > nfailed() && !oom())
			violate(T, "an accept reports an error although there was none");
	} else {
		struct sfile * f = s >= 0 && s < SIM_NFD ? w_cur()->fds[s] : NULL;

		ncalled++;
		if (f == NULL || f->peer == NULL || !f->accepted)
			violate(T, "an accept hands over %d, which is not an accepted connection", s);
		else {
			for (i = 0; i < nc && cf[i] != f->peer; i++)
				;
			if (i == nc)
				violate(T, "an accept hands over a connection from nobody");
			if (nextclient() < i)
				violate(T, "connections are handed over out of order");
			close(s);
		}
	}
	incb = 1;
	act();
	incb = 0;
	W.user = 1;
	return (retval);
}
static void
client(void)
{
	struct saddr b = mkaddr("10.0.0.1:80");

	if (nc == MAXC)
		x_leaf();
	W.user = 0;
	cfd[nc] = socket(AF_INET, SOCK_STREAM, 0);
	fcntl(cfd[nc], F_SETFL, O_NONBLOCK);
	connect(cfd[nc], (const void *)b.b, b.len);
	cf[nc] = w_cur()->fds[cfd[nc]];
	if (cf[nc]->state != 2)
		machine_error("client");
	nc++;
}
static void
aloop(void)
{
	int e = nfailed(), s = sawerr;

	runloop();
	if (nfailed() != e && sawerr == s && !fatal)
		violate(T, "a failing accept is not reported");
	if (naccepted() != ncalled)
		violate(T, "%d connections were accepted, %d handed over", naccepted(), ncalled);
}
static void
act(void)
{
	int n;

	W.user = 0;
	while (budget > 0 && !fatal) {
		budget--;
		switch (choose_free(7, "operation")) {
		case 0:
			budget = incb ? budget : 0;
			return;
		case 1:
			if (acookie)
				x_leaf();
			W.user = 1;
			running = 0;
			acookie = network_accept(lfd, acb, &acookie);
			running = incb;
			W.user = 0;
			if (acookie == NULL) {
				if (!oom())
					violate(T, "network_accept fails without a reason");
				fatal = 1;
			}
			break;
		case 2:
			if (!acookie)
				x_leaf();
			n = queued();
			W.user = 1;
			network_accept_cancel(acookie);
			W.user = 0;
			acookie = NULL;
			if (queued() != n)
				violate(T, "cancelling an accept takes a connection");
			break;
		case 3:
			client();
			break;
		case 4:
			if (incb || !acookie || !queued())
				x_leaf();
			aloop();
			break;
		case 6:
			/* This one is gone before it is accepted. */
			client();
			cf[nc - 1]->peer->aborted = 1;
			break;
		case 5:
			if (!incb || retval)
				x_leaf();
			retval = 5;
			break;
		}
	}
}
static int
accepts(int n)
{
	struct saddr a = mkaddr("10.0.0.1:80");
	int i;

	W.user = 0;
	budget = n;
	lfd = listener(&a);
	base = nfds();
	act();
	if (fatal)
		exit(0);
	budget = 0;
	x_enabled = 0;
	for (i = 0; acookie; i++) {
		if (i > 12)
			violate(T, "an accept does not complete");
		if (!queued())
			client();
		aloop();
		if (fatal)
			exit(0);
	}
	if (nfds() != base + nc)
		violate(T, "%d descriptors are left open", nfds() - base - nc);
	if (events_network_cancel(lfd, EVENTS_NETWORK_OP_READ) == 0)
		violate(T, "the listening socket is still registered");
	x_outcome((((uint64_t)ncalled * 16 + sawerr) * 16 + nc) * 16 + queued());
	events_shutdown();
	exit(0);
}

int
main(int argc, char ** argv)
{
	int n = atoi(argv[2]);

	if (strcmp(argv[1], "co") == 0)
		return (connects(n, argc > 3));
	return (accepts(n));
}
