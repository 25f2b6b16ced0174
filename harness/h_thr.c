/* Threads: starting them, copying between descriptors, resolving in the background. */
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "dnsthread.h"
#include "events.h"
#include "pthread_create_blocking_np.h"
#include "pushbits.h"
#include "sock.h"
#include "sock_util.h"
#include "explore.h"
#include "sim.h"

static int bang(void) { return (w_cur()->oom || w_sysfailed()); }

static void
ms(int n)
{
	struct timespec ts = { n / 1000, n % 1000 * 1000000L };

	nanosleep(&ts, NULL);
}

static struct thr * thr_of(pthread_t h) { return (&W.thrs[(unsigned long)h - 1000]); }
static int
nlive(void)
{
	int i, n = 0;

	for (i = 0; i < W.nthr; i++)
		n += W.thrs[i].p == w_cur() && W.thrs[i].state != 0 && W.thrs[i].state != 3;
	return (n);
}
static int
nunjoined(void)
{
	int i, n = 0;

	for (i = 0; i < W.nthr; i++)
		n += W.thrs[i].p == w_cur() && W.thrs[i].state != 0 && W.thrs[i].fn != NULL && !W.thrs[i].joined && !W.thrs[i].detached;
	return (n);
}

/* --- starting threads --- */
#define TC "C27"
static struct tt {
	int kind, sub, ran, ret, pfd[2];
	pthread_t h;
} tts[8];
static void * tfn(void *);

static int
start(struct tt * t)
{
	int rc;

	t->ran = 0;
	w_user(1);
	rc = pthread_create_blocking_np(&t->h, NULL, tfn, t);
	w_user(-1);
	if (rc == 0) {
		if (!thr_of(t->h)->ran)
			violate(TC, "pthread_create_blocking_np is back before the thread runs");
	} else if (!bang())
		violate(TC, "pthread_create_blocking_np fails without a reason: %s", strerror(rc));
	else if (rc != ENOMEM && rc != EAGAIN)
		violate(TC, "pthread_create_blocking_np does not say why it fails: %d", rc);
	return (rc);
}
static void
end(struct tt * t, int cancel)
{
	void * r = NULL;
	int rc;

	if (cancel && (rc = pthread_cancel(t->h)) != 0 && rc != ESRCH)
		violate(TC, "the new thread can not be cancelled: %s", strerror(rc));
	if ((rc = pthread_join(t->h, &r)) != 0)
		violate(TC, "the new thread can not be joined: %s", strerror(rc));
	if (r != PTHREAD_CANCELED || !cancel) {
		if (t->ran != 1)
			violate(TC, "the function of the new thread ran %d times", t->ran);
		if (r != &t->ret)
			violate(TC, "the value the thread returned is lost");
	} else if (t->ran > 1)
		violate(TC, "the function of the new thread ran %d times", t->ran);
}
static void *
tfn(void * c)
{
	struct tt * t = c;

	if (t < tts || t >= tts + 8 || t->kind < 0)
		violate(TC, "the new thread gets another argument");
	t->ran++;
	if (t->kind == 1)
		ms(5);
	if (t->kind == 2)
		pthread_exit(&t->ret);
	if (t->kind == 3) {
		/* Start one of our own. */
		struct tt * u = t + 4;

		u->kind = t->sub;
		if (start(u) == 0)
			end(u, 0);
	}
	return (&t->ret);
}
static void
create(int n, int rounds)
{
	int i, r, rc[4], c[4];
	long base;

	for (i = 0; i < 8; i++)
		tts[i].kind = -1;
	for (r = 0; r < rounds; r++) {
		base = w_cur()->heap_blocks;
		for (i = 0; i < n; i++) {
			tts[i].kind = choose_free(4, "what the thread does");
			tts[i].sub = 0;
			c[i] = tts[i].kind != 3 && choose_free(2, "cancel it");
			rc[i] = start(&tts[i]);
		}
		for (i = 0; i < n; i++)
			if (rc[i] == 0)
				end(&tts[i], c[i]);
		if (nlive() != 1 || nunjoined())
			violate(TC, "%d threads are left", nlive() - 1);
		for (i = 0; i < n; i++)
			if (rc[i] && tts[i].ran)
				violate(TC, "starting a thread failed, but it ran");
		if (w_cur()->heap_blocks != base)
			violate(TC, "starting threads leaves %ld blocks of memory", w_cur()->heap_blocks - base);
	}
}

/* --- copying --- */
static void
push(int in, int out, int in2, int out2, int cancel_at)
{
	pthread_t t[2];
	int fds[4] = { in, out, in2, out2 }, n = in2 < 0 ? 1 : 2, i, rc, ok[2];
	struct sfile * f[4];
	long base = w_cur()->heap_blocks;

	signal(SIGPIPE, SIG_IGN);
	for (i = 0; i < 2 * n; i++)
		f[i] = w_cur()->fds[fds[i]];
	for (i = 0; i < n; i++) {
		w_user(1);
		rc = pushbits(fds[2 * i], fds[2 * i + 1], &t[i]);
		w_user(-1);
		ok[i] = rc == 0;
		if (rc && !bang())
			violate(TC, "pushbits fails without a reason");
		if (rc != 0 && rc != -1)
			violate(TC, "pushbits returns %d", rc);
	}
	if (cancel_at >= 0) {
		ms(cancel_at);
		for (i = 0; i < n; i++)
			if (ok[i] && (rc = pthread_cancel(t[i])) != 0 && rc != ESRCH)
				violate(TC, "the thread can not be cancelled: %s", strerror(rc));
	}
	for (i = 0; i < n; i++)
		if (ok[i] && (rc = pthread_join(t[i], NULL)) != 0)
			violate(TC, "the thread can not be joined: %s", strerror(rc));
	for (i = 0; i < 2 * n; i++)
		if (w_cur()->fds[fds[i]] != f[i])
			violate(TC, "the thread closed a descriptor it does not own");
	for (i = 0; i < n; i++) {
		struct sfile * o = w_cur()->fds[fds[2 * i + 1]];

		/* A thread cancelled at its start can not do anything. */
		if (ok[i] && o->type == F_SOCK && !o->shut_wr && !o->reset && thr_of(t[i])->cancelled == 0)
			violate(TC, "the output was not shut down at the end");
		if (!ok[i] && o->type == F_SOCK && o->shut_wr)
			violate(TC, "the output was shut down by a thread that never was");
	}
	if (w_cur()->heap_blocks != base)
		violate(TC, "copying leaves %ld blocks of memory", w_cur()->heap_blocks - base);
	if (nlive() != 1 || nunjoined())
		violate(TC, "%d threads are left", nlive() - 1);
	w_user2(!ok[0] || (n == 2 && !ok[1]));
}

/* --- resolving --- */
#define TD "C30"
static struct rq {
	int used, host, live, who;
} rqs[16];
static int dthr, nrq, incb, budget, running, fatal, refused;
static DNSTHREAD dt;
static struct rq * pending;
static int noneleft(void);
static void act(void);

static struct rq *
newrq(int who)
{
	struct rq * q = &rqs[nrq++];

	q->host = choose_free(2, "host");
	q->live = 1;
	q->who = who;
	return (q);
}
static int
cb_res(void * c, struct sock_addr ** sas)
{
	struct rq * q = c;
	char * s;
	int e = errno;

	if (q < rqs || q >= rqs + nrq)
		violate(TD, "the callback gets another cookie");
	if (!running || incb)
		violate(TD, "the callback is called outside of the loop");
	x_trace_note("callback for request %d: %d", (int)(q - rqs), sas != NULL);
	if (!q->live)
		violate(TD, "the callback is called twice, or for a cancelled request");
	q->live = 0;
	if (pending == q)
		pending = NULL;
	if (sas == NULL) {
		if (q->host == 0 && !bang())
			violate(TD, "the resolution failed without a reason");
		(void)e;
	} else {
		if (q->host)
			violate(TD, "a name which does not exist was resolved");
		if (sas[0] == NULL || sas[1] == NULL || sas[2] != NULL)
			violate(TD, "not the addresses which the name has");
		if ((s = sock_addr_prettyprint(sas[0])) != NULL) {
			char want[40];

			snprintf(want, sizeof(want), "[10.0.%d.1]:80", (int)(q - rqs));
			if (strcmp(s, want))
				violate(TD, "%s instead of %s", s, want);
			free(s);
		}
		sock_addr_freelist(sas);
	}
	incb = 1;
	act();
	incb = 0;
	return (choose_free(2, "callback fails") && incb >= 0 && budget >= 0 ? (fatal = 1, 5) : 0);
}
static void
resolveone(void)
{
	struct rq * q = newrq(0);
	char name[40];
	int rc;

	snprintf(name, sizeof(name), "h%d%s:80", (int)(q - rqs), q->host ? "bad" : "");
	errno = 0;
	w_user(1);
	rc = dnsthread_resolveone(dt, name, cb_res, q);
	w_user(-1);
	memset(name, 'x', sizeof(name));
	if (pending) {
		q->live = 0;
		if (errno != EALREADY && !bang())
			violate(TD, "a busy resolver does not refuse another name (it gives %d)", rc);
		refused++;
	} else if (rc) {
		q->live = 0;
		if (!bang())
			violate(TD, "dnsthread_resolveone fails without a reason");
	} else if (errno == EALREADY)
		violate(TD, "an idle resolver says it is busy");
	else
		pending = q;
}
static void
resolve(void)
{
	struct rq * q = newrq(1);
	char name[40];

	snprintf(name, sizeof(name), "h%d%s:80", (int)(q - rqs), q->host ? "bad" : "");
	w_user(1);
	if (dnsthread_resolve(name, cb_res, q)) {
		q->live = 0;
		if (!bang())
			violate(TD, "dnsthread_resolve fails without a reason");
	}
	w_user(-1);
	memset(name, 'x', sizeof(name));
}
static void
dkill(void)
{
	struct rq * p = pending;

	w_user(1);
	if (dnsthread_kill(dt) && !bang())
		violate(TD, "dnsthread_kill fails without a reason");
	w_user(-1);
	if (p == NULL && dthr >= 0 && W.thrs[dthr].state != 3)
		violate(TD, "dnsthread_kill is back before the idle thread has ended");
	dt = NULL;
	if (p)
		p->live = 0;
	pending = NULL;
}
static void
dspawn(void)
{
	int i, was[SIM_NTHR];

	for (i = 0; i < SIM_NTHR; i++)
		was[i] = W.thrs[i].p == w_cur() && W.thrs[i].state != 0;
	w_user(1);
	dt = dnsthread_spawn();
	w_user(-1);
	for (i = 0, dthr = -1; i < SIM_NTHR; i++)
		if (W.thrs[i].p == w_cur() && W.thrs[i].state != 0 && !was[i])
			dthr = i;
}
static void
act(void)
{
	int k;

	while (budget > 0) {
		budget--;
		k = choose_free(incb ? 5 : 6, "operation");
		switch (k) {
		case 0:
			budget = incb ? budget : 0;
			return;
		case 1:
			if (dt == NULL) {
				dspawn();
				if (dt == NULL && !bang())
					violate(TD, "dnsthread_spawn fails without a reason");
			} else
				resolveone();
			break;
		case 2:
			if (dt)
				dkill();
			break;
		case 3:
			if (nrq < 4)
				resolve();
			break;
		case 4:
			ms(3);
			break;
		case 5:
			if (noneleft())
				break;
			running = 1;
			w_user(1);
			if (events_run() && !fatal && !bang())
				violate(TD, "the event loop fails without a reason");
			w_user(-1);
			running = 0;
			fatal = 0;
			break;
		}
	}
}
static int
noneleft(void)
{
	int i, n = 0;

	for (i = 0; i < nrq; i++)
		n += rqs[i].live;
	return (n == 0);
}
static int
zero(void * c, struct sock_addr ** sas)
{

	(void)c;
	sock_addr_freelist(sas);
	return (0);
}
static void
dns(int n)
{
	long base;
	int i;

	/* What the event loop keeps. */
	dnsthread_resolve("h0:80", zero, NULL);
	dnsthread_resolve("h0:80", zero, NULL);
	dnsthread_resolve("h0:80", zero, NULL);
	dnsthread_resolve("h0:80", zero, NULL);
	while (nlive() > 1)
		events_run();
	base = w_cur()->heap_blocks;
	for (i = 3; w_cur()->fds[i]; i++)
		;
	w_user2(1);
	budget = n;
	act();
	budget = -1;
	/* To the end. */
	while (!noneleft()) {
		running = 1;
		w_user(1);
		if (events_run() && !fatal && !bang())
			violate(TD, "the event loop fails without a reason");
		w_user(-1);
		running = 0;
		if (bang() && choose_free(1, "give up") == 0) {
			ms(100);
			break;
		}
	}
	if (dt)
		dkill();
	ms(100);
	if (bang())
		return;
	if (!noneleft())
		violate(TD, "a callback never came");
	if (nlive() != 1)
		violate(TD, "%d resolver threads are left", nlive() - 1);
	if (w_cur()->heap_blocks != base)
		violate(TD, "resolving leaves %ld blocks of memory", w_cur()->heap_blocks - base);
	if (w_cur()->fds[i])
		violate(TD, "resolving leaves descriptors open");
	if (w_cur()->ai_live)
		violate(TD, "resolving leaves results of getaddrinfo");
}

int
main(int argc, char ** argv)
{

	if (!strcmp(argv[1], "create"))
		create(atoi(argv[2]), atoi(argv[3]));
	else if (!strcmp(argv[1], "push"))
		push(argc > 3 ? atoi(argv[3]) : 3, argc > 4 ? atoi(argv[4]) : 4, -1, -1, atoi(argv[2]));
	else if (!strcmp(argv[1], "push2"))
		push(3, 5, 5, 4, atoi(argv[2]));
	else if (!strcmp(argv[1], "dns"))
		dns(atoi(argv[2]));
	exit(0);
}
