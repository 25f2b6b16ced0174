/* Every sequence of operations on the event loop, against a model of it. */
#include <sys/socket.h>
#include <sys/time.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "events.h"
#include "explore.h"
#include "sim.h"

static int NF = 3, NP = 3, NT = 4;
#define MAXF 3
#define MAXE 64
enum { IMM, NET, TMR };
struct ev {
	int type, live, id, ran;
	int prio;
	int fd, op;		/* index of fd */
	uint64_t due, len;
	void * cookie;
	uint64_t since;		/* run number from which on it has been due */
};
static struct ev evs[MAXE];
static int nev;
static int fds[MAXF], peers[MAXF], nread[MAXF];
static int budget, incb, runno, ranthis, stopped, intr, retval_next, fatal;
static int sig_at;
static int heavy;

static uint64_t
now(void)
{
	struct timespec ts;

	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (ts.tv_sec * 1000000000ULL + ts.tv_nsec / 1000 * 1000);
}
static int
oom(void)
{

	return (w_cur()->oom);
}

static int
ready(struct ev * e)
{

	return (e->type == NET && (e->op == EVENTS_NETWORK_OP_WRITE || nread[e->fd] > 0));
}
static int
runnable(struct ev * e)
{

	return (e->live && (e->type == IMM || ready(e) || (e->type == TMR && e->due <= now())));
}
static int
nlive(int type)
{
	int i, n = 0;

	for (i = 0; i < nev; i++)
		n += evs[i].live && evs[i].type == type;
	return (n);
}
static struct ev *
nth(int type, int k)
{
	int i;

	for (i = 0; i < nev; i++)
		if (evs[i].live && evs[i].type == type && k-- == 0)
			return (&evs[i]);
	return (NULL);
}
static struct ev *
netev(int fd, int op)
{
	int i;

	for (i = 0; i < nev; i++)
		if (evs[i].live && evs[i].type == NET && evs[i].fd == fd && evs[i].op == op)
			return (&evs[i]);
	return (NULL);
}

static void act(void);

/* Every callback. */
static int
cb(void * cookie)
{
	struct ev * e = cookie, * o;
	int i, rc;
	uint64_t t = now();

	if (e < evs || e >= evs + nev)
		violate("C17", "a callback got a cookie which was never given");
	x_trace_note("callback of event %d", e->id);
	if (!e->live)
		violate("C17", "a callback was run %s", e->ran ? "a second time" : "after its cancellation");
	if (incb)
		violate("C17", "a callback was run from within another");
	if (!runno)
		violate("C17", "a callback was run outside of the loop");
	if (stopped)
		violate("C17", "another event was run after %s", intr ? "an interruption" : "a callback had failed");
	for (i = 0; i < nev; i++) {
		o = &evs[i];
		if (!o->live || o == e)
			continue;
		if (o->type == IMM && (e->type != IMM || o->prio < e->prio || (o->prio == e->prio && o->id < e->id)))
			violate("C17", "an immediate event (priority %d) has to wait for another event", o->prio);
		if (e->type == TMR && o->type == TMR && o->due < e->due)
			violate("C17", "timers are not run in order");
		if (e->type == TMR && ready(o) && o->since < ranthis && o->since)
			violate("C17", "a timer is run before a socket which was ready all the time");
	}
	if (e->type == NET && !ready(e))
		violate("C17", "the callback for a socket was run although it is not ready");
	if (e->type == TMR && e->due > t)
		violate("C17", "a timer was run %lu ns too early", (long)(e->due - t));
	e->live = 0;
	e->ran = 1;
	ranthis++;
	if (e->type == NET && e->op == EVENTS_NETWORK_OP_READ && heavy == 0) {
		char c;

		if (read(fds[e->fd], &c, 1) == 1)
			nread[e->fd]--;
	}
	incb = 1;
	act();
	incb = 0;
	rc = retval_next;
	retval_next = 0;
	if (rc || intr)
		stopped = 1;
	return (rc);
}

static struct ev *
newev(int type)
{
	struct ev * e = &evs[nev];

	memset(e, 0, sizeof(*e));
	e->type = type;
	e->id = nev++;
	e->live = 1;
	e->since = 0;
	return (e);
}

static void
onsig(int s)
{

	(void)s;
	events_interrupt();
	intr = 1;
	stopped = 1;
}
static void
sendsig(void * a)
{

	w_kill(a, SIGUSR1);
}

/* One operation, or none. */
static void
act(void)
{
	static const int prios[] = { 0, 5, 31 };
	static const long us[] = { 0, 2500, 1000, 1 };
	struct timeval tv;
	struct ev * e;
	int k, fd, op, rc;

	if (budget == 0)
		return;
	budget--;
	switch (choose_free(incb ? 12 : 10, "operation")) {
	case 0:			/* nothing (any more) */
		if (!incb)
			budget = 0;
		return;
	case 1:
		e = newev(IMM);
		e->prio = prios[choose_free(NP, "priority")];
		if ((e->cookie = events_immediate_register(cb, e, e->prio)) == NULL) {
			e->live = 0;
			fatal = 1;
		}
		return;
	case 2:
		if ((k = nlive(IMM)) == 0)
			x_leaf();
		e = nth(IMM, choose_free(k, "which"));
		e->live = 0;
		events_immediate_cancel(e->cookie);
		return;
	case 3:
		fd = choose_free(NF, "fd");
		op = choose_free(2, "op") ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ;
		k = netev(fd, op) != NULL;
		e = newev(NET);
		e->fd = fd;
		e->op = op;
		errno = 0;
		rc = events_network_register(cb, e, fds[fd], op);
		if (rc)
			e->live = 0;
		if (k && (rc == 0 || errno != EEXIST))
			violate("C17", "a second registration for the same socket and operation %s", rc ? "gives the wrong error" : "is accepted");
		if (!k && rc)
			fatal = 1;
		return;
	case 4:
		fd = choose_free(NF, "fd");
		op = choose_free(2, "op") ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ;
		e = netev(fd, op);
		errno = 0;
		rc = events_network_cancel(fds[fd], op);
		if (e) {
			e->live = 0;
			if (rc)
				violate("C17", "cancelling a registration failed");
		} else if (!oom() && (rc == 0 || errno != ENOENT))
			violate("C17", "cancelling what is not registered: %d, errno %d", rc, errno);
		return;
	case 5:
		e = newev(TMR);
		k = choose_free(NT, "time");
		tv.tv_sec = 0;
		tv.tv_usec = us[k];
		e->len = us[k] * 1000;
		e->due = now() + e->len;
		if ((e->cookie = events_timer_register(cb, e, &tv)) == NULL) {
			e->live = 0;
			fatal = 1;
		}
		return;
	case 6:
		if ((k = nlive(TMR)) == 0)
			x_leaf();
		e = nth(TMR, choose_free(k, "which"));
		e->live = 0;
		events_timer_cancel(e->cookie);
		return;
	case 7:
		if ((k = nlive(TMR)) == 0)
			x_leaf();
		e = nth(TMR, choose_free(k, "which"));
		if (events_timer_reset(e->cookie)) {
			fatal = 1;
			return;
		}
		e->due = now() + e->len;
		e->since = 0;
		return;
	case 8:			/* something arrives */
		fd = choose_free(NF, "fd");
		if (nread[fd] >= 2)
			x_leaf();
		if (write(peers[fd], "x", 1) != 1)
			machine_error("write");
		nread[fd]++;
		return;
	case 9:
		if (!incb) {	/* the loop runs */
			extern void runloop(void);

			runloop();
			return;
		}
		usleep(1500);	/* time passes in the callback */
		return;
	case 10:
		retval_next = 7;
		return;
	case 11:
		events_interrupt();
		intr = 1;
		return;
	}
}

static uint64_t runs;
void
runloop(void)
{
	int i, rc, any = 0, can = 0, before = 0;
	uint64_t t0 = now(), first = UINT64_MAX;

	for (i = 0; i < nev; i++) {
		struct ev * e = &evs[i];

		if (runnable(e))
			any = 1;
		if (e->live && e->type == TMR && e->due < first)
			first = e->due;
		before += e->ran;
		if (e->live && (e->type != NET || ready(e)))
			can = 1;
		/* Ready since before this run: must come before any timer. */
		e->since = (e->live && ready(e)) ? 1 : 0;
	}
	if (!can)
		return;		/* it would wait for ever */
	if (!any && first > t0 && sig_at == 1) {
		/* A signal interrupts the waiting. */
		signal(SIGUSR1, onsig);
		w_timer(t0 + (first - t0) / 2 + 1, sendsig, w_cur());
		sig_at = 2;
	}
	runno = 1;
	stopped = 0;
	intr = 0;
	ranthis = 2;		/* "since" is less than this */
	rc = events_run();
	runno = 0;
	runs++;
	x_trace_note("events_run() = %d", rc);
	if (rc == -1 && oom()) {
		fatal = 1;
		return;
	}
	if (rc != (stopped && !intr ? 7 : 0) && !(stopped && intr && rc == 7))
		violate("C17", "events_run() returned %d", rc);
	if (any && ranthis == 2)
		violate("C17", "events_run() ran nothing though something could be run");
	if (!any && ranthis == 2 && !intr && !oom() && now() >= first)
		violate("C17", "events_run() returned without running the timer");
	if (!any && ranthis == 2 && !intr && now() < first)
		violate("C17", "events_run() returned too early");
	if (!any && !intr && now() > first + 1100000 && heavy == 0 && budget == 0)
		;		/* callbacks may take time */
	intr = 0;
	stopped = 0;
}

/* ------------------------------------------------------------------ */
/* Many descriptors. */
#define MANY 40
static int m_fd[MANY], m_rdy[MANY][2], m_reg[MANY][2], m_ran[MANY][2], m_n, m_cancel, m_done;
static void
m_drop(int i, int op)
{

	if (i < 0 || i >= m_n || !m_reg[i][op])
		return;
	m_reg[i][op] = 0;
	if (events_network_cancel(m_fd[i], op ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ))
		violate("C17", "cancelling a registration failed");
}
static int
m_cb(void * c)
{
	int k = (int)(uintptr_t)c - 1, i = k / 2, op = k % 2, j;

	if (i < 0 || i >= m_n)
		violate("C17", "a callback got a cookie which was never given");
	if (!m_reg[i][op])
		violate("C17", "the callback for descriptor %d, operation %d was run %s", i, op, m_ran[i][op] ? "again" : "after its cancellation");
	if (!m_rdy[i][op])
		violate("C17", "the callback for descriptor %d, operation %d was run although it is not ready", i, op);
	m_reg[i][op] = 0;
	m_ran[i][op]++;
	m_done++;
	switch (m_cancel) {
	case 0:
		break;
	case 1:			/* the neighbours */
		m_drop(i - 1, 0);
		m_drop(i + 1, 1);
		break;
	case 2:			/* the other operation */
		m_drop(i, !op);
		break;
	case 3:			/* those at either end */
		for (j = 0; j < m_n && !m_reg[j][0]; j++)
			;
		m_drop(j, 0);
		for (j = m_n - 1; j >= 0 && !m_reg[j][1]; j--)
			;
		m_drop(j, 1);
		break;
	case 4:			/* all */
		for (j = 0; j < m_n; j++) {
			m_drop(j, 0);
			m_drop(j, 1);
		}
		break;
	case 5:			/* once more */
		if (m_ran[i][op] == 1) {
			if (events_network_register(m_cb, c, m_fd[i], op ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ))
				violate("C17", "registering again failed");
			m_reg[i][op] = 1;
		}
		break;
	case 6:			/* others again */
		j = (i * 7 + 3) % m_n;
		if (!m_reg[j][op] && m_done < 100) {
			if (events_network_register(m_cb, (void *)(uintptr_t)(2 * j + op + 1), m_fd[j], op ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ))
				violate("C17", "registering again failed");
			m_reg[j][op] = 1;
		}
		break;
	}
	return (0);
}
static int m_one(void * c) { *(int *)c = 1; return (0); }
static void
many(void)
{
	static const int ns[] = { 1, 15, 16, 17, 33, 40 };
	int i, n, sv[2], what, rdy, order, left, t;
	char c = 0;

	m_n = ns[choose_free(6, "descriptors")];
	what = choose_free(3, "operations");
	rdy = choose_free(6, "ready");
	order = choose_free(3, "order");
	m_cancel = choose_free(7, "in the callback");
	for (i = 0; i < m_n; i++) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
			machine_error("socketpair");
		m_fd[i] = sv[0];
		if (rdy == 0 || (rdy == 1 && i % 3 == 0) || (rdy == 2 && i == 0) || (rdy == 3 && i == m_n - 1) || (rdy == 4 && i % 3)) {
			if (rdy == 4)
				close(sv[1]);
			else if (write(sv[1], &c, 1) != 1)
				machine_error("write");
			m_rdy[i][0] = 1;
		}
		m_rdy[i][1] = 1;
	}
	for (n = 0; n < m_n; n++) {
		int op;

		i = order == 0 ? n : order == 1 ? m_n - 1 - n : (n * 11 + 5) % m_n;
		if (m_n == 33 && order == 2)
			i = (n * 10 + 3) % m_n;
		for (op = 0; op < 2; op++) {
			if (what != 2 && what != op)
				continue;
			if (events_network_register(m_cb, (void *)(uintptr_t)(2 * i + op + 1), m_fd[i], op ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ))
				violate("C17", "registering failed: %d", errno);
			m_reg[i][op] = 1;
		}
	}
	for (n = 0; n < 400; n++) {
		for (left = i = 0; i < m_n; i++)
			left += (m_reg[i][0] && m_rdy[i][0]) + m_reg[i][1];
		if (!left)
			break;
		if (events_run())
			violate("C17", "events_run() failed");
	}
	if (left)
		violate("C17", "%d sockets which are ready have not been served", left);
	/* Nothing else happens. */
	t = 0;
	m_cancel = 0;
	if (events_timer_register_double(m_one, &t, 0.01) == NULL)
		violate("C17", "registering failed");
	while (!t)
		if (events_run())
			violate("C17", "events_run() failed");
	for (i = 0; i < m_n; i++) {
		m_drop(i, 0);
		m_drop(i, 1);
	}
	x_outcome(m_done);
	exit(0);
}

/* ------------------------------------------------------------------ */
/* Events which come again and again. */
static struct { int on, how, runs, wait, isreg, op; void * cookie; uint64_t due; int i; } fa[6];
static int fa_total, fa_sum, fa_turn;
static int fa_cb(void *);
static int
fa_reg(void * c)
{
	int i = (int)(uintptr_t)c - 1;
	struct timeval tv = { 0, i == 4 ? 0 : 1000 };

	if (i < 4) {
		if (events_network_register(fa_cb, c, fds[i % 3], i == 3 ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ))
			violate("C17", "registering failed: %d", errno);
		fa[i].due = 0;
	} else {
		if ((fa[i].cookie = events_timer_register(fa_cb, c, &tv)) == NULL)
			violate("C17", "registering failed");
		fa[i].due = now() + tv.tv_usec * 1000;
	}
	fa[i].isreg = 1;
	fa[i].wait = 0;
	return (0);
}
static int
fa_cb(void * c)
{
	int i = (int)(uintptr_t)c - 1, j, n = 0;

	fa[i].isreg = 0;
	fa[i].runs++;
	fa_total++;
	if (fa[i].due > now())
		violate("C17", "a timer was run too early");
	for (j = 0; j < 6; j++)
		n += fa[j].on;
	for (j = 0; j < 6; j++) {
		if (!fa[j].isreg || fa[j].due > now())
			continue;
		if (++fa[j].wait > 3 * n + 3)
			violate("C17", "event %d is ready, but %d others have been run since", j, fa[j].wait);
	}
	usleep(fa_turn);
	if (fa_total >= 120)
		return (9);
	switch (fa[i].how) {
	case 0:
		return (fa_reg(c));
	case 1:
		if (events_immediate_register(fa_reg, c, 3) == NULL)
			violate("C17", "registering failed");
		return (0);
	}
	return (0);
}
static void
fair(void)
{
	int i, k, m, hows;

	m = 1 + choose_free(63, "events");
	hows = choose_free(4, "how");
	fa_turn = choose_free(2, "time") ? 700 : 0;
	k = choose_free(2, "order");
	for (i = 0; i < 3; i++)
		if (write(peers[i], "x", 1) != 1)
			machine_error("write");
	for (i = 0; i < 6; i++) {
		fa[i].on = !!(m & (1 << i));
		fa[i].how = hows == 3 ? i % 2 : hows == 2 ? (i + 1) % 2 : hows;
	}
	if ((m & 0x10) && fa_turn == 0 && 0)
		x_leaf();
	for (i = 0; i < 6; i++) {
		int j = k ? 5 - i : i;

		if (fa[j].on)
			fa_reg((void *)(uintptr_t)(j + 1));
	}
	for (i = 0; i < 200 && fa_total < 120; i++)
		if ((k = events_run()) != 0 && k != 9)
			violate("C17", "events_run() failed");
	x_outcome(fa_total);
	exit(0);
}

/* ------------------------------------------------------------------ */
/* Every short program of a callback for a socket. */
#define PF 2
static struct { int reg, ever; } pe[PF][2];
static int p_rd[PF], p_full[PF], p_on[PF][2], p_r0[PF], p_f0[PF];
static int p_prog[8], p_len, p_pos, p_calls, p_bad;
static unsigned long p_count, p_callbacks;
static const int p_ops[2] = { EVENTS_NETWORK_OP_READ, EVENTS_NETWORK_OP_WRITE };
static int p_cb(void *);
static int
p_ready(int f, int op)
{

	return (op ? !p_full[f] : p_rd[f]);
}
static void
p_upd(void)
{
	int f, op;

	for (f = 0; f < PF; f++)
		for (op = 0; op < 2; op++)
			if (pe[f][op].reg && p_ready(f, op))
				pe[f][op].ever = 1;
}
static void
p_xfer(int fd, int wr)
{
	char b[16] = { 0 };

	while ((wr ? send(fd, b, 16, MSG_DONTWAIT) : recv(fd, b, 16, MSG_DONTWAIT)) > 0)
		;
}
/* Do one thing; 0 if it makes no sense now. */
static int
p_do(int k)
{
	int f = k < 8 ? 0 : 1, op = k % 2;
	char c = 0;

	switch (k) {
	case 0: case 1: case 8: case 9:
		if (pe[f][op].reg)
			return (0);
		if (events_network_register(p_cb, &pe[f][op], fds[f], p_ops[op]))
			violate("C17", "registering failed: %d", errno);
		pe[f][op].reg = 1;
		pe[f][op].ever = 0;
		break;
	case 2: case 3: case 10: case 11:
		if (!pe[f][op].reg)
			return (0);
		if (events_network_cancel(fds[f], p_ops[op]))
			violate("C17", "cancelling a registration failed");
		pe[f][op].reg = 0;
		break;
	case 4:
		if (p_full[0])
			return (0);
		p_xfer(fds[0], 1);
		p_full[0] = 1;
		break;
	case 5:
		if (!p_full[0])
			return (0);
		p_xfer(peers[0], 0);
		p_full[0] = 0;
		break;
	case 6:
		if (p_rd[0])
			return (0);
		if (write(peers[0], &c, 1) != 1)
			machine_error("write");
		p_rd[0] = 1;
		break;
	case 7:
		if (!p_rd[0])
			return (0);
		p_xfer(fds[0], 0);
		p_rd[0] = 0;
		break;
	case 12:		/* the rest is for the next callback */
		return (1);
	}
	p_upd();
	return (1);
}
static const char *
p_str(void)
{
	static const char * nm[] = { "reg(0,R)", "reg(0,W)", "cancel(0,R)", "cancel(0,W)", "fill(0)", "drain(0)", "arrive(0)", "consume(0)", "reg(1,R)", "reg(1,W)", "cancel(1,R)", "cancel(1,W)", "return" };
	static char b[400];
	int i;

	b[0] = 0;
	for (i = 0; i < p_len; i++) {
		strcat(b, nm[p_prog[i]]);
		strcat(b, i + 1 < p_len ? "; " : "");
	}
	return (b);
}
static int
p_cb(void * c)
{
	int f, op;

	for (f = 0; f < PF; f++)
		for (op = 0; op < 2; op++)
			if (c == &pe[f][op])
				goto found;
	violate("C17", "a callback got a cookie which was never given");
found:
	p_callbacks++;
	p_calls++;
	if (incb)
		violate("C17", "a callback was run from within another (program: %s)", p_str());
	if (!pe[f][op].reg)
		violate("C17", "the callback for socket %d, operation %d was run though it is not registered (program: %s)", f, op, p_str());
	if (!pe[f][op].ever)
		violate("C17", "the callback for socket %d, operation %d was run though the socket has not been ready since its registration (program: %s)", f, op, p_str());
	pe[f][op].reg = 0;
	incb = 1;
	while (p_pos < p_len) {
		if (!p_do(p_prog[p_pos])) {
			p_bad = 1;
			break;
		}
		if (p_prog[p_pos++] == 12)
			break;
	}
	incb = 0;
	return (0);
}
static void
prog(int n)
{
	int setup = choose_free(256, "setup"), f, op, i, left;
	char c = 0;

	for (f = 0; f < PF; f++) {
		p_on[f][0] = !!(setup & (1 << (4 * f)));
		p_on[f][1] = !!(setup & (2 << (4 * f)));
		p_r0[f] = !!(setup & (4 << (4 * f)));
		p_f0[f] = !!(setup & (8 << (4 * f)));
	}
	/* One of them must run. */
	for (f = i = 0; f < PF; f++)
		i += (p_on[f][0] && p_r0[f]) || (p_on[f][1] && !p_f0[f]);
	if (!i)
		x_leaf();
	memset(p_prog, 0, sizeof(p_prog));
	p_prog[0] = choose_free(13, "first");
	p_prog[1] = choose_free(13, "second");
	p_len = 2;
	for (;;) {
		/* The situation at the start. */
		for (f = 0; f < PF; f++) {
			p_xfer(fds[f], 0);
			p_xfer(peers[f], 0);
			if ((p_rd[f] = p_r0[f]) && write(peers[f], &c, 1) != 1)
				machine_error("write");
			if ((p_full[f] = p_f0[f]))
				p_xfer(fds[f], 1);
			for (op = 0; op < 2; op++)
				if (p_on[f][op] && !p_do(8 * f + op))
					machine_error("start");
		}
		p_pos = p_calls = p_bad = 0;
		p_count++;
		for (i = 0; i < 20; i++) {
			for (left = f = 0; f < PF; f++)
				for (op = 0; op < 2; op++)
					left += pe[f][op].reg && p_ready(f, op);
			if (!left || p_bad)
				break;
			if (events_run())
				violate("C17", "events_run() failed (program: %s)", p_str());
		}
		if (!p_bad && left)
			violate("C17", "a socket which is ready has not been served (program: %s)", p_str());
		for (f = 0; f < PF; f++)
			for (op = 0; op < 2; op++)
				if (pe[f][op].reg && !p_do(8 * f + op + 2))
					machine_error("end");
		/* The next program; skip those which begin in the same way as one which makes no sense. */
		if (p_pos < p_len && p_bad)
			i = p_pos;
		else if (p_pos < p_len)
			i = p_pos ? p_pos - 1 : -1;	/* the rest was never reached */
		else if (p_len < n) {
			p_prog[p_len++] = 0;
			continue;
		} else
			i = p_len - 1;
		while (i >= 2 && ++p_prog[i] == 13)
			i--;
		if (i < 2)
			break;
		p_len = i + 1;
	}
	x_sample("setup %d: %lu programs of at most %d operations, %lu callbacks", setup, p_count, n, p_callbacks);
	x_outcome(p_count);
	exit(0);
}

int
main(int argc, char ** argv)
{
	int i, n, last, sv[2];

	(void)argc;
	if (argv[1][0] == 'm')
		many();
	NF = atoi(argv[2]);
	NP = atoi(argv[3]);
	NT = atoi(argv[4]);
	for (i = 0; i < NF; i++) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
			machine_error("socketpair");
		fds[i] = sv[0];
		peers[i] = sv[1];
	}
	if (argv[1][0] == 'f')
		fair();
	if (argv[1][0] == 'p')
		prog(NP);
	budget = atoi(argv[1]);
	sig_at = choose_free(2, "a signal");
	while (budget && !fatal)
		act();
	if (fatal) {
		if (!oom())
			violate("C17", "an operation failed without a reason");
		exit(0);
	}
	/* Everything which is due is run in the end. */
	for (n = 0; n < 60; n++) {
		for (last = i = 0; i < nev; i++)
			if (evs[i].live && (evs[i].type != NET || ready(&evs[i])))
				last = 1;
		if (!last || fatal)
			break;
		if (sig_at == 1)
			sig_at = 2;
		runloop();
	}
	if (last && !fatal)
		violate("C17", "an event which is due has not been run in 60 rounds");
	/* No memory is left when all has been cancelled. */
	for (i = 0; i < nev; i++)
		if (evs[i].live && evs[i].type == NET) {
			evs[i].live = 0;
			if (events_network_cancel(fds[evs[i].fd], evs[i].op))
				violate("C17", "cancelling a registration failed");
		}
	x_outcome(nev * 1000 + runs);
	exit(0);
}
