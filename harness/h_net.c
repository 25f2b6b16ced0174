/* Asynchronous reads and writes, and the buffered reader, against what really went over the socket. */
#include <sys/socket.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "events.h"
#include "netbuf.h"
#include "network.h"
#include "explore.h"
#include "sim.h"

#define T "C29"
static int fd, pfd;			/* ours, the peer's */
static int budget, incb, fatal, running;
static const char * mode;
static size_t psent, pgot;		/* by the peer */
static int peof, pclosed;
static int retval;			/* a callback returned this */

static struct sfile * F(void) { return (w_cur()->fds[fd]); }
static size_t consumed(void) { return (F()->rx->rd); }
static size_t avail(void) { return (chan_avail(F()->rx)); }
static size_t written(void) { return (F()->tx->rd + chan_avail(F()->tx)); }
static int oom(void) { return (w_cur()->oom); }
static int isreset(void) { return (F()->reset); }

/* --- one read --- */
#define BUFMAX 64
static struct {
	void * cookie;
	uint8_t * buf;
	size_t len, min, at;
	int done;
} R;
static void act(void);

static int
cb_read(void * c, ssize_t n)
{
	size_t i;

	x_trace_note("read callback: %zd", n);
	if (c != &R)
		violate(T, "the read callback gets another cookie");
	if (R.cookie == NULL)
		violate(T, "the read callback is called %s", R.done ? "twice" : "after the cancellation");
	if (!running)
		violate(T, "the read callback is called outside of the loop");
	if (n > 0) {
		if ((size_t)n < R.min || (size_t)n > R.len)
			violate(T, "a read of %zu to %zu bytes gives %zd", R.min, R.len, n);
		if (consumed() - R.at != (size_t)n)
			violate(T, "a read took %zu bytes from the socket but gives %zd", consumed() - R.at, n);
	} else if (n == 0) {
		if (!peof && !pclosed)
			violate(T, "a read reports the end although there is none");
		if (avail() && !isreset())
			violate(T, "a read reports the end before it");
		if (consumed() - R.at >= R.min)
			violate(T, "a read has all it needs but reports the end");
	} else if (!isreset() && !oom())
		violate(T, "a read reports an error although there was none");
	for (i = 0; i < R.len; i++)
		if (R.buf[i] != (i < consumed() - R.at ? pat(1, R.at + i) : 0xEE))
			violate(T, "byte %zu of the read buffer is %s", i, i < consumed() - R.at ? "not what was sent" : "overwritten");
	R.cookie = NULL;
	R.done = 1;
	incb = 1;
	act();
	incb = 0;
	/* (the buffer may be gone by now: its contents must not be used again) */
	return (retval);
}
static void
start_read(void)
{
	static const size_t lens[] = { 3, 1, 8 };

	R.len = lens[choose_free(3, "read length")];
	R.min = R.len == 1 ? 1 : choose_free(2, "minimum") ? R.len : R.len == 8 ? 4 : 1;
	free(R.buf);
	R.buf = malloc(R.len);
	memset(R.buf, 0xEE, R.len);
	R.at = consumed();
	R.done = 0;
	W.user = 1;
	R.cookie = network_read(fd, R.buf, R.len, R.min, cb_read, &R);
	W.user = 0;
	if (R.cookie == NULL) {
		if (!oom())
			violate(T, "network_read fails without a reason");
		fatal = 1;
	}
}
static void
cancel_read(void)
{
	size_t i;

	network_read_cancel(R.cookie);
	R.cookie = NULL;
	R.done = 0;
	for (i = 0; i < R.len; i++)
		if (R.buf[i] != (i < consumed() - R.at ? pat(1, R.at + i) : 0xEE))
			violate(T, "byte %zu of the buffer of a cancelled read is not what was sent", i);
	/* Nobody may write there any more. */
	free(R.buf);
	R.buf = NULL;
}

/* --- one write --- */
static struct {
	void * cookie;
	uint8_t * buf;
	size_t len, min, at;
	int done;
} Wr;
static int
cb_write(void * c, ssize_t n)
{

	x_trace_note("write callback: %zd", n);
	if (c != &Wr)
		violate(T, "the write callback gets another cookie");
	if (Wr.cookie == NULL)
		violate(T, "the write callback is called %s", Wr.done ? "twice" : "after the cancellation");
	if (!running)
		violate(T, "the write callback is called outside of the loop");
	if (n >= 0) {
		if ((size_t)n < Wr.min || (size_t)n > Wr.len)
			violate(T, "a write of %zu to %zu bytes gives %zd", Wr.min, Wr.len, n);
		if (written() - Wr.at != (size_t)n && !pclosed && !isreset())
			violate(T, "a write gave %zu bytes to the socket but says %zd", written() - Wr.at, n);
	} else if (!isreset() && !pclosed && !oom())
		violate(T, "a write reports an error although there was none");
	Wr.cookie = NULL;
	Wr.done = 1;
	incb = 1;
	act();
	incb = 0;
	return (retval);
}
static void
start_write(void)
{
	static const size_t lens[] = { 3, 1, 9 };

	Wr.len = lens[choose_free(3, "write length")];
	Wr.min = Wr.len == 1 ? 1 : choose_free(2, "minimum") ? Wr.len : Wr.len == 9 ? 2 : 1;
	free(Wr.buf);
	Wr.buf = malloc(Wr.len);
	Wr.at = written();
	patfill(Wr.buf, 2, Wr.at, Wr.len);
	Wr.done = 0;
	W.user = 1;
	Wr.cookie = network_write(fd, Wr.buf, Wr.len, Wr.min, cb_write, &Wr);
	W.user = 0;
	if (Wr.cookie == NULL) {
		if (!oom())
			violate(T, "network_write fails without a reason");
		fatal = 1;
	}
}

/* --- the buffered reader --- */
static struct netbuf_read * N;
static int waiting, waited, nst;
static size_t want, eaten;
static size_t
peek(void)
{
	uint8_t * p;
	size_t n, i;

	netbuf_read_peek(N, &p, &n);
	for (i = 0; i < n; i++)
		if (p[i] != pat(1, eaten + i))
			violate(T, "byte %zu of the %zu in the reader is not the one which comes next (%zu)", i, n, eaten + i);
	if (n != consumed() - eaten)
		violate(T, "the reader has %zu bytes, but took %zu from the socket which were not consumed yet", n, consumed() - eaten);
	return (n);
}
static int
cb_wait(void * c, int st)
{
	size_t n;

	x_trace_note("wait callback: %d", st);
	if (c != &want)
		violate(T, "the reader's callback gets another cookie");
	if (!waiting)
		violate(T, "the reader's callback is called %s", waited ? "twice" : "after the cancellation");
	if (!running)
		violate(T, "the reader's callback is called outside of the loop");
	waiting = 0;
	waited = 1;
	nst = st;
	n = peek();
	if (st == 0 && n < want)
		violate(T, "the reader says that %zu bytes are there, but has only %zu", want, n);
	if (st == 1 && n >= want)
		violate(T, "the reader has %zu bytes but reports the end instead of %zu", n, want);
	if (st == 1 && !peof && !pclosed)
		violate(T, "the reader reports the end although there is none");
	if (st == 1 && avail() && !isreset())
		violate(T, "the reader reports the end before it");
	if (st == -1 && !isreset() && !oom())
		violate(T, "the reader reports an error although there was none");
	if (st != 0 && st != 1 && st != -1)
		violate(T, "the reader reports %d", st);
	incb = 1;
	act();
	incb = 0;
	return (retval);
}
static void
dowait(size_t n)
{
	int rc;

	want = n;
	waited = 0;
	W.user = 1;
	rc = netbuf_read_wait(N, n, cb_wait, &want);
	W.user = 0;
	if (rc) {
		if (!oom())
			violate(T, "netbuf_read_wait fails without a reason");
		fatal = 1;
		return;
	}
	waiting = 1;
	peek();
}

/* --- the peer --- */
static void
psend(size_t k)
{
	uint8_t b[16384];

	assert(k <= sizeof(b));
	patfill(b, 1, psent, k);
	if (send(pfd, b, k, MSG_NOSIGNAL) != (ssize_t)k)
		x_leaf();
	psent += k;
}
static void
precv(size_t k)
{
	uint8_t b[64];
	ssize_t n, i;

	if (k > sizeof(b))
		k = sizeof(b);
	if ((n = read(pfd, b, k)) <= 0)
		x_leaf();
	for (i = 0; i < n; i++)
		if (b[i] != pat(2, pgot + i))
			violate(T, "byte %zu which arrives is not the one to be sent there", pgot + i);
	pgot += n;
}

static int
readable(void)
{

	return (avail() || peof || pclosed || isreset());
}
static int
writable(void)
{

	return (chan_avail(F()->tx) < W.default_cap || pclosed || isreset());
}
static int
canrun(void)
{

	if (strcmp(mode, "nb") == 0)
		return (waiting && (readable() || consumed() - eaten >= want));
	return ((R.cookie && readable()) || (Wr.cookie && writable()));
}
static void
runloop(void)
{
	int rc;

	running = 1;
	W.user = 1;
	rc = events_run();
	W.user = 0;
	running = 0;
	if (rc == -1 && oom())
		fatal = 1;
	else if (rc != retval)
		violate(T, "events_run() returns %d instead of %d", rc, retval);
	retval = 0;
}

static void
act(void)
{
	static const size_t ksend[] = { 1, 2, 7 }, krecv[] = { 1, 4, 64 };
	static const size_t nsend[] = { 1, 3000, 4096, 5000 }, nwait[] = { 1, 4096, 4097, 9000, 0, 4095 };
	int u = W.user, nb = strcmp(mode, "nb") == 0, rd = strchr(mode, 'r') != NULL, wr = strchr(mode, 'w') != NULL;
	size_t n;
	int k;

	W.user = 0;
	if (budget-- <= 0 || fatal) {
		budget = 0;
		goto out;
	}
	switch (choose_free(12, "operation")) {
	case 0:			/* nothing */
		if (!incb)
			budget = 0;
		break;
	case 1:			/* start reading or waiting */
		if (nb) {
			if (waiting)
				x_leaf();
			k = choose_free(7, "amount");
			dowait(k == 6 ? peek() + 2 : nwait[k]);
		} else if (rd) {
			if (R.cookie)
				x_leaf();
			start_read();
		} else
			x_leaf();
		break;
	case 2:			/* cancel that */
		if (nb ? !waiting : !R.cookie)
			x_leaf();
		if (nb) {
			netbuf_read_wait_cancel(N);
			waiting = 0;
			waited = 0;
			peek();
		} else
			cancel_read();
		break;
	case 3:			/* the peer sends */
		if ((!nb && !rd) || peof || pclosed)
			x_leaf();
		psend(nb ? nsend[choose_free(4, "amount")] : ksend[choose_free(3, "amount")]);
		break;
	case 4:			/* ... no more */
		if ((!nb && !rd) || peof || pclosed)
			x_leaf();
		shutdown(pfd, SHUT_WR);
		peof = 1;
		break;
	case 5:			/* the loop runs */
		if (incb || !canrun())
			x_leaf();
		runloop();
		break;
	case 6:			/* consume */
		if (!nb || waiting || (n = peek()) == 0)
			x_leaf();
		switch (choose_free(4, "amount")) {
		case 0: n = 1; break;
		case 1: n = n / 2; break;
		case 2: n = n - 1; break;
		}
		netbuf_read_consume(N, n);
		eaten += n;
		peek();
		break;
	case 7:			/* start writing */
		if (!wr || Wr.cookie)
			x_leaf();
		start_write();
		break;
	case 8:			/* cancel that */
		if (!Wr.cookie)
			x_leaf();
		network_write_cancel(Wr.cookie);
		Wr.cookie = NULL;
		Wr.done = 0;
		free(Wr.buf);
		Wr.buf = NULL;
		break;
	case 9:			/* the peer receives */
		if (!wr || pclosed)
			x_leaf();
		precv(krecv[choose_free(3, "amount")]);
		break;
	case 10:		/* the peer is gone */
		if (nb || pclosed)
			x_leaf();
		close(pfd);
		pclosed = 1;
		break;
	case 11:		/* the callback fails */
		if (!incb)
			x_leaf();
		retval = 5;
		break;
	}
out:
	W.user = u;
}

/* One large transfer, in all pieces. */
static void
big(void)
{
	static const size_t lens[] = { 16, 100, 1060, 8480 };
	int wr = choose_free(2, "direction"), k = choose_free(4, "length"), m = choose_free(5, "minimum"), i;
	size_t len = lens[k], min = m == 0 ? len : m == 1 ? len - 1 : m == 2 ? len / 2 + 1 : m == 3 ? len - len / 8 : 1;
	uint8_t * buf = malloc(len);

	W.user = 0;
	F()->tx->cap = F()->rx->cap = W.default_cap = choose_free(2, "socket buffer") ? len / 3 + 2 : 65536;
	if (wr) {
		Wr.len = len;
		Wr.min = min;
		Wr.buf = buf;
		patfill(buf, 2, 0, len);
		W.user = 1;
		if ((Wr.cookie = network_write(fd, buf, len, min, cb_write, &Wr)) == NULL)
			violate(T, "network_write fails without a reason");
	} else {
		R.len = len;
		R.min = min;
		R.buf = buf;
		memset(buf, 0xEE, len);
		W.user = 1;
		if ((R.cookie = network_read(fd, buf, len, min, cb_read, &R)) == NULL)
			violate(T, "network_read fails without a reason");
	}
	W.user = 0;
	for (i = 0; i < 100 && (R.cookie || Wr.cookie); i++) {
		if (!wr && psent < len + 5) {
			size_t n = len + 5 - psent, c = F()->rx->cap - avail();

			psend(n < c ? n : c);
		}
		while (wr && chan_avail(F()->tx) && !isreset())
			precv(64);
		if (!canrun())
			violate(T, "a %s waits for nothing", wr ? "write" : "read");
		runloop();
	}
	if (R.cookie || Wr.cookie)
		violate(T, "a %s does not complete", wr ? "write" : "read");
	while (wr && chan_avail(F()->tx) && !isreset())
		precv(64);
	x_outcome((consumed() * 10000 + written()) * 2 + wr);
	free(buf);
	events_shutdown();
	exit(0);
}

int
main(int argc, char ** argv)
{
	int sv[2], i;

	mode = argv[1];
	budget = atoi(argv[2]);
	if (socketpair(AF_INET, SOCK_STREAM, 0, sv))
		machine_error("socketpair");
	fd = sv[0];
	pfd = sv[1];
	fcntl(fd, F_SETFL, O_NONBLOCK);
	fcntl(pfd, F_SETFL, O_NONBLOCK);
	if (strcmp(mode, "bi") == 0)
		big();
	if (strcmp(mode, "nb") == 0) {
		W.user = 1;
		N = netbuf_read_init(fd);
		W.user = 0;
		if (N == NULL) {
			if (!oom())
				violate(T, "netbuf_read_init fails without a reason");
			exit(0);
		}
		if (argc < 4 && choose_free(2, "half full") && !oom()) {
			uint32_t x = x_enabled;
			int b = budget;

			x_enabled = 0;
			budget = 0;
			psend(3000);
			dowait(1);
			runloop();
			netbuf_read_consume(N, 1500);
			eaten += 1500;
			peek();
			x_enabled = x;
			budget = b;
		}
	}
	while (budget > 0 && !fatal)
		act();
	if (fatal)
		exit(0);

	/* Whatever was begun must complete when nothing more goes wrong. */
	budget = 0;
	x_enabled = 0;
	if (N) {
		if (!waiting && waited && nst == -1)
			exit(0);
		for (i = 0; eaten < psent || waiting; i++) {
			size_t n;

			if (i > 40)
				violate(T, "the reader does not hand over what was sent (%zu of %zu)", eaten, psent);
			if (!waiting)
				dowait(1);
			for (n = 0; !canrun() && !peof && n < 100; n++)
				psend(5000);
			if (!canrun())
				violate(T, "the reader waits for nothing");
			runloop();
			if (waited && nst) {
				if (nst == -1)
					break;
				if (want <= 1 && eaten + peek() < psent && !isreset())
					violate(T, "the reader reports the end before the last byte");
			}
			if (waiting)
				continue;
			n = peek();
			netbuf_read_consume(N, n);
			eaten += n;
			if (nst == 1 && waited)
				break;
		}
		if (waiting)
			netbuf_read_wait_cancel(N);
		if (eaten != psent && !isreset())
			violate(T, "%zu bytes were sent, the reader handed over %zu", psent, eaten);
		netbuf_read_free(N);
	}
	if (R.cookie) {
		if (!readable() || (!peof && !pclosed && !isreset()))
			for (i = 0; i < 10 && !peof && !pclosed && !isreset(); i++)
				psend(1);
		for (i = 0; i < 20 && R.cookie; i++) {
			if (!canrun())
				violate(T, "a read waits for nothing");
			runloop();
		}
		if (R.cookie)
			violate(T, "a read does not complete");
	}
	for (i = 0; i < 40 && Wr.cookie; i++) {
		if (!pclosed && chan_avail(F()->tx))
			precv(64);
		runloop();
	}
	if (Wr.cookie)
		violate(T, "a write does not complete");
	while (!pclosed && chan_avail(F()->tx) && !isreset())
		precv(64);
	/* No registration is left. */
	for (i = 0; i < 2; i++) {
		errno = 0;
		if (events_network_cancel(fd, i ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ) == 0)
			violate(T, "the socket is still registered for %s", i ? "writing" : "reading");
	}
	x_outcome(((consumed() * 64 + written()) * 64 + (R.done | Wr.done * 2 | waited * 4 | peof * 8 | pclosed * 16)) * 4 + nst + 1);
	free(R.buf);
	free(Wr.buf);
	events_shutdown();
	exit(0);
}
