/* Common pieces of scenarios: scripted users and servers, and oracles. */
#ifndef TOPO_H
#define TOPO_H
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ref.h"
#include "sim.h"

/* Addresses. */
#define A_ENC "127.0.0.1:1001"		/* encrypting daemon listens */
#define A_MID "127.0.0.1:2001"		/* its target (maybe a MITM) */
#define A_DEC "127.0.0.1:2002"		/* decrypting daemon listens */
#define A_TGT "127.0.0.1:3001"		/* final target */
#define KEYA "the shared key of 32 or more bytes ......."

struct ep {			/* one end of a user-visible connection */
	const char * name;
	const char * addr;
	const char * script;
	int is_server;
	int stream;		/* pattern this end writes */
	int expect;		/* pattern this end expects; -1: from header */
	int hdr;		/* header byte seen (server) / sent (client) */
	int fd;
	int connected;
	int conn_failed;
	size_t sent, got;
	int badat;		/* 1 + offset of first wrong byte */
	int eof, rderr, wrerr;	/* errno */
	int shut;
	int done, closed;
	uint64_t t_conn, t_eof, t_done;
	uint8_t head[64];
	struct ep * peer;	/* matched other end */
	int maxaccept;		/* servers: number of connections to accept */
	struct ep * subs[16];
	int nsubs;
	int listen_fd;
	int bound_ok;
	struct proc * proc;
};

static void
ep_rd(struct ep * e, size_t want, int toeof)
{
	uint8_t buf[8192];
	ssize_t r;
	size_t i, left = want;

	while (toeof || left > 0) {
		size_t k = sizeof(buf);

		if (!toeof && left < k)
			k = left;
		r = a_read(e->fd, buf, k);
		if (r == 0) {
			e->eof = 1;
			e->t_eof = W.now;
			return;
		}
		if (r < 0) {
			e->rderr = W.cur->err;
			e->t_eof = W.now;
			return;
		}
		if (e->expect == -2 && r > 0) {
			/* Which user is this?  Streams start with own byte. */
			for (i = 1; i < 16; i++)
				if (pat(i, 0) == buf[0])
					break;
			if (i == 16)
				e->badat = 1;
			e->expect = i;
			e->stream = 100 + i;
		}
		if (e->expect == -4 && r > 0) {
			/* Streams start with their own number. */
			e->expect = buf[0];
			if (buf[0] == 0)
				e->badat = 1;
		}
		for (i = 0; i < (size_t)r; i++) {
			if (e->got + i < sizeof(e->head))
				e->head[e->got + i] = buf[i];
			if (!e->badat && e->expect >= 0 &&
			    buf[i] != pat(e->expect, e->got + i))
				e->badat = 1 + e->got + i;
		}
		e->got += r;
		left -= r;
	}
}

/*
 * Script letters: wN write N bytes (in one go), WN:K write N bytes K at a
 * time, rN read exactly N, e read to EOF, s shutdown(SHUT_WR), c close, R
 * reset, zMS sleep, f forever.
 */
static void
ep_script(struct ep * e)
{
	const char * p = e->script;
	uint8_t * b;

	while (*p) {
		char op = *p++;
		long n = strtol(p, (char **)&p, 10), k;

		switch (op) {
		case 'w':
		case 'W':
			k = n;
			if (op == 'W' && *p == ':')
				k = strtol(p + 1, (char **)&p, 10);
			b = malloc(n + 1);
			patfill(b, e->stream, e->sent, n);
			while (n > 0 && !e->wrerr) {
				long m = k < n ? k : n;

				if (a_write(e->fd, b, m)) {
					e->wrerr = W.cur->err ? W.cur->err : EPIPE;
					break;
				}
				e->sent += m;
				b += m;
				n -= m;
				if (n > 0)
					a_yield();
			}
			break;
		case 'r':
			ep_rd(e, n, 0);
			if (e->expect == -2) {
				/* It never said who it is. */
				a_close(e->fd);
				e->closed = 1;
				goto out;
			}
			break;
		case 'e':
			if (!e->eof && !e->rderr)
				ep_rd(e, 0, 1);
			break;
		case 's':
			a_shut(e->fd);
			e->shut = 1;
			break;
		case 'c':
			a_close(e->fd);
			e->closed = 1;
			break;
		case 'R':
			a_reset(e->fd);
			e->closed = 1;
			break;
		case 'z':
			a_sleep(n / 1000.0);
			break;
		case 'f':
			a_sleep(1e6);
			break;
		case ' ':
			break;
		default:
			machine_error("bad script %s", e->script);
		}
	}
out:
	e->done = 1;
	e->t_done = W.now;
}

static void
ep_client(void * a)
{
	struct ep * e = a;

	if (e->hdr < 0)
		a_sleep(-e->hdr / 1000.0);
	if ((e->fd = a_connect(e->addr)) == -1) {
		e->conn_failed = 1;
		e->done = 1;
		return;
	}
	e->connected = 1;
	e->t_conn = W.now;
	ep_script(e);
}

static void
ep_sub(void * a)
{
	struct ep * e = a;

	/* Our descriptor was installed as 3. */
	e->fd = 3;
	e->t_conn = W.now;
	e->connected = 1;
	ep_script(e);
}

static void
ep_server(void * a)
{
	struct ep * e = a;
	int i;

	e->listen_fd = a_listen(e->addr);
	for (i = 0; i < e->maxaccept; i++) {
		struct ep * s;
		int fd = a_accept(e->listen_fd);
		struct proc * p;
		char nm[24];

		if (fd < 0)
			machine_error("accept failed in actor");
		s = calloc(1, sizeof(*s));
		*s = *e;
		s->nsubs = 0;
		s->peer = NULL;
		s->stream = e->stream + i;
		s->expect = e->expect >= 0 ? e->expect + i : e->expect;
		e->subs[e->nsubs++] = s;
		snprintf(nm, sizeof(nm), "%s#%d", e->name, i);
		s->proc = p = w_actor(nm, ep_sub, s);
		/* Move the descriptor. */
		p_installfd(p, 3, w_cur()->fds[fd]);
		a_close(fd);
	}
	a_sleep(1e6);
}

static struct ep *
mkclient(const char * name, const char * addr, const char * script, int stream,
    int expect)
{
	struct ep * e = calloc(1, sizeof(*e));

	e->name = name;
	e->addr = addr;
	e->script = script;
	e->stream = stream;
	e->expect = expect;
	e->proc = w_actor(name, ep_client, e);
	return (e);
}

static struct ep *
mkserver(const char * name, const char * addr, const char * script, int stream,
    int expect, int n)
{
	struct ep * e = calloc(1, sizeof(*e));

	e->name = name;
	e->addr = addr;
	e->script = script;
	e->stream = stream;
	e->expect = expect;
	e->is_server = 1;
	e->maxaccept = n;
	e->proc = w_actor(name, ep_server, e);
	return (e);
}

/* Integrity of what one end has received so far from another. */
static void
chk_stream(const char * tags, const char * what, struct ep * rx, struct ep * tx)
{

	if (rx == NULL)
		return;
	if (rx->badat)
		violate(tags, "%s: byte %d of the data received by %s is not "
		    "what the other end sent", what, rx->badat - 1, rx->name);
	if (tx != NULL && rx->got > tx->sent)
		violate(tags, "%s: %s received %zu bytes but only %zu were "
		    "sent", what, rx->name, rx->got, tx->sent);
}

static void
chk_complete(const char * tags, const char * what, struct ep * rx,
    struct ep * tx)
{

	chk_stream(tags, what, rx, tx);
	/* An end which has closed without reading on misses nothing. */
	if (rx->closed && !rx->eof && !rx->rderr && strchr(rx->script, 'e') == NULL)
		return;
	if (rx->got != tx->sent)
		violate(tags, "%s: %s received %zu of the %zu bytes sent",
		    what, rx->name, rx->got, tx->sent);
	if (!rx->eof)
		violate(tags, "%s: %s saw no end of file (error %d)", what,
		    rx->name, rx->rderr);
}

static uint64_t
ep_hash(uint64_t h, struct ep * e)
{
	int v[10];

	if (e == NULL)
		return (h * 3);
	v[0] = e->sent; v[1] = e->got; v[2] = e->eof; v[3] = e->rderr;
	v[4] = e->wrerr; v[5] = e->done; v[6] = e->closed; v[7] = e->connected;
	v[8] = e->conn_failed; v[9] = e->nsubs;
	return (x_hash(h, v, sizeof(v)));
}

/* The i'th connection made by p to addr (its socket), or NULL. */
static struct sfile *
conn_to(struct proc * p, const char * addr, int idx)
{
	struct saddr a = mkaddr(addr);
	int i;

	for (i = 0; i < W.nallfiles; i++) {
		struct sfile * f = W.allfiles[i];

		if (f->type == F_SOCK && f->creator == p && !f->accepted &&
		    f->tx != NULL && saddr_eq(&f->remote, &a) && idx-- == 0)
			return (f);
	}
	return (NULL);
}

/*
 * Compare all that went over a wire (client to server and back) with the
 * protocol: 32 bytes, 288 bytes, then packets numbered from zero.  ysc is the
 * shared value, NULL if not known.  Returns the plaintext lengths.
 */
static void
chk_wire(const char * tags, const char * key, struct chan * cs, struct chan * sc,
    const uint8_t * ysc, int stream_c, int stream_s)
{
	uint8_t K[32], dc[32], ds[32], yh[R_YH], buf[1024];
	struct ref_keys kc, ks;
	int d;

	ref_sha256(key, strlen(key), K);
	if (cs->loglen < 32 || sc->loglen < 32)
		return;
	ref_dhmac(K, cs->log, sc->log, dc, ds);
	if (cs->loglen >= 320) {
		ref_mkyh(cs->log + 32, dc, yh);
		if (memcmp(yh, cs->log + 32, R_YH))
			violate(tags, "the client's Diffie-Hellman message does not follow the protocol");
		if (memcmp(yh, ref_p, 256) >= 0)
			violate(tags, "the client sent y >= p");
	}
	if (sc->loglen >= 320) {
		ref_mkyh(sc->log + 32, ds, yh);
		if (memcmp(yh, sc->log + 32, R_YH))
			violate(tags, "the server's Diffie-Hellman message does not follow the protocol");
		if (memcmp(yh, ref_p, 256) >= 0)
			violate(tags, "the server sent y >= p");
	}
	if (ysc == NULL)
		return;
	ref_keyset(K, cs->log, sc->log, ysc, &kc, &ks);
	for (d = 0; d < 2; d++) {
		struct chan * c = d ? sc : cs;
		int stream = d ? stream_s : stream_c;
		uint64_t n;
		size_t off, pos = 0, i;
		ssize_t r;

		for (n = 0, off = 320; off + R_PKT <= c->loglen; off += R_PKT, n++) {
			r = ref_decrypt(d ? &ks : &kc, n, c->log + off, buf);
			if (r < 0)
				violate(tags, "packet %lu sent by the %s is not as the protocol says (%s)",
				    (long)n, d ? "server" : "client", r == -1 ? "MAC" : r == -2 ? "length" : "padding");
			for (i = 0; i < (size_t)r && stream >= 0; i++)
				if (buf[i] != pat(stream, pos + i))
					violate(tags, "packet %lu sent by the %s holds wrong data", (long)n, d ? "server" : "client");
			pos += r;
		}
	}
}
static const uint8_t ysc_one[256] = { [255] = 1 };

/* End of a run with the given ends. */
static void
finish(struct ep ** eps)
{
	uint64_t h = 11;
	char b[900];
	int n = 0, i;

	for (; *eps; eps++) {
		struct ep * e = *eps;

		h = ep_hash(h, e);
		n += snprintf(b + n, sizeof(b) - n, "%s sent=%zu got=%zu eof=%d "
		    "rderr=%d wrerr=%d; ", e->name, e->sent, e->got, e->eof,
		    e->rderr, e->wrerr);
		for (i = 0; i < e->nsubs; i++) {
			h = ep_hash(h, e->subs[i]);
			n += snprintf(b + n, sizeof(b) - n, "%s#%d sent=%zu "
			    "got=%zu eof=%d rderr=%d; ", e->name, i,
			    e->subs[i]->sent, e->subs[i]->got, e->subs[i]->eof,
			    e->subs[i]->rderr);
		}
		if (n > 600)
			n = 600;
	}
	x_outcome(h);
	x_sample("%s", b);
	x_trace_note("end: %s", b);
	x_leaf();
}

/* Ends of pipes and socket pairs. */
static __attribute__((unused)) struct ep *
mkend(const char * name, const char * script, int stream, int expect, struct sfile * f)
{
	struct ep * e = calloc(1, sizeof(*e));

	e->name = name;
	e->script = script;
	e->stream = stream;
	e->expect = expect;
	e->proc = w_actor(name, ep_sub, e);
	p_installfd(e->proc, 3, f);
	return (e);
}

static __attribute__((unused)) void
mkpair(int type, int dir, struct sfile ** near, struct sfile ** far)
{
	struct sfile * a, * b;

	/* dir 0: near reads, far writes. */
	if (type == 0) {
		a = mkfile(F_PIPE_R);
		b = mkfile(F_PIPE_W);
		a->rx = b->tx = mkchan();
		*near = dir ? b : a;
		*far = dir ? a : b;
	} else {
		a = mkfile(F_SOCK);
		b = mkfile(F_SOCK);
		a->family = b->family = AF_UNIX;
		a->stype = b->stype = SOCK_STREAM;
		a->state = b->state = 2;
		a->ispair = b->ispair = 1;
		a->peer = b;
		b->peer = a;
		a->rx = b->tx = mkchan();
		b->rx = a->tx = mkchan();
		*near = a;
		*far = b;
	}
}


/* Where the messages of a process have gone, and what they look like. */
static __attribute__((unused)) void
chk_words(struct proc * p, const char * prog, int syslog)
{
	const char * l, * e;
	size_t n = strlen(prog);

	/* (The option parser gives up in its own way when there is no memory.) */
	if (p == NULL || p->outlen == 0 || p->status == 1006)
		return;
	if (syslog ? p->errlen : p->loglen)
		violate("C33", "messages of %s have gone to %s: %s", p->name, syslog ? "stderr instead of syslog" : "syslog instead of stderr", w_describe(p));
	if (syslog)
		return;
	for (l = p->out; *l; l = e + 1) {
		if ((e = strchr(l, '\n')) == NULL)
			violate("C33", "an unfinished line on stderr: %s", w_describe(p));
		/* (It may not have had the memory for the name.) */
		if (p->oom && strncmp(l, "(unknown): ", 11) == 0)
			continue;
		if (strncmp(l, prog, n) || l[n] != ':' || l[n + 1] != ' ' || l + n + 2 >= e)
			violate("C33", "a message on stderr which does not say which program it comes from: %s", w_describe(p));
	}
}
#endif
