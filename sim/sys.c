/* The simulated world: system calls and the C library's I/O. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <syslog.h>

#include <openssl/bn.h>

#include <inttypes.h>
#include "sim_int.h"

#define E(e) (W.cur->err = (e), -1)
#define P (W.cur->p)
static inline int
CH(int kind, int n, const char * label)
{

	if (W.cur->p->is_actor)
		return (0);
	if (W.chfilter && !W.chfilter(W.cur->p, kind, label))
		return (0);
	n = choose(kind, n, label);
	if (n && (kind == K_SYSFAIL || kind == K_DNS || kind == K_NETERR))
		W.sysfailed++;
	return (n);
}

struct chan * allchans[2048];
int nallchans;

struct chan *
mkchan(void)
{
	struct chan * c = calloc(1, sizeof(*c));

	if (nallchans == 2048)
		machine_error("too many channels");
	c->id = nallchans;
	allchans[nallchans++] = c;
	c->cap = W.default_cap;
	return (c);
}

struct sfile *
mkfile(enum ftype t)
{
	struct sfile * f = calloc(1, sizeof(*f));

	if (W.nallfiles == 4096)
		machine_error("too many files");
	f->type = t;
	f->id = W.nallfiles;
	f->t_created = W.now;
	f->creator = W.cur ? W.cur->p : NULL;
	W.allfiles[W.nallfiles++] = f;
	return (f);
}

size_t
chan_avail(struct chan * c)
{

	return (c->loglen - c->rd);
}

int
chan_write(struct chan * c, const void * b, size_t n)
{

	if (c->loglen + n > c->logcap) {
		c->logcap = (c->loglen + n) * 2 + 4096;
		c->log = realloc(c->log, c->logcap);
	}
	memcpy(c->log + c->loglen, b, n);
	c->loglen += n;
	vc_release(&c->vc);
	return (0);
}

static size_t
chan_space(struct chan * c)
{
	size_t used = c->loglen - c->rd;

	return (used < c->cap ? c->cap - used : 0);
}

/* ------------------------------------------------------------------ */
/* Addresses: "1.2.3.4:80", "[::1]:80", "/path". */
struct saddr
mkaddr(const char * s)
{
	struct saddr a;
	char host[64];
	const char * c;

	memset(&a, 0, sizeof(a));
	if (s[0] == '/') {
		struct sockaddr_un * u = (void *)a.b;

		u->sun_family = AF_UNIX;
		strcpy(u->sun_path, s);
		a.len = sizeof(*u);
	} else if (s[0] == '[') {
		struct sockaddr_in6 * i6 = (void *)a.b;

		c = strchr(s, ']');
		memcpy(host, s + 1, c - s - 1);
		host[c - s - 1] = 0;
		i6->sin6_family = AF_INET6;
		inet_pton(AF_INET6, host, &i6->sin6_addr);
		i6->sin6_port = htons(atoi(c + 2));
		a.len = sizeof(*i6);
	} else {
		struct sockaddr_in * i4 = (void *)a.b;

		c = strchr(s, ':');
		memcpy(host, s, c - s);
		host[c - s] = 0;
		i4->sin_family = AF_INET;
		inet_pton(AF_INET, host, &i4->sin_addr);
		i4->sin_port = htons(atoi(c + 1));
		a.len = sizeof(*i4);
	}
	return (a);
}

int
saddr_eq(const struct saddr * a, const struct saddr * b)
{
	const struct sockaddr * x = (const void *)a->b, * y = (const void *)b->b;

	if (x->sa_family != y->sa_family)
		return (0);
	switch (x->sa_family) {
	case AF_UNIX:
		return (strcmp(((struct sockaddr_un *)x)->sun_path,
		    ((struct sockaddr_un *)y)->sun_path) == 0);
	case AF_INET:
		return (((struct sockaddr_in *)x)->sin_port ==
		    ((struct sockaddr_in *)y)->sin_port &&
		    ((struct sockaddr_in *)x)->sin_addr.s_addr ==
		    ((struct sockaddr_in *)y)->sin_addr.s_addr);
	case AF_INET6:
		return (((struct sockaddr_in6 *)x)->sin6_port ==
		    ((struct sockaddr_in6 *)y)->sin6_port &&
		    memcmp(&((struct sockaddr_in6 *)x)->sin6_addr,
		    &((struct sockaddr_in6 *)y)->sin6_addr, 16) == 0);
	}
	return (0);
}

static struct sfile *
find_listener(const struct saddr * a)
{
	int i;

	for (i = 0; i < W.nlisteners; i++)
		if (!W.listeners[i]->closed && W.listeners[i]->listening &&
		    saddr_eq(&W.listeners[i]->local, a))
			return (W.listeners[i]);
	return (NULL);
}

/* ------------------------------------------------------------------ */
/* Descriptors. */
static struct sfile *
fdget(int fd, const char * fn)
{
	struct proc * p = P;

	if (fd < 0 || fd >= SIM_NFD || p->fds[fd] == NULL) {
		if (!p->is_actor)
			violate("*", "%s: %s on descriptor %d, which is not open",
			    p->name, fn, fd);
		W.cur->err = EBADF;
		return (NULL);
	}
	return (p->fds[fd]);
}

static int
fdalloc(struct sfile * f)
{
	struct proc * p = P;
	int i;

	for (i = 0; i < p->nfd_max; i++) {
		if (p->fds[i] == NULL) {
			p->fds[i] = f;
			f->refs++;
			return (i);
		}
	}
	return (E(EMFILE));
}

void
p_installfd(struct proc * p, int fd, struct sfile * f)
{

	if (p->fds[fd])
		fd_release(p, fd);
	p->fds[fd] = f;
	f->refs++;
}

static void
do_reset(struct sfile * f)
{

	/* The peer of f sees a reset. */
	if (f->peer && !f->peer->closed)
		f->peer->reset = 1;
}

void
fd_release(struct proc * p, int fd)
{
	struct sfile * f = p->fds[fd];
	int i;

	p->fds[fd] = NULL;
	if (--f->refs > 0)
		return;
	f->closed = 1;
	f->t_closed = W.now;
	if (f->type == F_LISTEN || f->listening) {
		for (i = 0; i < f->nbacklog; i++) {
			struct sfile * s = f->backlog[i];

			if (s->peer)
				s->peer->reset = 1;
			s->closed = 1;
			s->rx->rclosed = 1;
			s->tx->wclosed = 1;
		}
		f->nbacklog = 0;
		f->listening = 0;
	}
	if (f->rx) {
		if (f->type == F_SOCK && f->family != AF_UNIX &&
		    chan_avail(f->rx) > 0)
			do_reset(f);
		f->rx->rclosed = 1;
	}
	if (f->tx) {
		f->tx->wclosed = 1;
		vc_release(&f->tx->vc);
	}
}

int
w_openfds(struct proc * p)
{
	int i, n = 0;

	for (i = 0; i < SIM_NFD; i++)
		if (p->fds[i])
			n++;
	return (n);
}

struct sfile *
a_file(int fd)
{

	return (P->fds[fd]);
}

int
sim_close(int fd)
{
	struct sfile * f;

	sys_enter("close");
	if ((f = fdget(fd, "close")) == NULL)
		return (-1);
	x_trace_note("%s: close(%d)", P->name, fd);
	fd_release(P, fd);
	return (0);
}

int
sim_socket(int fam, int ty, int proto)
{
	struct sfile * f;
	int fd;

	(void)proto;
	sys_enter("socket");
	if (CH(K_SYSFAIL, 2, "socket"))
		return (E(EMFILE));
	f = mkfile(F_SOCK);
	f->family = fam;
	f->stype = ty & 0xf;
	if (ty & SOCK_NONBLOCK)
		f->nonblock = 1;
	if ((fd = fdalloc(f)) == -1) {
		f->closed = 1;
		return (-1);
	}
	P->open_sockets_made++;
	x_trace_note("%s: socket() = %d", P->name, fd);
	return (fd);
}

int
sim_socketpair(int fam, int ty, int proto, int s[2])
{
	struct sfile * a, * b;

	(void)proto;
	sys_enter("socketpair");
	if (CH(K_SYSFAIL, 2, "socketpair"))
		return (E(EMFILE));
	a = mkfile(F_SOCK);
	b = mkfile(F_SOCK);
	a->family = b->family = fam;
	a->stype = b->stype = ty & 0xf;
	a->state = b->state = 2;
	a->ispair = b->ispair = 1;
	a->peer = b;
	b->peer = a;
	a->rx = b->tx = mkchan();
	b->rx = a->tx = mkchan();
	if ((s[0] = fdalloc(a)) == -1) {
		a->closed = b->closed = 1;
		return (-1);
	}
	if ((s[1] = fdalloc(b)) == -1) {
		fd_release(P, s[0]);
		b->closed = 1;
		return (-1);
	}
	sim_access(s, 8, 1);
	return (0);
}

int
sim_pipe(int s[2])
{
	struct sfile * a, * b;

	sys_enter("pipe");
	if (CH(K_SYSFAIL, 2, "pipe"))
		return (E(EMFILE));
	a = mkfile(F_PIPE_R);
	b = mkfile(F_PIPE_W);
	a->rx = b->tx = mkchan();
	if ((s[0] = fdalloc(a)) == -1) {
		a->closed = b->closed = 1;
		return (-1);
	}
	if ((s[1] = fdalloc(b)) == -1) {
		fd_release(P, s[0]);
		b->closed = 1;
		return (-1);
	}
	return (0);
}
/* The read end of a pipe whose other end the scenario feeds. */
struct sfile *
mkpipe_r(struct chan ** c)
{
	struct sfile * f = mkfile(F_PIPE_R);

	*c = f->rx = mkchan();
	return (f);
}
int sim_pipe2(int s[2], int fl) { int rc = sim_pipe(s); if (rc == 0 && (fl & O_NONBLOCK)) P->fds[s[0]]->nonblock = P->fds[s[1]]->nonblock = 1; return (rc); }

int
sim_bind(int fd, const struct sockaddr * sa, socklen_t len)
{
	struct sfile * f;

	sys_enter("bind");
	sim_access(sa, len, 0);
	if ((f = fdget(fd, "bind")) == NULL)
		return (-1);
	if (CH(K_SYSFAIL, 2, "bind"))
		return (E(EADDRINUSE));
	memset(&f->local, 0, sizeof(f->local));
	memcpy(f->local.b, sa, len);
	f->local.len = len;
	f->isbound = 1;
	x_trace_note("%s: bind(%d)", P->name, fd);
	return (0);
}

int
sim_listen(int fd, int bl)
{
	struct sfile * f;

	(void)bl;
	sys_enter("listen");
	if ((f = fdget(fd, "listen")) == NULL)
		return (-1);
	if (CH(K_SYSFAIL, 2, "listen"))
		return (E(EADDRINUSE));
	if (find_listener(&f->local))
		return (E(EADDRINUSE));
	f->listening = 1;
	if (W.nlisteners == 32)
		machine_error("listeners");
	W.listeners[W.nlisteners++] = f;
	x_trace_note("%s: listen(%d)", P->name, fd);
	return (0);
}

static void
establish(struct sfile * f)
{
	struct sfile * l, * s;

	if (f->closed || f->state != 1)
		return;
	if ((l = find_listener(&f->remote)) == NULL || l->nbacklog == SIM_BACKLOG) {
		f->state = 3;
		f->err = ECONNREFUSED;
		return;
	}
	s = mkfile(F_SOCK);
	s->creator = NULL;
	s->family = f->family;
	s->stype = f->stype;
	s->state = 2;
	s->peer = f;
	f->peer = s;
	s->rx = f->tx = mkchan();
	s->tx = f->rx = mkchan();
	s->local = l->local;
	s->remote = f->local;
	f->state = 2;
	f->t_conn = s->t_conn = W.now;
	l->backlog[l->nbacklog++] = s;
}

static void establish_cb(void * a) { establish(a); }
static void
refuse_cb(void * a)
{
	struct sfile * f = a;

	if (!f->closed && f->state == 1) {
		f->state = 3;
		f->err = W.cerr ? W.cerr : ECONNREFUSED;
	}
}

static int
connected_p(struct thr * t)
{

	return (((struct sfile *)t->a0)->state != 1);
}

int
sim_connect(int fd, const struct sockaddr * sa, socklen_t len)
{
	struct sfile * f, * l;
	int pol = CP_DEFAULT, c, err = W.cerr ? W.cerr : ECONNREFUSED;
	uint64_t delay = SEC;

	sys_enter("connect");
	sim_access(sa, len, 0);
	if ((f = fdget(fd, "connect")) == NULL)
		return (-1);
	if (f->state == 1)
		return (E(EALREADY));
	if (f->state == 2)
		return (E(EISCONN));
	memset(&f->remote, 0, sizeof(f->remote));
	memcpy(f->remote.b, sa, len);
	f->remote.len = len;
	l = find_listener(&f->remote);
	if (!P->is_actor && W.connect_policy)
		pol = W.connect_policy(P, &f->remote, &delay);
	if (pol == CP_DEFAULT) {
		pol = l ? CP_ASYNC_OK : CP_REFUSE_ASYNC;
		c = CH(K_CONNECT, 8, "connect");
		if (c == 1 && l)
			pol = CP_IMMEDIATE;
		else if (c == 2)
			pol = CP_REFUSE_ASYNC;
		else if (c == 3)
			pol = CP_REFUSE_SYNC;
		else if (c == 4)
			pol = CP_BLACKHOLE;
		else if (c == 5) {
			pol = CP_SLOW_OK;
			delay = SEC / 10;
		} else if (c == 6) {
			pol = CP_REFUSE_ASYNC;
			err = ETIMEDOUT;
		} else if (c == 7) {
			pol = CP_REFUSE_SYNC;
			err = ENETUNREACH;
		}
	}
	x_trace_note("%s: connect(%d) policy %d", P->name, fd, pol);
	f->state = 1;
	switch (pol) {
	case CP_REFUSE_SYNC:
		f->state = 0;
		return (E(err));
	case CP_IMMEDIATE:
		establish(f);
		if (f->state == 3) {
			f->state = 0;
			return (E(ECONNREFUSED));
		}
		return (0);
	case CP_ASYNC_OK:
		establish(f);
		break;
	case CP_REFUSE_ASYNC:
		f->state = 3;
		f->err = err;
		break;
	case CP_BLACKHOLE:
		break;
	case CP_SLOW_OK:
		w_timer(W.now + delay, establish_cb, f);
		break;
	case CP_SLOW_REFUSE:
		w_timer(W.now + delay, refuse_cb, f);
		break;
	}
	if (f->nonblock) {
		if (CH(K_EINTR, 2, "connect-EINTR"))
			return (E(EINTR));
		return (E(EINPROGRESS));
	}
	W.cur->a0 = f;
	block(connected_p, UINT64_MAX, 0, "connect");
	if (f->state == 3) {
		err = f->err;
		f->err = 0;
		return (E(err));
	}
	return (0);
}

static int
accept_p(struct thr * t)
{

	return (((struct sfile *)t->a0)->nbacklog > 0);
}

int
sim_accept4(int fd, struct sockaddr * sa, socklen_t * len, int flags)
{
	struct sfile * f, * s;
	int nfd;

	sys_enter("accept");
	if ((f = fdget(fd, "accept")) == NULL)
		return (-1);
	if (!f->listening)
		return (E(EINVAL));
	if (f->nbacklog == 0) {
		if (f->nonblock)
			return (E(EAGAIN));
		W.cur->a0 = f;
		if (block(accept_p, UINT64_MAX, 1, "accept"))
			return (E(EINTR));
	}
	if (CH(K_EINTR, 2, "accept-EINTR"))
		return (E(EINTR));
	if (CH(K_EAGAIN, 2, "accept-EAGAIN"))
		return (E(EAGAIN));
	s = f->backlog[0];
	if (s->aborted || CH(K_NETERR, 2, "accept-ECONNABORTED")) {
		memmove(f->backlog, f->backlog + 1, --f->nbacklog * sizeof(f->backlog[0]));
		s->closed = 1;
		s->rx->rclosed = 1;
		s->tx->wclosed = 1;
		do_reset(s);
		return (E(ECONNABORTED));
	}
	if (CH(K_SYSFAIL, 2, "accept"))
		return (E(EMFILE));
	if ((nfd = fdalloc(s)) == -1)
		return (-1);
	memmove(f->backlog, f->backlog + 1, --f->nbacklog * sizeof(f->backlog[0]));
	s->creator = P;
	s->accepted = 1;
	s->t_acc = W.now;
	if (flags & SOCK_NONBLOCK)
		s->nonblock = 1;
	if (sa && len) {
		memcpy(sa, s->remote.b, *len < s->remote.len ? *len : s->remote.len);
		*len = s->remote.len;
	}
	P->open_sockets_made++;
	x_trace_note("%s: accept(%d) = %d", P->name, fd, nfd);
	return (nfd);
}
int sim_accept(int fd, struct sockaddr * sa, socklen_t * len) { return (sim_accept4(fd, sa, len, 0)); }

/* ------------------------------------------------------------------ */
/* Data transfer. */
static const int neterrs[] = { 0, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETDOWN, ENOBUFS };

static int
rd_ready(struct sfile * f)
{

	switch (f->type) {
	case F_SOCK:
		if (f->listening)
			return (f->nbacklog > 0);
		if (f->state == 3)
			return (1);
		if (f->state != 2)
			return (0);
		return (chan_avail(f->rx) > 0 || f->rx->wclosed || f->reset ||
		    f->shut_rd);
	case F_PIPE_R:
		return (chan_avail(f->rx) > 0 || f->rx->wclosed);
	case F_PIPE_W:
		return (0);
	default:
		return (1);
	}
}

static int
wr_ready(struct sfile * f)
{

	switch (f->type) {
	case F_SOCK:
		if (f->state == 3)
			return (1);
		if (f->state != 2)
			return (0);
		return (chan_space(f->tx) > 0 || f->tx->rclosed || f->reset ||
		    f->shut_wr);
	case F_PIPE_W:
		return (chan_space(f->tx) > 0 || f->tx->rclosed);
	case F_PIPE_R:
		return (0);
	default:
		return (1);
	}
}

static int rd_p(struct thr * t) { return (rd_ready(t->a0)); }
static int wr_p(struct thr * t) { return (wr_ready(t->a0)); }

static ssize_t
do_read(int fd, void * buf, size_t n, int flags, const char * nm)
{
	struct sfile * f;
	size_t k;
	int c, rc, waited = 0;

	sys_enter(nm);
	thr_cancel_check();
	if ((f = fdget(fd, nm)) == NULL)
		return (-1);
	if (n == 0)
		return (0);
again:
	switch (f->type) {
	case F_NULL:
		return (0);
	case F_URANDOM:
		if ((c = CH(K_SYSFAIL, 3, "urandom-read")) != 0)
			return (c == 1 ? E(EIO) : 0);
		/* Reads of at most 256 bytes are not interruptible. */
		if (n > 256 && CH(K_EINTR, 2, "urandom-EINTR"))
			return (E(EINTR));
		k = n;
		c = CH(K_SHORTR, 3, "urandom-short");
		if (c == 1)
			k = 1;
		else if (c == 2)
			k = (n + 1) / 2;
		{
			size_t i;

			sim_access(buf, k, 1);
			for (i = 0; i < k; i++) {
				uint64_t z = (P->prng += 0x9e3779b97f4a7c15ULL);

				z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
				z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
				((uint8_t *)buf)[i] = (uint8_t)(z ^ (z >> 31));
			}
		}
		return (k);
	case F_FILE:
		if (f->inode->isdir)
			return (E(EISDIR));
		k = f->inode->len > f->off ? f->inode->len - f->off : 0;
		if (k > n)
			k = n;
		if (f->inode->errat && f->off + k >= (size_t)f->inode->errat - 1 && f->off <= (size_t)f->inode->errat - 1) {
			if ((k = f->inode->errat - 1 - f->off) == 0)
				return (E(EIO));
		}
		if (k > 1) {
			c = CH(K_SHORTR, 2, "file-short");
			if (c)
				k = 1;
		}
		sim_access(buf, k, 1);
		memcpy(buf, f->inode->data + f->off, k);
		f->off += k;
		return (k);
	case F_SOCK:
		if (f->state != 2)
			return (E(f->state == 0 ? ENOTCONN : f->state == 1 ?
			    EAGAIN : f->err ? (f->err) : ENOTCONN));
		/* FALLTHROUGH */
	case F_PIPE_R:
		break;
	default:
		return (E(EBADF));
	}
	if (!rd_ready(f)) {
		if (f->nonblock || (flags & MSG_DONTWAIT))
			return (E(EAGAIN));
		W.cur->a0 = f;
		W.cur->at_cancel_point = 1;
		rc = block(rd_p, UINT64_MAX, 1, nm);
		W.cur->at_cancel_point = 0;
		if (rc == 3)
			thr_do_cancel();
		if (rc == 2)
			return (E(EINTR));
		waited = 1;
		goto again;
	}
	/* A blocking read is only interrupted while it waits. */
	if ((waited || f->nonblock) && CH(K_EINTR, 2, "read-EINTR"))
		return (E(EINTR));
	if (f->nonblock && CH(K_EAGAIN, 2, "read-EAGAIN"))
		return (E(EAGAIN));
	if (f->type == F_SOCK && f->family != AF_UNIX &&
	    (c = CH(K_NETERR, W.nerrs ? W.nerrs : 2, "read-reset"))) {
		f->reset = 1;
		do_reset(f);
		x_trace_note("%s: connection on %d reset", P->name, fd);
		return (E(neterrs[c]));
	}
	if (f->shut_rd)
		return (0);
	k = chan_avail(f->rx);
	if (k == 0 && f->reset)
		return (E(ECONNRESET));
	if (k > n)
		k = n;
	if (k > 1) {
		c = CH(K_SHORTR, W.ncuts ? W.ncuts : 3, "short-read");
		k = c == 1 ? 1 : c == 2 ? k - 1 : c == 3 ? k / 2 : c == 4 ? k - (k + 9) / 10 : c == 5 ? (k + 3) / 4 : k;
	}
	sim_access(buf, k, 1);
	memcpy(buf, f->rx->log + f->rx->rd, k);
	if (!(flags & MSG_PEEK))
		f->rx->rd += k;
	vc_acquire(&f->rx->vc);
	x_trace_note("%s: %s(%d, %zu) = %zu", P->name, nm, fd, n, k);
	return (k);
}

ssize_t sim_read(int fd, void * b, size_t n) { return (do_read(fd, b, n, 0, "read")); }
ssize_t sim_recv(int fd, void * b, size_t n, int fl) { return (do_read(fd, b, n, fl, "recv")); }
ssize_t sim_recvfrom(int fd, void * b, size_t n, int fl, void * a, void * l) { (void)a; (void)l; return (do_read(fd, b, n, fl, "recv")); }

static ssize_t
sigpipe(int nosig)
{

	if (!nosig && !P->is_actor) {
		P->sig_pending[SIGPIPE] = 1;
		if (W.cur == P->mainthr)
			sig_check();
		else if (P->sighand[SIGPIPE] == (void *)SIG_DFL)
			proc_die(P, 1000 + SIGPIPE);
	}
	return (E(EPIPE));
}

static ssize_t
do_write(int fd, const void * buf, size_t n, int flags, const char * nm)
{
	struct sfile * f;
	size_t k;
	int c, rc, waited = 0;

	sys_enter(nm);
	thr_cancel_check();
	if ((f = fdget(fd, nm)) == NULL)
		return (-1);
again:
	switch (f->type) {
	case F_NULL:
		return (n);
	case F_FILE:
		sim_access(buf, n, 0);
		if (n && CH(K_SYSFAIL, 2, "file-write"))
			return (E(ENOSPC));
		if (f->off + n > f->inode->len)
			f->inode->data = realloc(f->inode->data, f->off + n + 1);
		memcpy(f->inode->data + f->off, buf, n);
		f->off += n;
		if (f->off > f->inode->len)
			f->inode->len = f->off;
		return (n);
	case F_SOCK:
		if (f->state != 2)
			return (E(ENOTCONN));
		if (f->shut_wr)
			return (sigpipe(flags & MSG_NOSIGNAL));
		if (f->reset) {
			return (sigpipe(flags & MSG_NOSIGNAL));
		}
		if (f->tx->rclosed) {
			if (f->family == AF_UNIX)
				return (sigpipe(flags & MSG_NOSIGNAL));
			/* The data is lost; a reset comes back. */
			sim_access(buf, n, 0);
			f->reset = 1;
			return (n);
		}
		break;
	case F_PIPE_W:
		if (f->tx->rclosed)
			return (sigpipe(0));
		break;
	default:
		return (E(EBADF));
	}
	if (n == 0)
		return (0);
	if (chan_space(f->tx) == 0) {
		if (f->nonblock || (flags & MSG_DONTWAIT))
			return (E(EAGAIN));
		W.cur->a0 = f;
		W.cur->at_cancel_point = 1;
		rc = block(wr_p, UINT64_MAX, 1, nm);
		W.cur->at_cancel_point = 0;
		if (rc == 3)
			thr_do_cancel();
		if (rc == 2)
			return (E(EINTR));
		waited = 1;
		goto again;
	}
	if ((waited || f->nonblock) && CH(K_EINTR, 2, "write-EINTR"))
		return (E(EINTR));
	if (f->nonblock && CH(K_EAGAIN, 2, "write-EAGAIN"))
		return (E(EAGAIN));
	if (f->type == F_SOCK && f->family != AF_UNIX &&
	    (c = CH(K_NETERR, W.nerrs ? W.nerrs : 2, "write-reset"))) {
		f->reset = 1;
		do_reset(f);
		x_trace_note("%s: connection on %d reset", P->name, fd);
		return (E(neterrs[c]));
	}
	k = chan_space(f->tx);
	if (k > n)
		k = n;
	if (k > 1) {
		c = CH(K_SHORTW, W.ncuts ? W.ncuts : 3, "short-write");
		k = c == 1 ? 1 : c == 2 ? k - 1 : c == 3 ? k / 2 : c == 4 ? k - (k + 9) / 10 : c == 5 ? (k + 3) / 4 : k;
	}
	sim_access(buf, k, 0);
	chan_write(f->tx, buf, k);
	x_trace_note("%s: %s(%d, %zu) = %zu", P->name, nm, fd, n, k);
	return (k);
}

ssize_t sim_write(int fd, const void * b, size_t n) { return (do_write(fd, b, n, 0, "write")); }
ssize_t sim_send(int fd, const void * b, size_t n, int fl) { return (do_write(fd, b, n, fl, "send")); }
ssize_t sim_sendto(int fd, const void * b, size_t n, int fl, const void * a, socklen_t l) { (void)a; (void)l; return (do_write(fd, b, n, fl, "send")); }

static ssize_t
vio(int fd, const struct iovec * iov, int cnt, int wr, int fl)
{
	ssize_t tot = 0, r;
	int i;

	for (i = 0; i < cnt; i++) {
		if (iov[i].iov_len == 0)
			continue;
		r = wr ? do_write(fd, iov[i].iov_base, iov[i].iov_len,
		    tot ? fl | MSG_DONTWAIT : fl, "writev") :
		    do_read(fd, iov[i].iov_base, iov[i].iov_len,
		    tot ? fl | MSG_DONTWAIT : fl, "readv");
		if (r == -1)
			return (tot ? tot : -1);
		tot += r;
		if ((size_t)r < iov[i].iov_len)
			break;
	}
	return (tot);
}
ssize_t sim_readv(int fd, const struct iovec * v, int n) { return (vio(fd, v, n, 0, 0)); }
ssize_t sim_writev(int fd, const struct iovec * v, int n) { return (vio(fd, v, n, 1, 0)); }
ssize_t sim_sendmsg(int fd, const struct msghdr * m, int fl) { return (vio(fd, m->msg_iov, m->msg_iovlen, 1, fl)); }
ssize_t sim_recvmsg(int fd, struct msghdr * m, int fl) { return (vio(fd, m->msg_iov, m->msg_iovlen, 0, fl)); }

int
sim_shutdown(int fd, int how)
{
	struct sfile * f;
	int c;

	sys_enter("shutdown");
	if ((f = fdget(fd, "shutdown")) == NULL)
		return (-1);
	if (f->type != F_SOCK)
		return (E(ENOTSOCK));
	if (f->state != 2)
		return (E(ENOTCONN));
	if (f->reset && (c = CH(K_NETERR, 3, "shutdown-ENOTCONN")))
		return (E(c == 1 ? ENOTCONN : ECONNRESET));
	x_trace_note("%s: shutdown(%d, %d)", P->name, fd, how);
	if (how == SHUT_WR || how == SHUT_RDWR) {
		f->shut_wr = 1;
		f->tx->wclosed = 1;
		vc_release(&f->tx->vc);
	}
	if (how == SHUT_RD || how == SHUT_RDWR)
		f->shut_rd = 1;
	return (0);
}

int
sim_getsockopt(int fd, int lev, int opt, void * val, socklen_t * len)
{
	struct sfile * f;
	int i;

	sys_enter("getsockopt");
	if ((f = fdget(fd, "getsockopt")) == NULL)
		return (-1);
	if (f->type != F_SOCK)
		return (E(ENOTSOCK));
	if (*len < sizeof(int))
		return (E(EINVAL));
	sim_access(val, sizeof(int), 1);
	*len = sizeof(int);
	if (lev == SOL_SOCKET && opt == SO_ERROR) {
		*(int *)val = f->err;
		if (f->err == 0 && f->reset)
			*(int *)val = ECONNRESET;
		f->err = 0;
		return (0);
	}
	*(int *)val = 0;
	if (lev == SOL_SOCKET && opt == SO_TYPE)
		*(int *)val = f->stype;
	for (i = 0; i < f->nso; i++)
		if (f->so[i].level == lev && f->so[i].opt == opt)
			*(int *)val = f->so[i].val;
	return (0);
}

int
sock_opt(struct sfile * f, int lev, int opt, int * val)
{
	int i, found = 0;

	for (i = 0; i < f->nso; i++)
		if (f->so[i].level == lev && f->so[i].opt == opt) {
			*val = f->so[i].val;
			found = 1;
		}
	return (found);
}

int
sim_setsockopt(int fd, int lev, int opt, const void * val, socklen_t len)
{
	struct sfile * f;
	int v = 0;

	sys_enter("setsockopt");
	sim_access(val, len, 0);
	if ((f = fdget(fd, "setsockopt")) == NULL)
		return (-1);
	if (f->type != F_SOCK)
		return (E(ENOTSOCK));
	if (lev == IPPROTO_TCP && f->family == AF_UNIX)
		return (E(EOPNOTSUPP));
	if (CH(K_SYSFAIL, 2, "setsockopt")) {
		f->sofail++;
		return (E(ENOBUFS));
	}
	memcpy(&v, val, len < sizeof(v) ? len : sizeof(v));
	if (f->nso < 16) {
		f->so[f->nso].level = lev;
		f->so[f->nso].opt = opt;
		f->so[f->nso].val = v;
		f->nso++;
	}
	return (0);
}

int
sim_getsockname(int fd, struct sockaddr * sa, socklen_t * len)
{
	struct sfile * f = fdget(fd, "getsockname");

	if (f == NULL)
		return (-1);
	memcpy(sa, f->local.b, *len < f->local.len ? *len : f->local.len);
	*len = f->local.len;
	return (0);
}

int
sim_getpeername(int fd, struct sockaddr * sa, socklen_t * len)
{
	struct sfile * f = fdget(fd, "getpeername");

	if (f == NULL)
		return (-1);
	if (f->state != 2)
		return (E(ENOTCONN));
	memcpy(sa, f->remote.b, *len < f->remote.len ? *len : f->remote.len);
	*len = f->remote.len;
	return (0);
}

int
sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long arg;
	struct sfile * f;

	sys_enter("fcntl");
	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	if ((f = fdget(fd, "fcntl")) == NULL)
		return (-1);
	if (CH(K_SYSFAIL, 2, "fcntl"))
		return (E(EIO));
	switch (cmd) {
	case F_GETFL:
		return (O_RDWR | (f->nonblock ? O_NONBLOCK : 0));
	case F_SETFL:
		f->nonblock = !!((int)arg & O_NONBLOCK);
		return (0);
	case F_GETFD:
	case F_SETFD:
		return (0);
	}
	return (E(EINVAL));
}

int
sim_ioctl(int fd, unsigned long req, void * arg)
{
	struct sfile * f = fdget(fd, "ioctl");

	if (f == NULL)
		return (-1);
	if (req == 0x5421) {	/* FIONBIO */
		f->nonblock = !!*(int *)arg;
		return (0);
	}
	return (E(ENOTTY));
}

static int
pollbits(struct sfile * f, int ev)
{
	int r = 0;

	if (rd_ready(f))
		r |= POLLIN | POLLRDNORM;
	if (wr_ready(f))
		r |= POLLOUT | POLLWRNORM;
	r &= ev;
	if (f->type == F_SOCK && !f->listening) {
		if (f->state == 3 || f->reset)
			r |= POLLERR | POLLHUP;
		else if (f->state == 2) {
			if (f->family == AF_UNIX ? f->rx->wclosed && f->tx->rclosed :
			    (f->rx->wclosed && f->shut_wr))
				r |= POLLHUP;
		} else if (f->state == 0)
			r |= POLLHUP | (ev & POLLOUT);
	}
	if (f->type == F_PIPE_R && f->rx->wclosed)
		r |= POLLHUP;
	if (f->type == F_PIPE_W && f->tx->rclosed)
		r |= POLLERR;
	return (r);
}

static int
poll_p(struct thr * t)
{
	struct pollfd * pf = t->a0;
	long i;

	for (i = 0; i < t->a1; i++) {
		struct sfile * f;

		if (pf[i].fd < 0)
			continue;
		if (pf[i].fd >= SIM_NFD || (f = t->p->fds[pf[i].fd]) == NULL)
			return (1);
		if (pollbits(f, pf[i].events))
			return (1);
	}
	return (0);
}

static int
do_poll(struct pollfd * pf, unsigned long n, uint64_t deadline)
{
	int rc, cnt = 0, c, k;
	unsigned long i;

	sys_enter("poll");
	thr_cancel_check();
	sim_access(pf, n * sizeof(*pf), 0);
	if (CH(K_EINTR, 2, "poll-EINTR"))
		return (E(EINTR));
	W.cur->a0 = pf;
	W.cur->a1 = n;
	W.cur->at_cancel_point = 1;
	if (deadline <= W.now)
		rc = !poll_p(W.cur);
	else
		rc = block(poll_p, deadline, 1, "poll");
	W.cur->at_cancel_point = 0;
	if (rc == 3)
		thr_do_cancel();
	if (rc == 2)
		return (E(EINTR));
	for (i = 0; i < n; i++) {
		pf[i].revents = 0;
		if (pf[i].fd < 0)
			continue;
		if (pf[i].fd >= SIM_NFD || P->fds[pf[i].fd] == NULL) {
			violate("*", "%s: poll on descriptor %d, which is not "
			    "open", P->name, pf[i].fd);
			pf[i].revents = POLLNVAL;
		} else
			pf[i].revents = pollbits(P->fds[pf[i].fd],
			    pf[i].events);
		if (pf[i].revents)
			cnt++;
	}
	sim_access(pf, n * sizeof(*pf), 1);
	/* Report just one of several ready descriptors? */
	if (cnt > 1 && (c = CH(K_POLLSUB, cnt + 1, "poll-subset")) != 0) {
		for (i = 0, k = 0; i < n; i++)
			if (pf[i].revents && ++k != c)
				pf[i].revents = 0;
		cnt = 1;
	}
	if (x_replaying() || x_verbose > 1) {
		char b[200] = "";
		size_t l = 0;

		for (i = 0; i < n && l < 150; i++)
			l += snprintf(b + l, sizeof(b) - l, " %d:%x/%x",
			    pf[i].fd, pf[i].revents, pf[i].events);
		x_trace_note("%s: poll =%s", P->name, b);
	}
	return (cnt);
}

int
sim_poll(struct pollfd * pf, unsigned long n, int ms)
{

	return (do_poll(pf, n, ms < 0 ? UINT64_MAX : W.now +
	    (uint64_t)ms * 1000000));
}

int
sim_ppoll(struct pollfd * pf, unsigned long n, const struct timespec * ts, const void * ss)
{

	(void)ss;
	return (do_poll(pf, n, ts == NULL ? UINT64_MAX : W.now +
	    ts->tv_sec * SEC + ts->tv_nsec));
}

static int
do_select(int n, fd_set * r, fd_set * w, uint64_t dl)
{
	struct pollfd pf[SIM_NFD];
	int i, k = 0, rc, cnt = 0;

	for (i = 0; i < n && i < SIM_NFD; i++) {
		int ev = 0;

		if (r && FD_ISSET(i, r))
			ev |= POLLIN;
		if (w && FD_ISSET(i, w))
			ev |= POLLOUT;
		if (ev) {
			pf[k].fd = i;
			pf[k++].events = ev;
		}
	}
	if ((rc = do_poll(pf, k, dl)) == -1)
		return (-1);
	if (r)
		FD_ZERO(r);
	if (w)
		FD_ZERO(w);
	for (i = 0; i < k; i++) {
		if (r && (pf[i].events & POLLIN) && (pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
			FD_SET(pf[i].fd, r);
			cnt++;
		}
		if (w && (pf[i].events & POLLOUT) && (pf[i].revents & (POLLOUT | POLLERR))) {
			FD_SET(pf[i].fd, w);
			cnt++;
		}
	}
	return (cnt);
}
int sim_select(int n, fd_set * r, fd_set * w, fd_set * e, struct timeval * tv) { (void)e; return (do_select(n, r, w, tv ? W.now + tv->tv_sec * SEC + tv->tv_usec * 1000 : UINT64_MAX)); }
int sim_pselect(int n, fd_set * r, fd_set * w, fd_set * e, const struct timespec * tv, const void * ss) { (void)e; (void)ss; return (do_select(n, r, w, tv ? W.now + tv->tv_sec * SEC + tv->tv_nsec : UINT64_MAX)); }

int sim_dup(int fd) { struct sfile * f = fdget(fd, "dup"); return (f ? fdalloc(f) : -1); }
int
sim_dup2(int a, int b)
{
	struct sfile * f = fdget(a, "dup2");

	sys_enter("dup2");
	if (f == NULL || b < 0 || b >= SIM_NFD)
		return (-1);
	if (a != b) {
		if (P->fds[b])
			fd_release(P, b);
		P->fds[b] = f;
		f->refs++;
	}
	return (b);
}

/* ------------------------------------------------------------------ */
/* Files. */
struct simfile *
w_lookup(const char * path)
{
	struct simfile * s;

	for (s = W.fs; s; s = s->next)
		if (!strcmp(s->path, path) && s->exists)
			return (s);
	return (NULL);
}

void
w_file(const char * path, const void * data, size_t len)
{
	struct simfile * s = w_lookup(path);

	if (s == NULL) {
		s = calloc(1, sizeof(*s));
		snprintf(s->path, sizeof(s->path), "%s", path);
		s->next = W.fs;
		W.fs = s;
	}
	s->exists = 1;
	s->data = malloc(len + 1);
	if (len)
		memcpy(s->data, data, len);
	s->len = len;
}

int
sim_open(const char * path, int flags, ...)
{
	struct sfile * f;
	struct simfile * s;

	sys_enter("open");
	if (CH(K_SYSFAIL, 2, "open"))
		return (E(EMFILE));
	if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
		f = mkfile(F_URANDOM);
		return (fdalloc(f));
	}
	if (!strcmp(path, "/dev/null"))
		return (fdalloc(mkfile(F_NULL)));
	if ((s = w_lookup(path)) == NULL) {
		if (!(flags & O_CREAT))
			return (E(ENOENT));
		w_file(path, "", 0);
		s = w_lookup(path);
	} else if ((flags & O_CREAT) && (flags & O_EXCL))
		return (E(EEXIST));
	if (s->noperm)
		return (E(EACCES));
	if (s->isdir && (flags & (O_WRONLY | O_RDWR)))
		return (E(EISDIR));
	if (flags & O_TRUNC)
		s->len = 0;
	f = mkfile(F_FILE);
	if (flags & O_APPEND)
		f->off = s->len;
	f->inode = s;
	f->oflags = flags;
	return (fdalloc(f));
}
int sim_open64(const char * path, int flags, ...) { return (sim_open(path, flags, 0)); }
int sim_openat(int d, const char * path, int flags, ...) { (void)d; return (sim_open(path, flags, 0)); }
int sim_creat(const char * path, int m) { (void)m; return (sim_open(path, O_CREAT | O_TRUNC | O_WRONLY, 0)); }
int sim_unlink(const char * path) { struct simfile * s = w_lookup(path); sys_enter("unlink"); if (!s) return (E(ENOENT)); s->exists = 0; return (0); }
int sim_remove(const char * path) { return (sim_unlink(path)); }
int sim_rename(const char * a, const char * b) { struct simfile * s = w_lookup(a), * d; if (!s) return (E(ENOENT)); if ((d = w_lookup(b))) d->exists = 0; snprintf(s->path, sizeof(s->path), "%s", b); return (0); }
int sim_access_(const char * p, int m) { (void)m; return (w_lookup(p) ? 0 : E(ENOENT)); }
int sim_fsync(int fd) { (void)fd; sys_enter("fsync"); return (0); }
int sim_isatty(int fd) { (void)fd; return (E(ENOTTY) + 1); }
off_t sim_lseek(int fd, off_t o, int wh) { struct sfile * f = fdget(fd, "lseek"); if (!f || f->type != F_FILE) return (E(ESPIPE)); f->off = wh == 0 ? o : wh == 1 ? (off_t)f->off + o : (off_t)f->inode->len + o; return (f->off); }
int sim_fstat(int fd, struct stat * st) { struct sfile * f = fdget(fd, "fstat"); if (!f) return (-1); memset(st, 0, sizeof(*st)); st->st_mode = f->type == F_FILE ? S_IFREG | 0600 : f->type == F_SOCK ? S_IFSOCK : S_IFIFO; if (f->inode) st->st_size = f->inode->len; return (0); }
int sim_stat(const char * p, struct stat * st) { struct simfile * s = w_lookup(p); if (!s) return (E(ENOENT)); memset(st, 0, sizeof(*st)); st->st_mode = S_IFREG | 0600; st->st_size = s->len; return (0); }
int sim_chdir(const char * p) { (void)p; sys_enter("chdir"); return (0); }
unsigned sim_umask(unsigned m) { (void)m; return (022); }

/* stdio */
struct simFILE { int magic; int fd; int eof, err; int unget; int secret; uint8_t * wb; size_t wlen; };
static struct simFILE fstd[3] = { { 0x51F11E, 0, 0, 0, -1, 0 }, { 0x51F11E, 1, 0, 0, -1, 0 }, { 0x51F11E, 2, 0, 0, -1, 0 } };
struct simFILE * sim_stdin = &fstd[0], * sim_stdout = &fstd[1], * sim_stderr = &fstd[2];

struct simFILE *
sim_fopen(const char * path, const char * mode)
{
	struct simFILE * f;
	int fd, fl = 0;

	if (mode[0] == 'w')
		fl = O_CREAT | O_TRUNC | O_WRONLY;
	else if (mode[0] == 'a')
		fl = O_CREAT | O_APPEND | O_WRONLY;
	if ((fd = sim_open(path, fl, 0666)) == -1)
		return (NULL);
	f = calloc(1, sizeof(*f));
	f->magic = 0x51F11E;
	f->fd = fd;
	f->unget = -1;
	P->fopen_live++;
	return (f);
}
struct simFILE * sim_fopen64(const char * p, const char * m) { return (sim_fopen(p, m)); }
struct simFILE * sim_fdopen(int fd, const char * m) { struct simFILE * f; (void)m; f = calloc(1, sizeof(*f)); f->magic = 0x51F11E; f->fd = fd; f->unget = -1; P->fopen_live++; return (f); }

static void
fchk(struct simFILE * f, const char * fn)
{

	if (f == NULL || f->magic != 0x51F11E)
		violate("*", "%s: %s on a bad or closed FILE", P->name, fn);
}

static int
fwflush(struct simFILE * f)
{
	size_t d = 0;
	ssize_t r;

	while (d < f->wlen) {
		r = sim_write(f->fd, f->wb + d, f->wlen - d);
		if (r < 0) {
			if (W.cur->err == EINTR)
				continue;
			f->err = 1;
			f->wlen = 0;
			return (-1);
		}
		d += r;
	}
	f->wlen = 0;
	return (0);
}

int
sim_fclose(struct simFILE * f)
{
	int rc, flushed;

	fchk(f, "fclose");
	flushed = fwflush(f);
	f->magic = 0;
	P->fopen_live--;
	rc = sim_close(f->fd);
	if (flushed)
		return (-1);
	if (rc == 0 && CH(K_SYSFAIL, 2, "fclose"))
		return (E(EIO));
	return (rc);
}

size_t
sim_fread(void * buf, size_t sz, size_t n, struct simFILE * f)
{
	size_t want = sz * n, got = 0;
	ssize_t r;

	fchk(f, "fread");
	if (want && CH(K_SYSFAIL, 2, "fread-error")) {
		f->err = 1;
		E(EIO);
		return (0);
	}
	while (got < want) {
		r = sim_read(f->fd, (uint8_t *)buf + got, want - got);
		if (r == 0) {
			f->eof = 1;
			break;
		}
		if (r < 0) {
			if (W.cur->err == EINTR)
				continue;
			f->err = 1;
			break;
		}
		got += r;
	}
	return (sz ? got / sz : 0);
}

static void
diag(const char * s, size_t l, int log)
{
	struct proc * p = P;

	*(log ? &p->loglen : &p->errlen) += l;

	if (p->outlen + l + 1 > p->outcap) {
		p->outcap = (p->outlen + l + 1) * 2;
		p->out = realloc(p->out, p->outcap);
	}
	memcpy(p->out + p->outlen, s, l);
	p->outlen += l;
	p->out[p->outlen] = 0;
	x_trace_note("%s says: %.*s", p->name, (int)l, s);
}

static size_t
fwr(const void * b, size_t l, struct simFILE * f)
{
	ssize_t r;
	size_t d = 0;

	fchk(f, "fwrite");
	if (f->fd == 2 || (f->fd == 1 && P->fds[1] && P->fds[1]->type == F_NULL)) {
		diag(b, l, 0);
		return (l);
	}
	/* Buffered until fflush, fclose or exit (not _exit). */
	(void)r;
	(void)d;
	f->wb = realloc(f->wb, f->wlen + l + 1);
	memcpy(f->wb + f->wlen, b, l);
	f->wlen += l;
	if (f->fd < 3 || f->wlen >= 4096)
		if (fwflush(f))
			return (0);
	return (l);
}

size_t sim_fwrite(const void * b, size_t sz, size_t n, struct simFILE * f) { return (sz ? fwr(b, sz * n, f) / sz : 0); }
int sim_vfprintf(struct simFILE * f, const char * fmt, va_list ap) { char b[4096]; int l = vsnprintf(b, sizeof(b), fmt, ap); if (l > 4095) l = 4095; return (fwr(b, l, f) == (size_t)l ? l : -1); }
int sim_fprintf(struct simFILE * f, const char * fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = sim_vfprintf(f, fmt, ap); va_end(ap); return (r); }
int sim_printf(const char * fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return (r); }
int sim_vprintf(const char * fmt, va_list ap) { return (sim_vfprintf(sim_stdout, fmt, ap)); }
int sim_fputs(const char * s, struct simFILE * f) { return (fwr(s, strlen(s), f) == strlen(s) ? 1 : -1); }
int sim_puts(const char * s) { sim_fputs(s, sim_stdout); return (sim_fputs("\n", sim_stdout)); }
int sim_fputc(int c, struct simFILE * f) { char b = c; return (fwr(&b, 1, f) == 1 ? c : EOF); }
int sim_putc(int c, struct simFILE * f) { return (sim_fputc(c, f)); }
int sim_putchar(int c) { return (sim_fputc(c, sim_stdout)); }
void sim_perror(const char * s) { sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(W.cur->err)); }
int sim_fgetc(struct simFILE * f) { uint8_t c; if (sim_fread(&c, 1, 1, f) != 1) return (EOF); return (c); }
int sim_getc(struct simFILE * f) { return (sim_fgetc(f)); }
char * sim_fgets(char * b, int n, struct simFILE * f) { int i = 0, c; while (i < n - 1) { c = sim_fgetc(f); if (c == EOF) break; b[i++] = c; if (c == '\n') break; } if (i == 0) return (NULL); b[i] = 0; return (b); }
int sim_feof(struct simFILE * f) { fchk(f, "feof"); return (f->eof); }
int sim_ferror(struct simFILE * f) { fchk(f, "ferror"); return (f->err); }
void sim_clearerr(struct simFILE * f) { f->eof = f->err = 0; }
int sim_fflush(struct simFILE * f) { return (f ? fwflush(f) : 0); }
int sim_fileno(struct simFILE * f) { return (f->fd); }
int sim_setvbuf(struct simFILE * f, char * b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return (0); }
void sim_setbuf(struct simFILE * f, char * b) { (void)f; (void)b; }
void sim_flockfile(struct simFILE * f) { (void)f; }
void sim_funlockfile(struct simFILE * f) { (void)f; }
int sim_fseek(struct simFILE * f, long o, int w) { f->eof = 0; return (sim_lseek(f->fd, o, w) == -1 ? -1 : 0); }
long sim_ftell(struct simFILE * f) { return (sim_lseek(f->fd, 0, 1)); }
void sim_rewind(struct simFILE * f) { sim_fseek(f, 0, 0); }
int sim_vasprintf(char ** r, const char * fmt, va_list ap) { char b[4096]; int l = vsnprintf(b, sizeof(b), fmt, ap); if ((*r = sim_malloc(l + 1)) == NULL) return (-1); memcpy(*r, b, l + 1); return (l); }
int sim_asprintf(char ** r, const char * fmt, ...) { va_list ap; int l; va_start(ap, fmt); l = sim_vasprintf(r, fmt, ap); va_end(ap); return (l); }

void sim_vsyslog(int pri, const char * fmt, va_list ap) { char b[8192]; int l; (void)pri; l = vsnprintf(b, sizeof(b), fmt, ap); diag(b, l < (int)sizeof(b) ? l : (int)sizeof(b) - 1, 1); }
void sim_syslog(int pri, const char * fmt, ...) { va_list ap; va_start(ap, fmt); sim_vsyslog(pri, fmt, ap); va_end(ap); }
void sim_openlog(const char * a, int b, int c) { (void)a; (void)b; (void)c; }
void sim_closelog(void) {}
char * sim_getenv(const char * n) { (void)n; return (NULL); }
char * sim_secure_getenv(const char * n) { (void)n; return (NULL); }

/* ------------------------------------------------------------------ */
/* Time, signals, credentials. */
int
sim_clock_gettime(int id, struct timespec * ts)
{

	(void)id;
	if (P->syscalls++ > 3000000 && P->syscalls > (long)W.maxsteps)
		violate("*", "%s: spins reading the clock", P->name);
	if (CH(K_SYSFAIL, 2, "clock_gettime"))
		return (E(EINVAL));
	ts->tv_sec = W.now / SEC;
	ts->tv_nsec = W.now % SEC;
	return (0);
}
int sim_clock_getres(int id, struct timespec * ts) { (void)id; ts->tv_sec = 0; ts->tv_nsec = 1; return (0); }
int sim_gettimeofday(struct timeval * tv, void * z) { (void)z; tv->tv_sec = W.now / SEC; tv->tv_usec = W.now % SEC / 1000; return (0); }
time_t sim_time(time_t * t) { time_t r = W.now / SEC; if (t) *t = r; return (r); }

static int
do_sleep(uint64_t ns)
{
	int rc;

	sys_enter("sleep");
	thr_cancel_check();
	W.cur->at_cancel_point = 1;
	rc = block(NULL, W.now + ns, 1, "sleep");
	W.cur->at_cancel_point = 0;
	if (rc == 3)
		thr_do_cancel();
	return (rc == 2 ? E(EINTR) : 0);
}
unsigned sim_sleep(unsigned s) { return (do_sleep(s * SEC) ? 1 : 0); }
int sim_usleep(unsigned us) { return (do_sleep(us * 1000ULL)); }
int sim_nanosleep(const struct timespec * ts, struct timespec * rem) { if (rem) memset(rem, 0, sizeof(*rem)); return (do_sleep(ts->tv_sec * SEC + ts->tv_nsec)); }

static void *
setsig(int s, void * h, int oneshot)
{
	void * o = P->sighand[s];

	P->sighand[s] = h;
	P->sig_oneshot[s] = oneshot;
	x_trace_note("%s: signal(%d)", P->name, s);
	return (o);
}
void * sim_signal(int s, void * h) { sys_enter("signal"); return (setsig(s, h, 0)); }
void * sim___sysv_signal(int s, void * h) { sys_enter("signal"); return (setsig(s, h, 1)); }
int sim_sigaction(int s, const struct sigaction * a, struct sigaction * o) { void * old = P->sighand[s]; sys_enter("sigaction"); if (a) old = setsig(s, (void *)a->sa_handler, !!(a->sa_flags & SA_RESETHAND)); if (o) { memset(o, 0, sizeof(*o)); o->sa_handler = (void (*)(int))old; } return (0); }
int sim_raise(int s) { P->sig_pending[s] = 1; sig_check(); return (0); }
int sim_kill(int pid, int s) { if (pid == (int)P->pid) return (sim_raise(s)); return (E(ESRCH)); }


int
sim_fork(void)
{

	sys_enter("fork");
	if (CH(K_SYSFAIL, 2, "fork"))
		return (E(EAGAIN));
	return (do_fork());
}
int sim_setsid(void) { sys_enter("setsid"); if (P->sid == P->pid || CH(K_SYSFAIL, 2, "setsid")) return (E(EPERM)); P->noctty = 1; return (P->sid = P->pid); }
int sim_getsid(int p) { if (p && p != (int)P->pid) return (E(ESRCH)); return (P->sid); }
int sim_getpid(void) { return (P->pid); }
int sim_getppid(void) { return (P->parent && !P->parent->exited ? (int)P->parent->pid : 1); }
int sim_getpgrp(void) { return (P->sid); }
unsigned sim_getuid(void) { return (P->uid); }
unsigned sim_geteuid(void) { return (P->euid); }
unsigned sim_getgid(void) { return (P->gid); }
unsigned sim_getegid(void) { return (P->egid); }
static int
setres(int grp, unsigned r, unsigned e, unsigned s, const char * nm)
{
	unsigned * pr = grp ? &P->gid : &P->uid, * pe = grp ? &P->egid : &P->euid, * ps = grp ? &P->sgid : &P->suid;
	unsigned v[3] = { r, e, s };
	int i, c;

	sys_enter(nm);
	if ((c = CH(K_SYSFAIL, 3, nm)) != 0)
		return (E(c == 1 ? EPERM : EAGAIN));
	for (i = 0; i < 3; i++)
		if (v[i] != (unsigned)-1 && P->euid != 0 && v[i] != *pr && v[i] != *pe && v[i] != *ps)
			return (E(EPERM));
	x_trace_note("%s: %s(%d, %d, %d)", P->name, nm, (int)r, (int)e, (int)s);
	if (r != (unsigned)-1)
		*pr = r;
	if (e != (unsigned)-1)
		*pe = e;
	if (s != (unsigned)-1)
		*ps = s;
	return (0);
}
int sim_setuid(unsigned u) { if (u == (unsigned)-1) return (E(EINVAL)); return (P->euid == 0 ? setres(0, u, u, u, "setuid") : setres(0, -1, u, -1, "setuid")); }
int sim_setgid(unsigned u) { if (u == (unsigned)-1) return (E(EINVAL)); return (P->euid == 0 ? setres(1, u, u, u, "setgid") : setres(1, -1, u, -1, "setgid")); }
int sim_seteuid(unsigned u) { if (u == (unsigned)-1) return (E(EINVAL)); return (setres(0, -1, u, -1, "seteuid")); }
int sim_setegid(unsigned u) { if (u == (unsigned)-1) return (E(EINVAL)); return (setres(1, -1, u, -1, "setegid")); }
int sim_setreuid(unsigned r, unsigned e) { return (setres(0, r, e, e, "setreuid")); }
int sim_setregid(unsigned r, unsigned e) { return (setres(1, r, e, e, "setregid")); }
int sim_setresuid(unsigned r, unsigned e, unsigned s) { return (setres(0, r, e, s, "setresuid")); }
int sim_setresgid(unsigned r, unsigned e, unsigned s) { return (setres(1, r, e, s, "setresgid")); }
int
sim_setgroups(size_t n, const unsigned * g)
{
	size_t i;
	int c;

	sys_enter("setgroups");
	if (P->euid != 0)
		return (E(EPERM));
	if ((c = CH(K_SYSFAIL, 3, "setgroups")) != 0)
		return (E(c == 1 ? EPERM : ENOMEM));
	if (n > 16)
		return (E(EINVAL));
	sim_access(g, n * sizeof(*g), 0);
	P->ngroups = n;
	for (i = 0; i < n; i++)
		P->groups[i] = g[i];
	return (0);
}
int sim_initgroups(const char * u, unsigned g) { (void)u; return (sim_setgroups(1, &g)); }
int sim_getgroups(int n, unsigned * g) { int i; if (CH(K_SYSFAIL, 2, "getgroups")) return (E(EIO)); if (n == 0) return (P->ngroups); if (n < P->ngroups) return (E(EINVAL)); sim_access(g, P->ngroups * sizeof(*g), 1); for (i = 0; i < P->ngroups; i++) g[i] = P->groups[i]; return (P->ngroups); }

static struct passwd pws[] = {
	{ "root", "x", 0, 0, "", "/", "/" }, { "alice", "x", 1001, 2001, "", "/", "/" },
	{ "bob", "x", 1002, 2002, "", "/", "/" }, { NULL, NULL, 0, 0, NULL, NULL, NULL } };
static struct group grs[] = { { "root", "x", 0, NULL }, { "staff", "x", 3001, NULL }, { "alice", "x", 2001, NULL }, { NULL, NULL, 0, NULL } };
struct passwd * sim_getpwnam(const char * n) { int i; sys_enter("getpwnam"); if (CH(K_SYSFAIL, 2, "getpwnam")) { E(EIO); return (NULL); } W.cur->err = 0; for (i = 0; pws[i].pw_name; i++) if (!strcmp(pws[i].pw_name, n)) return (&pws[i]); return (NULL); }
struct passwd * sim_getpwuid(unsigned u) { int i; W.cur->err = 0; for (i = 0; pws[i].pw_name; i++) if (pws[i].pw_uid == u) return (&pws[i]); return (NULL); }
struct group * sim_getgrnam(const char * n) { int i; sys_enter("getgrnam"); if (CH(K_SYSFAIL, 2, "getgrnam")) { E(EIO); return (NULL); } W.cur->err = 0; for (i = 0; grs[i].gr_name; i++) if (!strcmp(grs[i].gr_name, n)) return (&grs[i]); return (NULL); }
struct group * sim_getgrgid(unsigned g) { int i; W.cur->err = 0; for (i = 0; grs[i].gr_name; i++) if (grs[i].gr_gid == g) return (&grs[i]); return (NULL); }

ssize_t sim_getrandom(void * b, size_t n, unsigned fl) { size_t i; (void)fl; sys_enter("getrandom"); for (i = 0; i < n; i++) { P->prng = P->prng * 6364136223846793005ULL + 1442695040888963407ULL; ((uint8_t *)b)[i] = P->prng >> 40; } return (n); }
int sim_getentropy(void * b, size_t n) { return (sim_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1); }

/* ------------------------------------------------------------------ */
/* Name resolution. */
int
sim_getaddrinfo(const char * host, const char * serv,
    const struct addrinfo * hints, struct addrinfo ** res)
{
	struct saddr out[64];
	int n = -1, i, port = 0;
	uint64_t delay = 0;
	struct addrinfo * head = NULL, ** tail = &head;

	sys_enter("getaddrinfo");
	if (serv) {
		char * e;

		port = strtol(serv, &e, 10);
		if (*e || port < 0 || port > 65535)
			return (EAI_SERVICE);
	}
	if (CH(K_DNS, 2, "getaddrinfo-fails"))
		return (EAI_AGAIN);
	if (host) {
		struct in_addr a4;
		struct in6_addr a6;
		char b[80];

		if (inet_pton(AF_INET, host, &a4) == 1) {
			snprintf(b, sizeof(b), "%s:%d", host, port);
			out[0] = mkaddr(b);
			n = 1;
		} else if (inet_pton(AF_INET6, host, &a6) == 1) {
			snprintf(b, sizeof(b), "[%s]:%d", host, port);
			out[0] = mkaddr(b);
			n = 1;
		} else if (W.resolve)
			n = W.resolve(P, host, serv, out, sizeof(out) / sizeof(out[0]), &delay);
	}
	if (delay)
		block(NULL, W.now + delay, 0, "getaddrinfo");
	if (n < 0) {
		if (n == -1)
			return (EAI_NONAME);
		if (n == EAI_SYSTEM)
			W.cur->err = EIO;
		return (n);
	}
	for (i = 0; i < n; i++) {
		struct addrinfo * ai = calloc(1, sizeof(*ai) + sizeof(struct saddr));

		ai->ai_family = ((struct sockaddr *)out[i].b)->sa_family;
		ai->ai_socktype = hints && hints->ai_socktype ?
		    hints->ai_socktype : SOCK_STREAM;
		ai->ai_protocol = IPPROTO_TCP;
		ai->ai_addrlen = out[i].len;
		ai->ai_addr = (struct sockaddr *)(ai + 1);
		memcpy(ai->ai_addr, out[i].b, out[i].len);
		*tail = ai;
		tail = &ai->ai_next;
	}
	P->ai_live++;
	*res = head;
	x_trace_note("%s: getaddrinfo(%s) gives %d addresses", P->name,
	    host ? host : "-", n);
	return (0);
}

void
sim_freeaddrinfo(struct addrinfo * ai)
{
	struct addrinfo * n;

	P->ai_live--;
	for (; ai; ai = n) {
		n = ai->ai_next;
		free(ai);
	}
}

/* ------------------------------------------------------------------ */
/* Bignums: count, may fail, and memoize the (pure) exponentiation. */
BIGNUM * sim_BN_new(void) { if (CH(K_ALLOC, 2, "BN_new")) return (NULL); P->bn_live++; return (BN_new()); }
BN_CTX * sim_BN_CTX_new(void) { if (CH(K_ALLOC, 2, "BN_CTX_new")) return (NULL); P->bn_live++; return (BN_CTX_new()); }
void sim_BN_free(BIGNUM * b) { if (b) P->bn_live--; BN_free(b); }
void sim_BN_clear_free(BIGNUM * b) { if (b) P->bn_live--; BN_clear_free(b); }
void sim_BN_CTX_free(BN_CTX * b) { if (b) P->bn_live--; BN_CTX_free(b); }
BIGNUM * sim_BN_bin2bn(const unsigned char * s, int n, BIGNUM * r) { if (CH(K_ALLOC, 2, "BN_bin2bn")) return (NULL); if (n > 0) sim_access(s, n, 0); if (r == NULL) P->bn_live++; return (BN_bin2bn(s, n, r)); }
int sim_BN_bn2bin(const BIGNUM * a, unsigned char * to) { sim_access(to, BN_num_bytes(a), 1); return (BN_bn2bin(a, to)); }
int sim_BN_bn2binpad(const BIGNUM * a, unsigned char * to, int n) { if (n > 0) sim_access(to, n, 1); return (BN_bn2binpad(a, to, n)); }
BIGNUM * sim_BN_dup(const BIGNUM * a) { if (CH(K_ALLOC, 2, "BN_dup")) return (NULL); P->bn_live++; return (BN_dup(a)); }

static int
modexp(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m,
    BN_CTX * ctx)
{
	uint8_t b[3][272], o[256];
	uint64_t k1, k2;

	if (CH(K_ALLOC, 2, "BN_mod_exp"))
		return (0);
	if (BN_is_negative(a) || BN_is_negative(p) || BN_num_bytes(a) > 256 ||
	    BN_num_bytes(p) > 256 || BN_num_bytes(m) > 256)
		return (BN_mod_exp(r, a, p, m, ctx));
	BN_bn2binpad(a, b[0], 272);
	BN_bn2binpad(p, b[1], 272);
	BN_bn2binpad(m, b[2], 272);
	k1 = x_hash(1, b, sizeof(b));
	k2 = x_hash(0x7777777, b, sizeof(b));
	if (x_memo_get(k1, k2, o, 256))
		return (BN_bin2bn(o, 256, r) != NULL);
	if (!BN_mod_exp(r, a, p, m, ctx))
		return (0);
	BN_bn2binpad(r, o, 256);
	x_memo_put(k1, k2, o, 256);
	return (1);
}
int sim_BN_mod_exp(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * c) { return (modexp(r, a, p, m, c)); }
int sim_BN_mod_exp_mont(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * c, void * mont) { (void)mont; return (modexp(r, a, p, m, c)); }
int sim_BN_mod_exp_mont_consttime(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * c, void * mont) { (void)mont; return (modexp(r, a, p, m, c)); }

/* ------------------------------------------------------------------ */
/* Actors. */
int
a_listen(const char * addr)
{
	struct saddr a = mkaddr(addr);
	int s = sim_socket(((struct sockaddr *)a.b)->sa_family, SOCK_STREAM, 0);

	if (sim_bind(s, (void *)a.b, a.len) || sim_listen(s, 10))
		machine_error("actor cannot listen on %s", addr);
	return (s);
}
int a_accept(int s) { return (sim_accept(s, NULL, NULL)); }
int
a_connect(const char * addr)
{
	struct saddr a = mkaddr(addr);
	int s = sim_socket(((struct sockaddr *)a.b)->sa_family, SOCK_STREAM, 0);

	if (sim_connect(s, (void *)a.b, a.len)) {
		sim_close(s);
		return (-1);
	}
	return (s);
}
int
a_abort(const char * addr)
{
	struct saddr a = mkaddr(addr);
	struct sfile * f;
	int s = sim_socket(((struct sockaddr *)a.b)->sa_family, SOCK_STREAM, 0);

	/* A connection which is gone before it can be accepted. */
	f = a_file(s);
	f->nonblock = 1;
	if (sim_connect(s, (void *)a.b, a.len) == 0 || f->peer) {
		if (f->peer && !f->peer->accepted)
			f->peer->aborted = 1;
		return (s);
	}
	sim_close(s);
	return (-1);
}
int
a_write(int s, const void * buf, size_t len)
{
	size_t d = 0;
	ssize_t r;

	while (d < len) {
		if ((r = sim_send(s, (const uint8_t *)buf + d, len - d,
		    MSG_NOSIGNAL)) < 0)
			return (-1);
		d += r;
	}
	return (0);
}
ssize_t a_read(int s, void * buf, size_t len) { return (sim_read(s, buf, len)); }
ssize_t
a_readfull(int s, void * buf, size_t len)
{
	size_t d = 0;
	ssize_t r;

	while (d < len) {
		if ((r = sim_read(s, (uint8_t *)buf + d, len - d)) < 0)
			return (d ? (ssize_t)d : -1);
		if (r == 0)
			break;
		d += r;
	}
	return (d);
}
void a_shut(int s) { sim_shutdown(s, SHUT_WR); }
void a_close(int s) { sim_close(s); }
int a_reset(int s) { struct sfile * f = P->fds[s]; do_reset(f); return (sim_close(s)); }
void a_sleep(double secs) { do_sleep((uint64_t)(secs * 1e9)); }
void a_yield(void) { thr_yield(); }
static int wait_p(struct thr * t) { int (*f)(void *) = (int (*)(void *))t->a1; return (f(t->a0)); }
void a_wait(int (*pred)(void *), void * arg) { W.cur->a0 = arg; W.cur->a1 = (long)pred; block(wait_p, UINT64_MAX, 0, "wait"); }

/* Number parsing: errno belongs to the program. */
#define NUM(type, name, params, args)			\
type							\
sim_##name params					\
{							\
	type r;						\
	int e = errno;					\
							\
	errno = 0;					\
	r = name args;					\
	if (errno)					\
		*sim___errno_location() = errno;	\
	errno = e;					\
	return (r);					\
}
#define NUMI(type, name)							\
NUM(type, name, (const char * s, char ** e_, int b), (s, e_, b))		\
type sim___isoc23_##name(const char * s, char ** e, int b) { return (sim_##name(s, e, b)); }
int * sim___errno_location(void);
NUMI(long, strtol)
NUMI(unsigned long, strtoul)
NUMI(long long, strtoll)
NUMI(unsigned long long, strtoull)
NUMI(intmax_t, strtoimax)
NUMI(uintmax_t, strtoumax)
NUM(double, strtod, (const char * s, char ** e_), (s, e_))
NUM(float, strtof, (const char * s, char ** e_), (s, e_))
NUM(long double, strtold, (const char * s, char ** e_), (s, e_))
