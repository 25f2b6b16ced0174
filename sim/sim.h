/*
 * A small deterministic POSIX world, in which the real programs of the
 * repository run unmodified (their libc calls are redirected at link time).
 */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <stdio.h>

#include "explore.h"

#define SIM_NFD 320
#define SIM_BACKLOG 256
#define SIM_NTHR 32
#define SIM_NPROC 20
#define SEC 1000000000ULL

struct vclock { uint32_t c[SIM_NTHR]; };

/* One direction of a byte stream. */
struct chan {
	uint8_t * log;		/* every byte ever written */
	size_t loglen, logcap;
	size_t rd;		/* read position in the log */
	size_t cap;		/* buffer capacity */
	int wclosed;		/* no more writes: EOF after the data */
	int rclosed;		/* nobody will read */
	struct vclock vc;
	int id;
};

enum ftype { F_SOCK, F_LISTEN, F_PIPE_R, F_PIPE_W, F_NULL, F_URANDOM, F_FILE, F_CHANRW };

struct saddr { uint8_t b[128]; socklen_t len; };

struct sfile {
	enum ftype type;
	int refs;
	int nonblock;
	int id;			/* unique */
	struct proc * creator;
	/* sockets */
	int family, stype;
	int state;		/* 0 new, 1 connecting, 2 connected, 3 failed */
	int err;		/* pending SO_ERROR */
	int reset;		/* connection has been reset by the peer */
	struct chan * rx, * tx;
	struct sfile * peer;
	struct saddr local, remote;
	int isbound;
	int shut_wr, shut_rd;
	/* listen */
	struct sfile * backlog[SIM_BACKLOG];
	int nbacklog;
	int listening;
	/* recorded options */
	struct { int level, opt, val; } so[16];
	int nso, sofail;
	int fcntl_setnb_calls;
	/* files */
	struct simfile * inode;
	size_t off;
	int oflags;
	uint64_t t_created, t_closed, t_conn, t_acc;
	int closed;
	int accepted, ispair;
	int aborted;		/* gone before it was accepted: accept fails with ECONNABORTED */
};

struct simfile {		/* in-memory file system node */
	char path[128];
	uint8_t * data;
	size_t len;
	int exists;
	int isdir, noperm;	/* reading gives EISDIR, opening EACCES */
	long errat;		/* 1 + offset where reading fails, for ever */
	struct simfile * next;
};

struct proc {
	int id;
	char name[24];
	int is_actor;
	int (*mainfn)(int, char **);
	void (*actorfn)(void *);
	void * arg;
	int argc;
	char ** argv;
	struct sfile * fds[SIM_NFD];
	int nfd_max;
	void * sighand[65];
	int sig_oneshot[65];
	int sig_armed;		/* explorer may deliver this signal */
	uint64_t t_sig;		/* when it did */
	int sig_ready;		/* a handler was installed by then */
	int sig_pending[65];
	int in_handler;
	int exited, status;	/* status: 0..255, or 1000+signal */
	uint64_t t_exit;
	void (*atexits[16])(void);
	int natexit;
	struct thr * mainthr;
	int nthr, ever_threads;
	uint64_t prng, prng_seed;
	/* accounting */
	long heap_blocks, heap_bytes, bn_live, fopen_live, ai_live;
	uint64_t allocs;
	int open_sockets_made;
	/* credentials */
	unsigned uid, gid, euid, egid, suid, sgid, pid;
	unsigned sid, ppid;
	int noctty;
	int oom;		/* an allocation has failed */
	int kill_armed;		/* the explorer may kill it anywhere */
	struct proc * parent;
	struct family * fam;	/* processes sharing addresses */
	void * view;
	int ngroups;
	unsigned groups[16];
	char * out;		/* diagnostics */
	size_t outlen, outcap;
	size_t errlen, loglen;	/* of which on stderr or stdout, in syslog */
	uint64_t syscalls;
	void (*on_exit)(struct proc *);
};

struct thr {
	int id;
	struct proc * p;
	void * sp;
	char * stack;
	int state;		/* 0 free 1 ready 2 blocked 3 done */
	int (*pred)(struct thr *);
	uint64_t deadline;	/* ns, UINT64_MAX none */
	int timedout, interrupted, intr_ok;
	void * a0;
	long a1, a2;
	int err;		/* errno */
	/* pthread */
	void * (*fn)(void *);
	void * farg;
	void * ret;
	int ran;
	int detached, joined, joinable_done;
	int cancel_pending, cancel_disabled, cancelled, at_cancel_point;
	void * cleanup;
	struct vclock vc;
	const char * what;
};

struct world {
	uint64_t now;
	uint64_t horizon;
	struct proc procs[SIM_NPROC];
	int nproc;
	struct thr thrs[SIM_NTHR];
	int nthr;
	struct thr * cur;
	int forced;		/* thread to run next, or -1 */
	void * sched_sp;
	uint64_t steps, maxsteps;
	int rr;
	size_t default_cap;
	struct simfile * fs;
	struct sfile * listeners[32];
	int nlisteners;
	struct sfile * allfiles[4096];
	int nallfiles;
	struct { uint64_t t; void (*fn)(void *); void * a; } timers[256];
	int ntimers;
	/* Scenario hooks. */
	int (*connect_policy)(struct proc *, const struct saddr *, uint64_t * delay);
	int (*resolve)(struct proc *, const char * host, const char * service,
	    struct saddr * out, int max, uint64_t * delay);
	void (*on_syscall)(struct proc *, const char * name);
	int (*is_secretfile)(const char *);
	void (*on_step)(void);
	int (*chfilter)(struct proc *, int kind, const char * label);
	int deadlocked;		/* ended with blocked threads */
	int poll_eagain_budget;
	int race_detect;
	uint64_t cost;		/* time taken by each system call of a program */
	int ncuts;		/* kinds of partial reads and writes, if not 3 */
	int nerrs;		/* kinds of broken connections, if not 2 */
	int cerr;		/* error of a connect which fails */
	int oom_sticky;		/* out of memory for good (while chfilter says so) */
	int secret_on;		/* the secret must not stay behind in memory (C34) */
	uint8_t secret[32];
	int user, user2;	/* for the scenario */
	int sysfailed;		/* failures injected so far */
	const char * abort_ok;	/* a message which explains abort() */
};
extern struct world W;

enum { CP_DEFAULT = 0, CP_ASYNC_OK, CP_IMMEDIATE, CP_REFUSE_ASYNC, CP_REFUSE_SYNC, CP_BLACKHOLE, CP_SLOW_OK, CP_SLOW_REFUSE };

void w_init(void);
struct proc * w_spawn(const char * name, int (*mainfn)(int, char **), const char * cmdline);
struct proc * w_spawnv(const char * name, int (*mainfn)(int, char **), int argc, const char ** argv);
void w_creds(struct proc *, unsigned uid, unsigned gid, int ng, const unsigned * g);
struct proc * w_child(struct proc *, int n);	/* its n'th child */
struct proc * w_actor(const char * name, void (*fn)(void *), void * arg);
void w_delay(struct proc *, uint64_t ns);
void w_run(void);		/* until quiescent, horizon or all exited */
void w_file(const char * path, const void * data, size_t len);
struct simfile * w_lookup(const char * path);
void w_timer(uint64_t t, void (*fn)(void *), void * a);
void w_kill(struct proc *, int sig);	/* send a signal */
int w_openfds(struct proc *);
struct proc * w_cur(void);
void w_user(int), w_user2(int);
void w_secret(const void *, size_t);	/* the contents of the key file */
int w_sysfailed(void);
const char * w_describe(struct proc *);

/* For actors (blocking, no injected nondeterminism). */
int a_listen(const char * addr);
int a_accept(int s);
int a_abort(const char *);
int a_connect(const char * addr);	/* -1 on failure */
int a_write(int s, const void * buf, size_t len);	/* all, or -1 */
ssize_t a_read(int s, void * buf, size_t len);		/* like read */
ssize_t a_readfull(int s, void * buf, size_t len);	/* up to EOF/len */
void a_shut(int s);
void a_close(int s);
void a_sleep(double secs);
void a_yield(void);
int a_reset(int s);	/* close with RST */
void a_wait(int (*pred)(void *), void * arg);
struct sfile * a_file(int fd);
struct saddr mkaddr(const char * s);	/* "ip:port" or "/unix" or "[v6]:port" */
int saddr_eq(const struct saddr *, const struct saddr *);
void p_installfd(struct proc * p, int fd, struct sfile * f);
struct sfile * mkpipe_r(struct chan ** c);	/* read end, returns the channel */
struct chan * mkchan(void);
struct sfile * mkfile(enum ftype t);
int chan_write(struct chan *, const void *, size_t);
size_t chan_avail(struct chan *);
int sock_opt(struct sfile *, int level, int opt, int * val);

/* Deterministic data. */
uint8_t pat(int stream, size_t i);
void patfill(uint8_t * buf, int stream, size_t off, size_t len);

/* Heap. */
void * sim_malloc(size_t);
void sim_free(void *);
extern int sim_heap_check;

/* The images. */
int spiped_1_main(int, char **);
int spiped_2_main(int, char **);
int spiped_3_main(int, char **);
int spipe_1_main(int, char **);
int spipe_2_main(int, char **);
#endif
