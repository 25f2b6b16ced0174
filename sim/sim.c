/* The simulated world: scheduler, threads, heap, memory hooks. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/un.h>

#include "ref.h"
#include "sim_int.h"

struct world W;
int sim_heap_check = 1;

/* ------------------------------------------------------------------ */
/* Context switch. */
__asm__(
".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
"	pushq %rbp\n	pushq %rbx\n	pushq %r12\n	pushq %r13\n"
"	pushq %r14\n	pushq %r15\n"
"	movq %rsp,(%rdi)\n	movq %rsi,%rsp\n"
"	popq %r15\n	popq %r14\n	popq %r13\n	popq %r12\n"
"	popq %rbx\n	popq %rbp\n	ret\n"
".size sim_switch,.-sim_switch\n");
void sim_switch(void ** save, void * to);

#define STKSZ (256 * 1024)
#define STKBASE ((char *)0x200000000000ULL)

/* ------------------------------------------------------------------ */
/* Heap: bump allocator at a fixed address; freed memory is never reused. */
#define ARENA ((uint8_t *)0x100000000000ULL)
#define ARENASZ (192UL << 20)
#define SHADOW ((uint8_t *)0x110000000000ULL)
#define HMAGIC 0x5ca1ab1e0ddba11ULL
struct hblk {
	uint64_t magic;
	size_t len;
	struct proc * p;
	uint64_t seq;
	void * site;
	int freed;
	int pad;
	void * fsite;
	uint64_t pad2;
};
static size_t arena_off;
static uint64_t alloc_seq;

static void
heap_init(void)
{

	if (mmap(ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE |
	    MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) !=
	    (void *)ARENA)
		machine_error("mmap arena");
	if (mmap(SHADOW, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE |
	    MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) !=
	    (void *)SHADOW)
		machine_error("mmap shadow");
}

static inline int
in_arena(const void * p)
{

	return ((uintptr_t)p - (uintptr_t)ARENA < ARENASZ);
}

static void *
halloc(size_t len, int zero, void * site)
{
	struct hblk * b;
	uint8_t * p;
	size_t need = sizeof(struct hblk) + ((len + 15) & ~15UL) + 32;

	if (arena_off + need > ARENASZ)
		machine_error("simulated heap exhausted");
	b = (struct hblk *)(ARENA + arena_off);
	arena_off += need;
	p = (uint8_t *)(b + 1);
	b->magic = HMAGIC;
	b->len = len;
	b->p = W.cur ? W.cur->p : NULL;
	b->seq = ++alloc_seq;
	b->site = site;
	b->freed = 0;
	if (!zero)
		memset(p, 0xCD, len);
	memset(SHADOW + (p - ARENA), 1, len);
	if (b->p) {
		b->p->heap_blocks++;
		b->p->heap_bytes += len;
		b->p->allocs++;
	}
	return (p);
}

static struct hblk *
hfind(const void * p)
{
	size_t off = 0;

	/* Slow: only for diagnostics. */
	while (off < arena_off) {
		struct hblk * b = (struct hblk *)(ARENA + off);
		size_t need = sizeof(struct hblk) + ((b->len + 15) & ~15UL) + 32;

		if ((uint8_t *)p < ARENA + off + need)
			return (b);
		off += need;
	}
	return (NULL);
}

static void
heap_bad(const void * p, size_t n, const char * what, void * pc)
{
	struct hblk * b = hfind(p);

	sim_heap_check = 0;
	violate("*", "%s: %s of %zu bytes at %s%s block of %zu bytes, offset "
	    "%ld (pc %p, allocated at %p, freed at %p)",
	    W.cur ? W.cur->p->name : "?", what, n, b && b->freed ? "freed " :
	    "", b ? "heap" : "unknown", b ? b->len : 0, b ? (long)((uint8_t *)p -
	    (uint8_t *)(b + 1)) : 0L, pc, b ? b->site : NULL,
	    b ? b->fsite : NULL);
}

static inline void
heap_chk(const void * p, size_t n, int wr, void * pc)
{
	size_t off, i;

	if (!in_arena(p) || !sim_heap_check)
		return;
	off = (uint8_t *)p - ARENA;
	for (i = 0; i < n; i++)
		if (SHADOW[off + i] == 0)
			heap_bad(p, n, wr ? "invalid write" : "invalid read",
			    pc);
}

/* A two-way choice unless filtered out. */
static int
CHF(int kind, const char * label)
{

	if (W.cur->p->is_actor)
		return (0);
	if (W.chfilter && !W.chfilter(W.cur->p, kind, label))
		return (0);
	if (!choose(kind, 2, label))
		return (0);
	W.sysfailed += kind == K_SYSFAIL;
	return (1);
}

static int
alloc_fails(void)
{

	if (W.cur == NULL || W.cur->p->is_actor)
		return (0);
	if (W.chfilter && !W.chfilter(W.cur->p, K_ALLOC, "alloc-fail"))
		return (0);
	if ((W.oom_sticky && W.cur->p->oom) || choose(K_ALLOC, 2, "alloc-fail")) {
		W.cur->p->oom = 1;
		x_trace_note("%s: allocation fails", W.cur->p->name);
		W.cur->err = ENOMEM;
		return (1);
	}
	return (0);
}

void *
sim_malloc(size_t len)
{

	if (len > (64UL << 20) || alloc_fails()) {
		if (W.cur)
			W.cur->err = ENOMEM;
		return (NULL);
	}
	return (halloc(len, 0, __builtin_return_address(0)));
}

void *
sim_calloc(size_t n, size_t m)
{

	if ((m && n > SIZE_MAX / m) || n * m > (64UL << 20) || alloc_fails()) {
		if (W.cur)
			W.cur->err = ENOMEM;
		return (NULL);
	}
	return (halloc(n * m, 1, __builtin_return_address(0)));
}

static void race_free(void *, size_t);

/* Does the block hold the secret? */
static int
holds_secret(const struct hblk * b)
{

	return (b->len >= 32 && memmem(b + 1, b->len, W.secret, 32) != NULL);
}

static void
hfree(void * ptr, void * site)
{
	struct hblk * b;
	uint8_t * p = ptr;

	if (ptr == NULL)
		return;
	if (!in_arena(ptr) || (b = (struct hblk *)ptr - 1)->magic != HMAGIC ||
	    ((uintptr_t)ptr & 15)) {
		violate("*", "%s: free() of a pointer that was not allocated "
		    "(pc %p)", W.cur ? W.cur->p->name : "?", site);
		return;
	}
	if (b->freed) {
		violate("*", "%s: double free (block of %zu bytes; freed at %p "
		    "and at %p)", W.cur ? W.cur->p->name : "?", b->len,
		    b->fsite, site);
		return;
	}
	race_free(ptr, b->len);
	if (W.secret_on && holds_secret(b)) {
		violate("C34", "%s: a block of %zu bytes is freed (at %p) which still holds the secret", W.cur ? W.cur->p->name : "?", b->len, site);
		return;
	}
	b->freed = 1;
	b->fsite = site;
	if (b->p) {
		b->p->heap_blocks--;
		b->p->heap_bytes -= b->len;
	}
	memset(SHADOW + (p - ARENA), 0, b->len);
	memset(p, 0xDD, b->len);
}

void
sim_free(void * p)
{

	hfree(p, __builtin_return_address(0));
}

void *
sim_realloc(void * p, size_t len)
{
	struct hblk * b;
	void * q;

	if (p == NULL)
		return (sim_malloc(len));
	if (len > (64UL << 20) || alloc_fails()) {
		W.cur->err = ENOMEM;
		return (NULL);
	}
	if (!in_arena(p) || (b = (struct hblk *)p - 1)->magic != HMAGIC ||
	    b->freed) {
		violate("*", "%s: realloc() of a bad pointer",
		    W.cur->p->name);
		return (NULL);
	}
	q = halloc(len, 0, __builtin_return_address(0));
	memcpy(q, p, b->len < len ? b->len : len);
	hfree(p, __builtin_return_address(0));
	return (q);
}

void * sim_reallocarray(void * p, size_t n, size_t m)
{
	if (m && n > SIZE_MAX / m) {
		W.cur->err = ENOMEM;
		return (NULL);
	}
	return (sim_realloc(p, n * m));
}

int
sim_posix_memalign(void ** out, size_t al, size_t len)
{

	(void)al;	/* 16 is all we provide */
	if ((*out = sim_malloc(len)) == NULL)
		return (ENOMEM);
	return (0);
}

void * sim_aligned_alloc(size_t al, size_t len) { (void)al; return (sim_malloc(len)); }

char *
sim_strdup(const char * s)
{
	char * p = sim_malloc(strlen(s) + 1);

	if (p)
		strcpy(p, s);
	return (p);
}

char *
sim_strndup(const char * s, size_t n)
{
	size_t l = strnlen(s, n);
	char * p = sim_malloc(l + 1);

	if (p) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return (p);
}

/* ------------------------------------------------------------------ */
/* Happens-before race detection. */
struct rshadow {
	uintptr_t g;		/* address >> 3 */
	uint32_t wclk;
	uint8_t wtid, wmask, nr;
	struct { uint32_t clk; uint8_t tid, mask; } r[4];
};
#define RS_LG 16
static struct rshadow * rs;
#define STKALL ((size_t)SIM_NTHR * (STKSZ + 65536))
#define RSH_HEAP ((struct rshadow *)0x120000000000ULL)
#define RSH_STK ((struct rshadow *)0x130000000000ULL)
static void
rs_init(void)
{

	if (mmap(RSH_HEAP, ARENASZ / 8 * sizeof(struct rshadow), PROT_READ |
	    PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
	    MAP_FIXED_NOREPLACE, -1, 0) != (void *)RSH_HEAP ||
	    mmap(RSH_STK, STKALL / 8 * sizeof(struct rshadow), PROT_READ |
	    PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
	    MAP_FIXED_NOREPLACE, -1, 0) != (void *)RSH_STK)
		machine_error("mmap race shadow");
}
static uint32_t rs_used;

static struct rshadow *
rs_get(uintptr_t g)
{
	uint64_t i = (g * 0x9e3779b97f4a7c15ULL) >> (64 - RS_LG);

	/* Heap and stacks: direct mapped. */
	if (g - ((uintptr_t)ARENA >> 3) < ARENASZ >> 3)
		return (&RSH_HEAP[g - ((uintptr_t)ARENA >> 3)]);
	if (g - ((uintptr_t)STKBASE >> 3) < STKALL >> 3)
		return (&RSH_STK[g - ((uintptr_t)STKBASE >> 3)]);
	if (rs == NULL)
		rs = calloc(1 << RS_LG, sizeof(*rs));
	while (rs[i].g != 0 && rs[i].g != g)
		i = (i + 1) & ((1 << RS_LG) - 1);
	if (rs[i].g == 0) {
		if (++rs_used > (1 << RS_LG) * 3 / 4)
			machine_error("race shadow full");
		rs[i].g = g;
	}
	return (&rs[i]);
}

static void
race_found(uintptr_t a, int wr, int owr, int other, void * pc)
{

	violate("*", "%s: data race at %p: %s by thread %d (pc %p) is not "
	    "ordered with %s by thread %d", W.cur->p->name, (void *)a,
	    wr ? "write" : "read", W.cur->id, pc, owr ? "a write" : "a read",
	    other);
}

static void
race_acc(uintptr_t a, size_t n, int wr, void * pc)
{
	struct thr * t = W.cur;
	uint32_t me = t->vc.c[t->id];

	while (n) {
		uintptr_t g = a >> 3;
		size_t lo = a & 7, k = 8 - lo;
		uint8_t mask;
		struct rshadow * s;
		int i, slot;

		if (k > n)
			k = n;
		mask = (uint8_t)(((1u << k) - 1) << lo);
		s = rs_get(g);
		if (s->wmask & mask && s->wtid != t->id &&
		    s->wclk > t->vc.c[s->wtid])
			race_found(a, wr, 1, s->wtid, pc);
		if (wr) {
			for (i = 0; i < s->nr; i++)
				if ((s->r[i].mask & mask) &&
				    s->r[i].tid != t->id &&
				    s->r[i].clk > t->vc.c[s->r[i].tid])
					race_found(a, wr, 0, s->r[i].tid, pc);
			if (s->wtid == t->id && s->wclk == me)
				s->wmask |= mask;
			else
				s->wmask = mask;
			s->wtid = t->id;
			s->wclk = me;
			s->nr = 0;
		} else {
			slot = -1;
			for (i = 0; i < s->nr; i++)
				if (s->r[i].tid == t->id)
					slot = i;
			if (slot == -1) {
				slot = s->nr < 4 ? s->nr++ : 3;
				s->r[slot].mask = 0;
			}
			s->r[slot].tid = t->id;
			s->r[slot].clk = me;
			s->r[slot].mask |= mask;
		}
		a += k;
		n -= k;
	}
}

static inline int
race_on(void)
{

	return (W.cur != NULL && W.race_detect && W.cur->p->ever_threads &&
	    !W.cur->p->exited);
}

static void
race_free(void * p, size_t n)
{

	if (race_on() && n < 65536)
		race_acc((uintptr_t)p, n, 1, __builtin_return_address(0));
}

void
vc_join(struct vclock * a, const struct vclock * b)
{
	int i;

	for (i = 0; i < SIM_NTHR; i++)
		if (b->c[i] > a->c[i])
			a->c[i] = b->c[i];
}

void
vc_release(struct vclock * obj)
{

	if (W.cur == NULL)
		return;
	vc_join(obj, &W.cur->vc);
	W.cur->vc.c[W.cur->id]++;
}

void
vc_acquire(const struct vclock * obj)
{

	if (W.cur)
		vc_join(&W.cur->vc, obj);
}

static uint64_t acc_count, acc_step;

static inline void
acc(const void * a, size_t n, int wr, void * pc)
{

	if (W.cur == NULL)
		return;
	if (in_arena(a))
		heap_chk(a, n, wr, pc);
	if (++acc_count - acc_step > 400000000ULL)
		violate("*", "%s: runs forever without calling the system",
		    W.cur->p->name);
	if (race_on()) {
		race_acc((uintptr_t)a, n, wr, pc);
		if (X_ON(K_MEMPREEMPT))
			sys_mempoint();
	}
}

void
sim_access(const void * a, size_t n, int wr)
{

	if (n)
		acc(a, n, wr, __builtin_return_address(0));
}

#define RA __builtin_return_address(0)
#define H(nm, sz, wr) void nm(void * a) { acc(a, sz, wr, RA); }
H(__tsan_read1, 1, 0) H(__tsan_read2, 2, 0) H(__tsan_read4, 4, 0)
H(__tsan_read8, 8, 0) H(__tsan_read16, 16, 0)
H(__tsan_write1, 1, 1) H(__tsan_write2, 2, 1) H(__tsan_write4, 4, 1)
H(__tsan_write8, 8, 1) H(__tsan_write16, 16, 1)
H(__tsan_unaligned_read2, 2, 0) H(__tsan_unaligned_read4, 4, 0)
H(__tsan_unaligned_read8, 8, 0) H(__tsan_unaligned_read16, 16, 0)
H(__tsan_unaligned_write2, 2, 1) H(__tsan_unaligned_write4, 4, 1)
H(__tsan_unaligned_write8, 8, 1) H(__tsan_unaligned_write16, 16, 1)
H(__tsan_volatile_read1, 1, 0) H(__tsan_volatile_read2, 2, 0)
H(__tsan_volatile_read4, 4, 0) H(__tsan_volatile_read8, 8, 0)
H(__tsan_volatile_write1, 1, 1) H(__tsan_volatile_write2, 2, 1)
H(__tsan_volatile_write4, 4, 1) H(__tsan_volatile_write8, 8, 1)
void __tsan_read_range(void * a, size_t n) { sim_access(a, n, 0); }
void __tsan_write_range(void * a, size_t n) { sim_access(a, n, 1); }
void __tsan_vptr_update(void ** a, void * v) { (void)a; (void)v; }
void __tsan_func_entry(void * pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* Atomics: sequentially consistent, and synchronizing. */
static struct { uintptr_t a; struct vclock vc; } avc[64];
static struct vclock *
atomic_vc(const void * a)
{
	int i;

	for (i = 0; i < 64; i++) {
		if (avc[i].a == 0)
			avc[i].a = (uintptr_t)a;
		if (avc[i].a == (uintptr_t)a)
			return (&avc[i].vc);
	}
	machine_error("too many atomics");
}
static void
atomic_sync(const void * a, size_t n, int wr)
{

	heap_chk(a, n, wr, RA);
	sys_enter("atomic");
	vc_acquire(atomic_vc(a));
	if (wr)
		vc_release(atomic_vc(a));
}
#define ATOMICS(T, N) \
T __tsan_atomic##N##_load(const volatile T * a, int mo) { (void)mo; atomic_sync((const void *)a, sizeof(T), 0); return (*a); } \
void __tsan_atomic##N##_store(volatile T * a, T v, int mo) { (void)mo; atomic_sync((const void *)a, sizeof(T), 1); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T * a, T v, int mo) { T o; (void)mo; atomic_sync((const void *)a, sizeof(T), 1); o = *a; *a = v; return (o); } \
T __tsan_atomic##N##_fetch_add(volatile T * a, T v, int mo) { T o; (void)mo; atomic_sync((const void *)a, sizeof(T), 1); o = *a; *a = o + v; return (o); } \
T __tsan_atomic##N##_fetch_sub(volatile T * a, T v, int mo) { T o; (void)mo; atomic_sync((const void *)a, sizeof(T), 1); o = *a; *a = o - v; return (o); } \
T __tsan_atomic##N##_fetch_or(volatile T * a, T v, int mo) { T o; (void)mo; atomic_sync((const void *)a, sizeof(T), 1); o = *a; *a = o | v; return (o); } \
T __tsan_atomic##N##_fetch_and(volatile T * a, T v, int mo) { T o; (void)mo; atomic_sync((const void *)a, sizeof(T), 1); o = *a; *a = o & v; return (o); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int mo2) { (void)mo; (void)mo2; atomic_sync((const void *)a, sizeof(T), 1); if (*a == *e) { *a = v; return (1); } *e = *a; return (0); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int mo2) { return (__tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, mo2)); }
ATOMICS(uint8_t, 8) ATOMICS(uint16_t, 16) ATOMICS(uint32_t, 32) ATOMICS(uint64_t, 64)

/* Checked memory functions. */
void * sim_memcpy(void * d, const void * s, size_t n) { sim_access(s, n, 0); sim_access(d, n, 1); return (memcpy(d, s, n)); }
void * sim_memmove(void * d, const void * s, size_t n) { sim_access(s, n, 0); sim_access(d, n, 1); return (memmove(d, s, n)); }
void * sim_memset(void * d, int c, size_t n) { sim_access(d, n, 1); return (memset(d, c, n)); }
int sim_memcmp(const void * a, const void * b, size_t n) { sim_access(a, n, 0); sim_access(b, n, 0); return (memcmp(a, b, n)); }
void sim_explicit_bzero(void * d, size_t n) { sim_access(d, n, 1); memset(d, 0, n); }
size_t sim_strlen(const char * s) { size_t n = strlen(s); sim_access(s, n + 1, 0); return (n); }
char * sim_strcpy(char * d, const char * s) { size_t n = strlen(s) + 1; sim_access(s, n, 0); sim_access(d, n, 1); return (strcpy(d, s)); }
char * sim_strncpy(char * d, const char * s, size_t n) { sim_access(d, n, 1); sim_access(s, strnlen(s, n), 0); return (strncpy(d, s, n)); }
int sim_strcmp(const char * a, const char * b) { sim_access(a, 1, 0); sim_access(b, 1, 0); return (strcmp(a, b)); }
int sim_strncmp(const char * a, const char * b, size_t n) { if (n) { sim_access(a, 1, 0); sim_access(b, 1, 0); } return (strncmp(a, b, n)); }
char * sim_strchr(const char * a, int c) { sim_access(a, strlen(a) + 1, 0); return (strchr(a, c)); }
char * sim_strrchr(const char * a, int c) { sim_access(a, strlen(a) + 1, 0); return (strrchr(a, c)); }

void w_user(int n) { W.user += n; }
void w_user2(int n) { W.user2 = n; }
int w_sysfailed(void) { return (W.sysfailed); }

/* ------------------------------------------------------------------ */
/* Scheduler. */
void
sys_mempoint(void)
{
	struct thr * t = W.cur;
	int i, n = 0, ids[SIM_NTHR], c;

	for (i = 0; i < W.nthr; i++)
		if (&W.thrs[i] != t && thr_ready(&W.thrs[i]))
			ids[n++] = i;
	if (n && (c = choose(K_MEMPREEMPT, n + 1, "preempt-mem"))) {
		W.forced = ids[c - 1];
		thr_yield();
	}
}

int
thr_ready(struct thr * t)
{

	if (t->state == 1)
		return (1);
	if (t->state != 2)
		return (0);
	if (t->pred && t->pred(t))
		return (1);
	if (W.now >= t->deadline)
		return (1);
	if (t->at_cancel_point && t->cancel_pending && !t->cancel_disabled)
		return (1);
	if (t->intr_ok && t == t->p->mainthr && !t->p->is_actor) {
		int i;

		for (i = 1; i < 65; i++)
			if (t->p->sig_pending[i])
				return (1);
	}
	return (0);
}

void
thr_yield(void)
{
	struct thr * t = W.cur;

	sim_switch(&t->sp, W.sched_sp);
}

static void
deliver(struct proc * p, int sig)
{
	void (*h)(int) = (void (*)(int))p->sighand[sig];
	struct thr * t = W.cur;
	int e = t->err;

	p->sig_pending[sig] = 0;
	x_trace_note("%s: signal %d delivered", p->name, sig);
	if (h == (void (*)(int))SIG_IGN)
		return;
	if (h == (void (*)(int))SIG_DFL) {
		if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH)
			return;
		/* Process 1 only gets what it has asked for. */
		if (p->pid == 1)
			return;
		proc_die(p, 1000 + sig);
		return;
	}
	p->sig_ready = 1;
	if (p->sig_oneshot[sig])
		p->sighand[sig] = (void *)SIG_DFL;
	p->in_handler++;
	h(sig);
	p->in_handler--;
	t->err = e;
}

/* Handle pending signals of the current process; 1 if a handler ran. */
int
sig_check(void)
{
	struct proc * p = W.cur->p;
	int i, any = 0;

	if (p->is_actor || W.cur != p->mainthr || p->in_handler)
		return (0);
	for (i = 1; i < 65; i++) {
		if (p->sig_pending[i]) {
			if (p->sighand[i] != (void *)SIG_IGN)
				any = 1;
			deliver(p, i);
		}
	}
	return (any);
}

void
w_kill(struct proc * p, int sig)
{

	if (!p->exited && p->sighand[sig] != (void *)SIG_IGN)
		p->sig_pending[sig] = 1;
}

int
block(int (*pred)(struct thr *), uint64_t deadline, int intr_ok,
    const char * what)
{
	struct thr * t = W.cur;

	t->pred = pred;
	t->deadline = deadline;
	t->intr_ok = intr_ok;
	t->what = what;
	if (pred && pred(t))
		return (0);
	t->state = 2;
	thr_yield();
	t->state = 1;
	if (t->pred && t->pred(t))
		return (0);
	if (t->at_cancel_point && t->cancel_pending && !t->cancel_disabled)
		return (3);
	if (t->intr_ok && sig_check())
		return (2);
	if (W.now >= t->deadline)
		return (1);
	return (2);
}

static uint64_t
state_hash(const char * nm)
{
	uint64_t h = 7;
	int i;
	extern struct chan * allchans[];
	extern int nallchans;

	for (i = 0; i < nallchans; i++) {
		struct chan * c = allchans[i];
		uint32_t v[3] = { c->loglen, c->rd, c->wclosed * 2 + c->rclosed };

		h = x_hash(h, v, sizeof(v));
	}
	for (i = 0; i < W.nthr; i++)
		h = h * 31 + W.thrs[i].state;
	h = x_hash(h, &W.now, 8);
	h = x_hash(h, nm, strlen(nm));
	h += W.cur ? W.cur->id : 99;
	for (i = 0; i < W.nproc; i++)
		h = h * 131 + W.procs[i].heap_blocks + W.procs[i].exited * 7;
	return (h);
}

/* Entry of every simulated system call. */
void
sys_enter(const char * name)
{
	struct thr * t = W.cur;
	struct proc * p;
	int i, n, c, ids[SIM_NTHR];

	if (t == NULL)
		return;
	p = t->p;
	p->syscalls++;
	acc_step = acc_count;
	x_transition();
	if (++W.steps > W.maxsteps)
		violate("*", "%s: no progress: more than %lu system calls "
		    "(last: %s)", p->name, (long)W.maxsteps, name);
	if (p->is_actor)
		return;
	if (W.cost) {
		/* Meanwhile, others run. */
		W.now += W.cost;
		thr_yield();
	}
	x_state(state_hash(name));
	if (W.on_syscall)
		W.on_syscall(p, name);
	if (p->sig_armed && t == p->mainthr && !p->in_handler &&
	    (W.chfilter == NULL || W.chfilter(p, K_SIGNAL, "signal-here")) &&
	    choose(K_SIGNAL, 2, "signal-here")) {
		int s = p->sig_armed;

		p->sig_armed = 0;
		p->sig_pending[s] = 1;
		p->t_sig = W.now;
		x_trace_note("%s: signal %d arrives", p->name, s);
	}
	sig_check();
	if (p->kill_armed && (W.chfilter == NULL || W.chfilter(p, K_CRASH, "killed-here")) &&
	    choose(K_CRASH, 2, "killed-here"))
		proc_die(p, 1000 + SIGKILL);
	if (X_ON(K_PREEMPT)) {
		n = 0;
		for (i = 0; i < W.nthr; i++)
			if (&W.thrs[i] != t && thr_ready(&W.thrs[i]))
				ids[n++] = i;
		if (n && (c = choose(K_PREEMPT, n + 1, "preempt"))) {
			W.forced = ids[c - 1];
			thr_yield();
		}
	}
}

void
thr_cancel_check(void)
{
	struct thr * t = W.cur;

	if (t->cancel_pending && !t->cancel_disabled && !t->p->is_actor)
		thr_do_cancel();
}

static void
thr_entry(void)
{
	struct thr * t = W.cur;

	t->state = 1;
	t->ran = 1;
	if (t->fn) {
		void * r = t->fn(t->farg);

		thr_exit(r);
	}
	if (t->p->actorfn) {
		t->p->actorfn(t->p->arg);
		proc_die(t->p, 0);
	}
	sim_exit(t->p->mainfn(t->p->argc, t->p->argv));
	abort();
}

struct thr *
thr_new(struct proc * p)
{
	struct thr * t;
	void ** sp;
	int i;

	for (i = 0; i < SIM_NTHR; i++)
		if (W.thrs[i].state == 0)
			break;
	if (i == SIM_NTHR)
		machine_error("too many threads");
	if (i >= W.nthr)
		W.nthr = i + 1;
	t = &W.thrs[i];
	memset(t, 0, sizeof(*t));
	t->id = i;
	t->p = p;
	t->deadline = UINT64_MAX;
	t->stack = STKBASE + (size_t)i * (STKSZ + 65536);
	if (mmap(t->stack, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE |
	    MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) !=
	    t->stack)
		machine_error("mmap stack");
	sp = (void **)(t->stack + STKSZ - 64);
	*--sp = NULL;			/* alignment / return address */
	*--sp = (void *)thr_entry;
	for (i = 0; i < 6; i++)
		*--sp = NULL;
	t->sp = sp;
	t->state = 1;
	if (W.cur && W.cur->p == p) {
		t->vc = W.cur->vc;
		W.cur->vc.c[W.cur->id]++;
	}
	t->vc.c[t->id] = 1;
	p->nthr++;
	return (t);
}

void
w_timer(uint64_t at, void (*fn)(void *), void * a)
{

	if (W.ntimers == 256)
		machine_error("too many timers");
	W.timers[W.ntimers].t = at;
	W.timers[W.ntimers].fn = fn;
	W.timers[W.ntimers].a = a;
	W.ntimers++;
}

static uint64_t
next_deadline(void)
{
	uint64_t m = UINT64_MAX;
	int i;

	for (i = 0; i < W.nthr; i++)
		if (W.thrs[i].state == 2 && W.thrs[i].deadline < m)
			m = W.thrs[i].deadline;
	for (i = 0; i < W.ntimers; i++)
		if (W.timers[i].t < m)
			m = W.timers[i].t;
	return (m);
}

static void
run_timers(void)
{
	int i;

again:
	for (i = 0; i < W.ntimers; i++) {
		if (W.timers[i].t <= W.now) {
			void (*fn)(void *) = W.timers[i].fn;
			void * a = W.timers[i].a;

			W.timers[i] = W.timers[--W.ntimers];
			fn(a);
			goto again;
		}
	}
}

/* ------------------------------------------------------------------ */
/*
 * fork(): parent and child use the same addresses, so each has a copy of its
 * image's data, of the blocks on the heap which were there at the time, and of
 * its stack; the copies are exchanged when the other one runs.  Memory which
 * is allocated later has addresses of its own.
 */
struct region { uint8_t * a; size_t len; };
struct family {
	struct proc * resident;
	int nreg, cap;
	struct region * reg;
};
struct view { uint8_t ** copy; uint8_t * stk; size_t stklen; uint8_t * stka; };
static struct thr * fork_req;

static void
as_addreg(struct family * f, void * a, size_t len)
{

	if (len == 0)
		return;
	if (f->nreg == f->cap) {
		f->cap = f->cap * 2 + 64;
		f->reg = realloc(f->reg, f->cap * sizeof(*f->reg));
	}
	f->reg[f->nreg].a = a;
	f->reg[f->nreg++].len = len;
}

static void
as_save(struct proc * p)
{
	struct family * f = p->fam;
	struct view * v = p->view;
	struct thr * t = p->mainthr;
	int i;

	if (v == NULL) {
		v = p->view = calloc(1, sizeof(*v));
		v->copy = calloc(f->nreg, sizeof(uint8_t *));
		for (i = 0; i < f->nreg; i++)
			v->copy[i] = malloc(f->reg[i].len);
		v->stk = malloc(STKSZ);
	}
	for (i = 0; i < f->nreg; i++)
		memcpy(v->copy[i], f->reg[i].a, f->reg[i].len);
	v->stka = (uint8_t *)t->sp - 256;
	if (v->stka < (uint8_t *)t->stack)
		machine_error("stack overflow");
	v->stklen = (uint8_t *)t->stack + STKSZ - v->stka;
	memcpy(v->stk, v->stka, v->stklen);
}

static void
as_activate(struct proc * p)
{
	struct family * f = p->fam;
	struct view * v = p->view;
	int i;

	if (f->resident == p)
		return;
	if (!f->resident->exited)
		as_save(f->resident);
	for (i = 0; i < f->nreg; i++)
		memcpy(f->reg[i].a, v->copy[i], f->reg[i].len);
	memcpy(v->stka, v->stk, v->stklen);
	f->resident = p;
}

static void
as_fork(struct thr * t)
{
	struct proc * p = t->p, * c;
	struct family * f;
	struct thr * n;
	size_t off;
	int i;

	if (p->fam)
		machine_error("a second fork() is not supported");
	if (p->nthr > 1)
		machine_error("fork() with threads is not supported");
	f = p->fam = calloc(1, sizeof(*f));
	for (i = 0; img_table[i].mainfn || img_table[i].b[0] != (char *)-1; i++)
		if (img_table[i].mainfn == p->mainfn && p->mainfn)
			break;
	if (img_table[i].mainfn == NULL)
		machine_error("fork() by an unknown image");
	for (off = 0; off < 6; off += 2)
		if (img_table[i].b[off])
			as_addreg(f, img_table[i].b[off], img_table[i].b[off + 1] - img_table[i].b[off]);
	for (off = 0; off < arena_off; ) {
		struct hblk * b = (struct hblk *)(ARENA + off);
		size_t need = sizeof(struct hblk) + ((b->len + 15) & ~15UL) + 32;

		if (b->p == p && !b->freed) {
			as_addreg(f, b, need);
			as_addreg(f, SHADOW + off, need);
		}
		off += need;
	}
	/* The child. */
	if (W.nproc == SIM_NPROC)
		machine_error("too many processes");
	c = &W.procs[W.nproc];
	i = c->id;
	*c = *p;
	c->id = W.nproc++;
	snprintf(c->name, sizeof(c->name), "%.16s-child", p->name);
	c->pid = 100 + c->id;
	c->parent = p;
	c->nthr = 1;
	c->out = NULL;
	c->outlen = c->outcap = 0;
	c->errlen = c->loglen = 0;
	c->view = NULL;
	c->sig_armed = 0;
	memset(c->sig_pending, 0, sizeof(c->sig_pending));
	for (i = 0; i < SIM_NFD; i++)
		if (c->fds[i])
			c->fds[i]->refs++;
	for (i = 0; i < SIM_NTHR; i++)
		if (W.thrs[i].state == 0)
			break;
	if (i == SIM_NTHR)
		machine_error("too many threads");
	if (i >= W.nthr)
		W.nthr = i + 1;
	n = &W.thrs[i];
	*n = *t;
	n->id = i;
	n->p = c;
	n->state = 1;
	memset(&n->vc, 0, sizeof(n->vc));
	n->vc.c[i] = 1;
	c->mainthr = n;
	/* Its memory. */
	f->resident = p;
	as_save(c);
	for (i = 0; i < f->nreg; i++)
		if (f->reg[i].a >= ARENA && f->reg[i].a < ARENA + ARENASZ)
			((struct hblk *)((struct view *)c->view)->copy[i])->p = c;
	t->a2 = c->pid;
	n->a2 = 0;
	x_trace_note("%s: fork() = %u", p->name, c->pid);
}

int
do_fork(void)
{

	fork_req = W.cur;
	thr_yield();
	return (W.cur->a2);
}

struct proc *
w_child(struct proc * p, int n)
{
	int i;

	for (i = 0; i < W.nproc; i++)
		if (W.procs[i].parent == p && n-- == 0)
			return (&W.procs[i]);
	return (NULL);
}

void
w_creds(struct proc * p, unsigned uid, unsigned gid, int ng, const unsigned * g)
{

	p->uid = p->euid = p->suid = uid;
	p->gid = p->egid = p->sgid = gid;
	p->ngroups = ng;
	if (ng)
		memcpy(p->groups, g, ng * sizeof(*g));
}

void
w_run(void)
{
	int i, n, ids[SIM_NTHR], c;
	uint64_t d;

	for (;;) {
		run_timers();
		if (W.on_step)
			W.on_step();
		if (W.cost && W.now > W.horizon)
			return;
		n = 0;
		for (i = 0; i < W.nthr; i++) {
			int k = (W.rr + 1 + i) % W.nthr;

			if (thr_ready(&W.thrs[k]))
				ids[n++] = k;
		}
		if (n == 0) {
			d = next_deadline();
			if (d == UINT64_MAX || d > W.horizon) {
				W.deadlocked = 0;
				for (i = 0; i < W.nthr; i++)
					if (W.thrs[i].state == 2)
						W.deadlocked++;
				return;
			}
			if (d > W.now) {
				W.now = d;
				x_trace_note("-- time is now %.9f", W.now / 1e9);
			}
			continue;
		}
		c = 0;
		if (W.forced >= 0) {
			for (i = 0; i < n; i++)
				if (ids[i] == W.forced)
					c = i;
			W.forced = -1;
		} else {
			if (X_ON(K_TIME) && (d = next_deadline()) != UINT64_MAX &&
			    d > W.now && d <= W.horizon &&
			    choose(K_TIME, 2, "time-passes")) {
				W.now = d;
				x_trace_note("-- time jumps to %.9f", W.now / 1e9);
				continue;
			}
			c = choose(K_SCHED, n, "sched");
		}
		W.rr = ids[c];
		if (W.thrs[ids[c]].p->fam)
			as_activate(W.thrs[ids[c]].p);
		W.cur = &W.thrs[ids[c]];
		sim_switch(&W.sched_sp, W.cur->sp);
		W.cur = NULL;
		if (fork_req) {
			struct thr * ft = fork_req;

			fork_req = NULL;
			as_fork(ft);
		}
	}
}

/* ------------------------------------------------------------------ */
/* Processes. */
void
w_init(void)
{

	heap_init();
	rs_init();
	W.horizon = UINT64_MAX;
	W.now = 1000 * SEC;
	W.maxsteps = 400000;
	W.default_cap = 1 << 18;
	W.forced = -1;
	W.race_detect = 1;
}

static struct proc *
proc_new(const char * name)
{
	struct proc * p;

	if (W.nproc == SIM_NPROC)
		machine_error("too many processes");
	p = &W.procs[W.nproc];
	p->id = W.nproc++;
	snprintf(p->name, sizeof(p->name), "%s", name);
	p->nfd_max = SIM_NFD;
	p->pid = 100 + p->id;
	p->sid = 50;
	p->ppid = 1;
	p->prng_seed = p->prng = 0x1234567 * (p->id + 1);
	return (p);
}

/* Start it only after a while. */
void
w_delay(struct proc * p, uint64_t ns)
{

	p->mainthr->state = 2;
	p->mainthr->deadline = W.now + ns;
}

struct proc *
w_spawnv(const char * name, int (*mainfn)(int, char **), int argc,
    const char ** argv)
{
	struct proc * p = proc_new(name);
	int i;
	struct sfile * f;

	p->mainfn = mainfn;
	p->argc = argc;
	p->argv = calloc(argc + 1, sizeof(char *));
	for (i = 0; i < argc; i++)
		p->argv[i] = strdup(argv[i]);
	for (i = 0; i < 3; i++) {
		f = mkfile(F_NULL);
		p->fds[i] = f;
		f->refs = 1;
	}
	p->mainthr = thr_new(p);
	return (p);
}

struct proc *
w_spawn(const char * name, int (*mainfn)(int, char **), const char * cmdline)
{
	const char * av[64];
	int ac = 0;
	char * s = strdup(cmdline), * q;

	for (q = strtok(s, " "); q; q = strtok(NULL, " "))
		av[ac++] = q;
	return (w_spawnv(name, mainfn, ac, av));
}

struct proc *
w_actor(const char * name, void (*fn)(void *), void * arg)
{
	struct proc * p = proc_new(name);

	p->is_actor = 1;
	p->actorfn = fn;
	p->arg = arg;
	p->mainthr = thr_new(p);
	return (p);
}

struct proc *
w_cur(void)
{

	return (W.cur ? W.cur->p : NULL);
}

/* The secret has been wiped when a program ends in good order. */
static void
chk_secret(struct proc * p)
{
	size_t off = 0;

	while (off < arena_off) {
		struct hblk * b = (struct hblk *)(ARENA + off);

		if (b->p == p && !b->freed && holds_secret(b)) {
			violate("C34", "%s has ended, but a block of %zu bytes still holds the secret", p->name, b->len);
			return;
		}
		off += sizeof(struct hblk) + ((b->len + 15) & ~15UL) + 32;
	}
}

void
w_secret(const void * file, size_t len)
{

	W.secret_on = 1;
	ref_sha256(file, len, W.secret);
}

void
proc_die(struct proc * p, int status)
{
	int i;

	if (p->exited)
		return;
	p->exited = 1;
	p->status = status;
	p->t_exit = W.now;
	if (!p->is_actor)
		x_trace_note("%s: exits with status %d", p->name, status);
	if (p->on_exit)
		p->on_exit(p);
	for (i = 0; i < SIM_NFD; i++)
		if (p->fds[i])
			fd_release(p, i);
	for (i = 0; i < W.nthr; i++)
		if (W.thrs[i].p == p && W.thrs[i].state != 0)
			W.thrs[i].state = 3;
	if (W.cur && W.cur->p == p)
		thr_yield();
}

void
sim_exit(int st)
{
	struct proc * p = W.cur->p;

	sys_enter("exit");
	while (p->natexit > 0)
		p->atexits[--p->natexit]();
	if (W.secret_on && (st & 0xff) == 0 && !p->is_actor)
		chk_secret(p);
	proc_die(p, st & 0xff);
	abort();
}

void sim__exit(int st) { sys_enter("_exit"); proc_die(W.cur->p, st & 0xff); abort(); }
void sim__Exit(int st) { sim__exit(st); }

void
sim_abort(void)
{

	if (W.abort_ok == NULL || W.cur->p->out == NULL ||
	    strstr(W.cur->p->out, W.abort_ok) == NULL)
		violate("*", "%s: abort() called", W.cur->p->name);
	proc_die(W.cur->p, 1006);
	abort();
}

void
sim___assert_fail(const char * e, const char * f, unsigned l, const char * fn)
{

	violate("*", "%s: assertion failed: %s (%s:%u %s)", W.cur->p->name, e,
	    f, l, fn);
	proc_die(W.cur->p, 1006);
	abort();
}

void
sim___stack_chk_fail(void)
{

	violate("*", "%s: stack smashing detected", W.cur->p->name);
	abort();
}

int
sim_atexit(void (*fn)(void))
{
	struct proc * p = W.cur->p;

	if (CHF(K_SYSFAIL, "atexit"))
		return (-1);
	if (p->natexit == 16)
		return (-1);
	p->atexits[p->natexit++] = fn;
	return (0);
}

int * sim___errno_location(void)
{
	static int dummy;

	return (W.cur ? &W.cur->err : &dummy);
}

/* ------------------------------------------------------------------ */
/* Threads. */
struct sobj {
	void * addr;
	int kind;		/* 1 mutex 2 cond */
	int alive;
	struct thr * owner;
	int recursive, count;
	struct vclock vc;
};
static struct sobj sobjs[4096];
static int nsobj;

static struct sobj *
so_get(void * a, int kind, int create)
{
	int i;
	struct sobj * o;

	for (i = nsobj - 1; i >= 0; i--)
		if (sobjs[i].addr == a && sobjs[i].kind == kind)
			return (&sobjs[i]);
	if (!create) {
		size_t k, n = kind == 1 ? sizeof(pthread_mutex_t) :
		    sizeof(pthread_cond_t);

		/* A static initializer is all zeroes. */
		for (k = 0; k < n; k++)
			if (((uint8_t *)a)[k] != 0) {
				violate("*", "%s: use of an uninitialised %s",
				    W.cur->p->name, kind == 1 ? "mutex" :
				    "condition variable");
				return (NULL);
			}
	}
	if (nsobj == 4096)
		machine_error("too many sync objects");
	o = &sobjs[nsobj++];
	memset(o, 0, sizeof(*o));
	o->addr = a;
	o->kind = kind;
	o->alive = 1;
	return (o);
}

static struct sobj *
so_use(void * a, int kind, const char * fn)
{
	struct sobj * o;

	heap_chk(a, 8, 0, NULL);
	o = so_get(a, kind, 0);
	if (o == NULL || !o->alive)
		violate("*", "%s: %s on a destroyed object", W.cur->p->name, fn);
	return (o);
}

int
sim_pthread_mutex_init(void * m, const void * attr)
{
	struct sobj * o;

	(void)attr;
	if (CHF(K_SYSFAIL, "mutex_init"))
		return (ENOMEM);
	heap_chk(m, sizeof(pthread_mutex_t), 1, NULL);
	o = so_get(m, 1, 1);
	o->alive = 1;
	o->owner = NULL;
	return (0);
}

int
sim_pthread_mutex_destroy(void * m)
{
	struct sobj * o = so_use(m, 1, "mutex_destroy");

	if (o->owner)
		violate("*", "%s: destroying a locked mutex", W.cur->p->name);
	o->alive = 0;
	return (0);
}

static int
mutex_free_p(struct thr * t)
{

	return (((struct sobj *)t->a0)->owner == NULL);
}

static void
mutex_lock(struct sobj * o)
{
	struct thr * t = W.cur;

	if (o->owner == t)
		violate("*", "%s: self-deadlock on a mutex", t->p->name);
	t->a0 = o;
	block(mutex_free_p, UINT64_MAX, 0, "mutex_lock");
	if (o->owner)
		machine_error("mutex");
	o->owner = t;
	vc_acquire(&o->vc);
}

int
sim_pthread_mutex_lock(void * m)
{

	sys_enter("mutex_lock");
	mutex_lock(so_use(m, 1, "mutex_lock"));
	return (0);
}

int
sim_pthread_mutex_trylock(void * m)
{
	struct sobj * o;

	sys_enter("mutex_trylock");
	o = so_use(m, 1, "mutex_trylock");
	if (o->owner)
		return (EBUSY);
	mutex_lock(o);
	return (0);
}

static void
mutex_unlock(struct sobj * o)
{

	if (o->owner != W.cur)
		violate("*", "%s: unlocking a mutex which is not held",
		    W.cur->p->name);
	o->owner = NULL;
	vc_release(&o->vc);
}

int
sim_pthread_mutex_unlock(void * m)
{

	mutex_unlock(so_use(m, 1, "mutex_unlock"));
	sys_enter("mutex_unlock");
	return (0);
}

int
sim_pthread_cond_init(void * c, const void * attr)
{

	(void)attr;
	if (CHF(K_SYSFAIL, "cond_init"))
		return (ENOMEM);
	heap_chk(c, sizeof(pthread_cond_t), 1, NULL);
	so_get(c, 2, 1)->alive = 1;
	return (0);
}

struct cwait { struct thr * t; struct sobj * o; int signalled; };
static struct cwait cwaits[SIM_NTHR];

int
sim_pthread_cond_destroy(void * c)
{
	struct sobj * o = so_use(c, 2, "cond_destroy");
	int i;

	for (i = 0; i < SIM_NTHR; i++)
		if (cwaits[i].o == o && !cwaits[i].signalled)
			violate("*", "%s: destroying a condition variable with "
			    "waiters", W.cur->p->name);
	o->alive = 0;
	return (0);
}

static int
cond_p(struct thr * t)
{

	return (cwaits[t->id].signalled);
}

static int
cond_wait(void * c, void * m, uint64_t deadline)
{
	struct sobj * co, * mo;
	struct thr * t = W.cur;
	int rc;

	sys_enter("cond_wait");
	thr_cancel_check();
	co = so_use(c, 2, "cond_wait");
	mo = so_use(m, 1, "cond_wait");
	if (CHF(K_EINTR, "cond-spurious")) {
		mutex_unlock(mo);
		thr_yield();
		mutex_lock(mo);
		return (0);
	}
	mutex_unlock(mo);
	cwaits[t->id].o = co;
	cwaits[t->id].signalled = 0;
	t->at_cancel_point = 1;
	rc = block(cond_p, deadline, 0, "cond_wait");
	t->at_cancel_point = 0;
	cwaits[t->id].o = NULL;
	mutex_lock(mo);
	if (rc == 3)
		thr_do_cancel();
	return (rc == 1 ? ETIMEDOUT : 0);
}

int sim_pthread_cond_wait(void * c, void * m) { return (cond_wait(c, m, UINT64_MAX)); }
int sim_pthread_cond_timedwait(void * c, void * m, const struct timespec * ts) { return (cond_wait(c, m, ts->tv_sec * SEC + ts->tv_nsec)); }

int
sim_pthread_cond_signal(void * c)
{
	struct sobj * o;
	int i, n = 0, ids[SIM_NTHR];

	sys_enter("cond_signal");
	o = so_use(c, 2, "cond_signal");
	for (i = 0; i < SIM_NTHR; i++)
		if (cwaits[i].o == o && !cwaits[i].signalled)
			ids[n++] = i;
	if (n)
		cwaits[ids[choose(K_SCHED, n, "cond-wakes")]].signalled = 1;
	return (0);
}

int
sim_pthread_cond_broadcast(void * c)
{
	struct sobj * o;
	int i;

	sys_enter("cond_broadcast");
	o = so_use(c, 2, "cond_broadcast");
	for (i = 0; i < SIM_NTHR; i++)
		if (cwaits[i].o == o)
			cwaits[i].signalled = 1;
	return (0);
}

struct cleanup { void (*fn)(void *); void * arg; void * prev; };
void
sim_cleanup_push(struct cleanup * c, void (*fn)(void *), void * arg)
{

	c->fn = fn;
	c->arg = arg;
	c->prev = W.cur->cleanup;
	W.cur->cleanup = c;
}

void
sim_cleanup_pop(struct cleanup * c, int ex)
{

	if (W.cur->cleanup != c)
		machine_error("cleanup stack");
	W.cur->cleanup = c->prev;
	if (ex)
		c->fn(c->arg);
}

void
thr_exit(void * ret)
{
	struct thr * t = W.cur;
	struct cleanup * c;
	int i, live = 0;

	t->cancel_disabled = 1;
	while ((c = t->cleanup) != NULL) {
		t->cleanup = c->prev;
		c->fn(c->arg);
	}
	t->ret = ret;
	t->state = 3;
	t->joinable_done = 1;
	t->vc.c[t->id]++;
	for (i = 0; i < W.nthr; i++)
		if (W.thrs[i].p == t->p && (W.thrs[i].state == 1 ||
		    W.thrs[i].state == 2))
			live++;
	for (i = 0; i < nsobj; i++)
		if (sobjs[i].owner == t)
			violate("*", "%s: thread ended holding a mutex",
			    t->p->name);
	if (live == 0)
		proc_die(t->p, 0);
	thr_yield();
	abort();
}

void
thr_do_cancel(void)
{

	W.cur->cancelled = 1;
	x_trace_note("%s: thread %d cancelled", W.cur->p->name, W.cur->id);
	thr_exit(PTHREAD_CANCELED);
}

int
sim_pthread_create(unsigned long * h, const void * attr,
    void * (*fn)(void *), void * arg)
{
	struct thr * t;

	(void)attr;
	sys_enter("pthread_create");
	if (CHF(K_SYSFAIL, "pthread_create"))
		return (EAGAIN);
	W.cur->p->ever_threads = 1;
	t = thr_new(W.cur->p);
	t->fn = fn;
	t->farg = arg;
	sim_access(h, 8, 1);
	*h = t->id + 1000;
	return (0);
}

static struct thr *
tget(unsigned long h, const char * fn)
{
	struct thr * t;

	if (h < 1000 || h >= 1000 + (unsigned)W.nthr ||
	    (t = &W.thrs[h - 1000])->p != W.cur->p) {
		violate("*", "%s: %s with an invalid thread id",
		    W.cur->p->name, fn);
		return (NULL);
	}
	if (t->joined || (t->detached && t->state == 3)) {
		violate("*", "%s: %s on a thread which was already joined",
		    W.cur->p->name, fn);
		return (NULL);
	}
	return (t);
}

static int
join_p(struct thr * t)
{

	return (((struct thr *)t->a0)->state == 3);
}

int
sim_pthread_join(unsigned long h, void ** ret)
{
	struct thr * t, * me = W.cur;
	int rc;

	sys_enter("pthread_join");
	thr_cancel_check();
	t = tget(h, "pthread_join");
	if (t == me)
		return (EDEADLK);
	me->a0 = t;
	me->at_cancel_point = 1;
	rc = block(join_p, UINT64_MAX, 0, "pthread_join");
	me->at_cancel_point = 0;
	if (rc == 3)
		thr_do_cancel();
	t->joined = 1;
	vc_acquire(&t->vc);
	if (ret)
		*ret = t->ret;
	return (0);
}

int
sim_pthread_detach(unsigned long h)
{
	struct thr * t = tget(h, "pthread_detach");

	t->detached = 1;
	return (0);
}

int
sim_pthread_cancel(unsigned long h)
{
	struct thr * t;

	sys_enter("pthread_cancel");
	t = tget(h, "pthread_cancel");
	t->cancel_pending = 1;
	if (t->state == 3 && CHF(K_SYSFAIL, "cancel-ESRCH"))
		return (ESRCH);
	return (0);
}

unsigned long sim_pthread_self(void) { return (W.cur->id + 1000); }
int sim_pthread_equal(unsigned long a, unsigned long b) { return (a == b); }
void sim_pthread_exit(void * r) { sys_enter("pthread_exit"); thr_exit(r); }
void sim_pthread_testcancel(void) { sys_enter("testcancel"); thr_cancel_check(); }

int
sim_pthread_setcancelstate(int st, int * old)
{

	if (old)
		*old = W.cur->cancel_disabled ? PTHREAD_CANCEL_DISABLE :
		    PTHREAD_CANCEL_ENABLE;
	W.cur->cancel_disabled = (st == PTHREAD_CANCEL_DISABLE);
	return (0);
}

int sim_pthread_setcanceltype(int ty, int * old) { if (old) *old = PTHREAD_CANCEL_DEFERRED; (void)ty; return (0); }
int sim_pthread_kill(unsigned long h, int s) { (void)h; w_kill(W.cur->p, s); return (0); }
int sim_pthread_attr_init(void * a) { (void)a; return (0); }
int sim_pthread_attr_destroy(void * a) { (void)a; return (0); }
int sim_pthread_attr_setdetachstate(void * a, int d) { (void)a; (void)d; return (0); }
int sim_pthread_mutexattr_init(void * a) { (void)a; return (0); }
int sim_pthread_mutexattr_destroy(void * a) { (void)a; return (0); }
int sim_pthread_mutexattr_settype(void * a, int k) { (void)a; (void)k; return (0); }
int sim_pthread_condattr_init(void * a) { (void)a; return (0); }
int sim_pthread_condattr_destroy(void * a) { (void)a; return (0); }
int sim_pthread_sigmask(int how, const void * s, void * o) { (void)how; (void)s; if (o) memset(o, 0, sizeof(sigset_t)); return (0); }
int sim_sigprocmask(int how, const void * s, void * o) { return (sim_pthread_sigmask(how, s, o)); }
int sim_sched_yield(void) { sys_enter("sched_yield"); thr_yield(); return (0); }

const char *
w_describe(struct proc * p)
{
	static char b[600];

	snprintf(b, sizeof(b), "%s exited=%d status=%d state=%d waiting in %s; "
	    "output: %.300s", p->name, p->exited, p->status, p->mainthr->state,
	    p->mainthr->what ? p->mainthr->what : "-", p->out ? p->out : "");
	return (b);
}

uint8_t
pat(int stream, size_t i)
{
	uint64_t x = (uint64_t)stream * 0x9e3779b97f4a7c15ULL + i;

	if (i == 0)
		return (stream);
	x ^= x >> 31;
	x *= 0xbf58476d1ce4e5b9ULL;
	x ^= x >> 27;
	return ((uint8_t)(x >> 11));
}

void
patfill(uint8_t * b, int stream, size_t off, size_t len)
{
	size_t i;

	for (i = 0; i < len; i++)
		b[i] = pat(stream, off + i);
}
