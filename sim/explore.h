/*
 * Bounded exhaustive exploration by forking at choice points.
 *
 * A "run" is one execution of a scenario.  Every source of nondeterminism is
 * resolved by choose(); alternative 0 is the default answer, any other
 * alternative costs one unit of the deviation budget (choose_free() costs
 * nothing and is used for scenario parameters).  At a choice point with budget
 * left the process forks one child per non-default alternative; so the
 * explorer enumerates every sequence of answers with at most `bound'
 * deviations.
 */
#ifndef EXPLORE_H
#define EXPLORE_H
#include <stdint.h>
#include <stddef.h>

/* Kinds of choices; a scenario enables a subset. */
enum {
	K_FREE = 0,	/* scenario parameter, cost 0 */
	K_SCHED,	/* which ready thread runs when the running one blocks */
	K_PREEMPT,	/* switch away from a runnable thread at a syscall */
	K_SHORTR,	/* short read */
	K_SHORTW,	/* short write */
	K_EAGAIN,	/* spurious EAGAIN */
	K_EINTR,	/* EINTR from a system call */
	K_POLLSUB,	/* poll reports only some ready descriptors */
	K_CONNECT,	/* connect completes/fails in some way */
	K_NETERR,	/* connection reset, etc. */
	K_ALLOC,	/* allocation failure */
	K_SYSFAIL,	/* system call failure (fd exhaustion, ...) */
	K_SIGNAL,	/* a signal arrives here */
	K_ADV,		/* attacker's choice */
	K_DNS,		/* resolver's answer */
	K_TIME,		/* time passes here */
	K_CRASH,	/* process dies here */
	K_MEMPREEMPT,	/* switch at a shared memory access */
	K_MAX
};

int choose(int kind, int n, const char * label);
int choose_free(int n, const char * label);

extern uint32_t x_enabled;		/* bit mask of enabled kinds */
#define X_ENABLE(k)	(x_enabled |= (1u << (k)))
#define X_DISABLE(k)	(x_enabled &= ~(1u << (k)))
#define X_ON(k)		(x_enabled & (1u << (k)))

/* Report a violation; tags is a comma separated list of property ids or "*". */
void violate(const char * tags, const char * fmt, ...)
    __attribute__((format(printf, 2, 3)));
/* The checking machinery itself is at fault (never a verdict). */
void machine_error(const char * fmt, ...)
    __attribute__((format(printf, 1, 2), noreturn));

/* Statistics. */
void x_state(uint64_t h);		/* a visited state */
void x_outcome(uint64_t h);		/* the outcome of a finished run */
void x_transition(void);		/* one environment step */
void x_sample(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void x_count(int slot, uint64_t n);	/* user counters 0..7 */
int x_violated(void);			/* this run has violated something */
void x_leaf(void) __attribute__((noreturn));	/* end of this run */
uint64_t x_hash(uint64_t h, const void * p, size_t len);
int x_replaying(void);
void x_trace_note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
extern int x_verbose;

/* Memo of pure functions shared between all the runs of one exploration. */
int x_memo_get(uint64_t k1, uint64_t k2, uint8_t * out, size_t len);
void x_memo_put(uint64_t k1, uint64_t k2, const uint8_t * out, size_t len);

/*
 * Main entry: called by each checker binary.  scen(arg) runs a scenario to the
 * end and must finish by x_leaf().
 */
struct x_scenario {
	const char * name;
	void (*fn)(void);
	int bound_quick;	/* deviation bound, quick tier */
	int bound_thorough;
	const char * props;	/* properties it serves */
};
int x_main(int argc, char ** argv, const struct x_scenario * scens);
extern const char * x_tier;
extern int x_bound;
#endif
