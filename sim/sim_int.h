#ifndef SIM_INT_H
#define SIM_INT_H
#include <time.h>
#include "sim.h"
void sys_enter(const char * name);
void sys_mempoint(void);
int thr_ready(struct thr *);
void thr_yield(void);
int sig_check(void);
int block(int (*pred)(struct thr *), uint64_t deadline, int intr_ok, const char * what);
void thr_cancel_check(void);
struct thr * thr_new(struct proc *);
void thr_exit(void *) __attribute__((noreturn));
void thr_do_cancel(void) __attribute__((noreturn));
void proc_die(struct proc *, int status);
void fd_release(struct proc *, int fd);
void sim_exit(int) __attribute__((noreturn));
void sim_access(const void * a, size_t n, int wr);
int do_fork(void);
struct imgent { int (*mainfn)(int, char **); char * b[6]; };
extern struct imgent img_table[];
void vc_join(struct vclock * a, const struct vclock * b);
void vc_release(struct vclock *);
void vc_acquire(const struct vclock *);
#endif
