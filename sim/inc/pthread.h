/* The real pthread.h, with cleanup handlers redirected to the simulator. */
#include_next <pthread.h>
#ifndef SIM_PTHREAD_H
#define SIM_PTHREAD_H
struct sim_cleanup_ { void (*fn)(void *); void * arg; void * prev; };
void sim_cleanup_push(struct sim_cleanup_ *, void (*)(void *), void *);
void sim_cleanup_pop(struct sim_cleanup_ *, int);
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(f, a) do { struct sim_cleanup_ sim_c_; sim_cleanup_push(&sim_c_, (f), (a));
#define pthread_cleanup_pop(x) sim_cleanup_pop(&sim_c_, (x)); } while (0)
#endif
