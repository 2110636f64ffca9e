/* Controlled scheduler: the threads of one execution run one at a time, and every switch is a choice of the explorer.
 * Scheduling points: every access of the library to memory that is not its thread's own (compiler instrumentation),
 * every simulated system call, every thread operation, and sched_point() in harnesses.  See engine/msched.c. */
#ifndef SCHED_H
#define SCHED_H
#include <stddef.h>
#include <stdint.h>
void  sched_begin(void);                 /* the calling thread becomes thread 0 of an execution */
void  sched_end(int leaks);              /* the other threads run to their end; judges what is left */
void  sched_point(const char *what);     /* another thread may run */
void  sched_cancel_point(const char *what); /* ... and the thread may end here if it is cancelled */
void  sched_block(int (*ready)(void *), void *arg, int cancellable, const char *what);
int   sched_self(void);                  /* 0 is the owner */
int   sched_alive(void);                 /* threads that have not ended, the owner included */
int   sched_created(void);
int   sched_pending_cancel(void);        /* the calling thread has been cancelled */
void *sched_new(size_t, const char *name); /* memory of the harness's objects */
void  sched_delete(void *);
void  sched_fence_off(void *, int allow);  /* only the owner and threads from number allow on may touch this object */
void  sched_check(const void *, size_t, const char *what); /* not freed memory */
long  sched_heap(void);                  /* live blocks allocated by the library */
extern uint64_t sched_state_base;         /* identifies what the threads do, in state counts */
extern int sched_memory_points;          /* memory accesses are scheduling points: 0 none, 1 all, 2 those to static data */
int   sched_spawn(void *(*)(void *), void *, const char *name); /* a thread of the harness */
#endif
