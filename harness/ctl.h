/* Controlled scheduler: threads created by the code under test become coroutines of one real thread; every
   access to shared memory, atomic operation, call and blocking primitive in the instrumented zpl code is a
   scheduling point.  A run is a function of (seed, mode, k), so every schedule can be replayed. */
#ifndef SCHED_H
#define SCHED_H
#include <setjmp.h>
extern jmp_buf sch_abort_jmp;        /* where a stuck or endless run is abandoned: set by the harness' main loop */
enum { SCH_STUCK = 1, SCH_ENDLESS = 2 };
void sch_begin(unsigned long long seed, int mode, int k, long limit); /* forget all threads, start a new run */
void sch_point(void);
void sch_yield(void);
int  sch_self(void);                 /* 0 = main */
void sch_progress(void);             /* something observable happened: restart the settling clock */
void sch_settle(void);               /* main: let the others run until each is blocked, ended or only idling */
void sch_gate_wait(volatile int *g); /* block until *g != 0 */
void sch_gate_open(volatile int *g);
int  sch_spawn(void *(*fn)(void *), void *arg); /* a harness thread */
void sch_join(int t);
int  sch_alive(int t);
extern int sch_fail_create;          /* n > 0: the n-th next pthread_create fails with EAGAIN */
extern int sch_eintr;                /* percentage of blocking semaphore waits that return EINTR first */
long sch_steps(void);
int  sch_count(void);               /* threads created so far, main included */
#endif
