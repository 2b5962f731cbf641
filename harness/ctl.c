#define _GNU_SOURCE
#include "ctl.h"
#include <ucontext.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <time.h>

#define MAXT 64
#define STK (256 * 1024)
enum { FREE, RUN, BLOCK, SETTLE, DONE };
typedef struct { ucontext_t cx; char *stk; int st; void *(*fn)(void *); void *arg; void *ret; const volatile void *on; long prio; int yields, joined, detached; } thr;
static thr T[MAXT]; static int nT = 1, cur; static uint64_t rs; static int mode; static long steps, limit, streak; static long low; static long chg[16]; static int nchg; static int active;
jmp_buf sch_abort_jmp; static int aborting; int sch_fail_create, sch_eintr; static char *mainbase;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
typedef struct { const void *a; long v; int owner; } obj; static obj O[4096]; static int nO;
static obj *find(const void *a, int mk) { for (int i = 0; i < nO; i++) if (O[i].a == a) return &O[i]; if (!mk) return 0; if (nO == 4096) { fprintf(stderr, "too many objects\n"); exit(3); } O[nO].a = a; O[nO].v = 0; O[nO].owner = -1; return &O[nO++]; }
static void drop(const void *a) { for (int i = 0; i < nO; i++) if (O[i].a == a) { O[i] = O[--nO]; return; } }

void sch_begin(unsigned long long seed, int m, int k, long lim) {
    char here; if (!mainbase) mainbase = &here + 65536;
    for (int i = 1; i < nT; i++) T[i].st = FREE;
    nT = 1; cur = 0; rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 8; i++) rnd();
    mode = m; steps = 0; limit = lim; streak = 0; low = 0; nO = 0; aborting = 0; active = 1; sch_fail_create = 0; sch_eintr = 0;
    memset(&T[0], 0, sizeof T[0]); T[0].st = RUN; T[0].prio = 1000000 + rnd() % 1000000;
    nchg = 0; if (mode >= 1) { nchg = mode > 8 ? 8 : mode; for (int i = 0; i < nchg; i++) chg[i] = 1 + rnd() % (k > 0 ? k : 1); }
    (void)k;
}
int sch_self(void) { return cur; }
long sch_steps(void) { return steps; }
int sch_count(void) { return nT; }
static int settled(void) { for (int i = 1; i < nT; i++) if (T[i].st == RUN && T[i].yields < 4) return 0; return 1; }
static void abandon(int why) { if (cur == 0) { active = 0; longjmp(sch_abort_jmp, why); } aborting = why; int me = cur; cur = 0; swapcontext(&T[me].cx, &T[0].cx); abort(); }
static void go(int n) {
    int me = cur; if (n == me) return; streak = 0; cur = n; swapcontext(&T[me].cx, &T[n].cx);
    if (aborting && cur == 0) { int w = aborting; aborting = 0; active = 0; longjmp(sch_abort_jmp, w); }
}
static void pick(int leave) { /* leave: prefer another thread */
    int c[MAXT], n = 0; int s = T[0].st == SETTLE && settled();
    for (int i = 0; i < nT; i++) if (T[i].st == RUN || (i == 0 && s)) c[n++] = i;
    if (!n) abandon(SCH_STUCK);
    if (s) { go(0); return; }
    int b = -1;
    if (mode == 0 || T[0].st == SETTLE) { /* while settling everybody must get its turn */
        if (leave && n > 1) { do b = c[rnd() % n]; while (b == cur); } else b = c[rnd() % n];
    } else { for (int i = 0; i < n; i++) if (b < 0 || T[c[i]].prio > T[b].prio) b = c[i]; }
    go(b);
}
static void step(void) { steps++; streak++; if (steps > limit) abandon(SCH_ENDLESS); }
void sch_point(void) {
    if (!active) return; step();
    if (mode == 0) { if (rnd() % 4 == 0) pick(0); else if (streak > 3000) sch_yield(); return; }
    int hit = 0; for (int i = 0; i < nchg; i++) if (chg[i] == steps) hit = 1;
    if (hit) T[cur].prio = --low;
    if (streak > 400) { T[cur].prio = --low; hit = 1; }
    if (hit || T[cur].st != RUN) pick(1);
}
void sch_yield(void) { if (!active) return; step(); T[cur].yields++; T[cur].prio = --low; pick(1); }
static void block(const volatile void *on) { T[cur].on = on; T[cur].st = BLOCK; step(); pick(1); }
static void wake(const volatile void *on) { for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].on == on) { T[i].st = RUN; T[i].yields = 0; } }
void sch_progress(void) { for (int i = 0; i < nT; i++) T[i].yields = 0; }
void sch_settle(void) { if (!active) return; sch_progress(); T[0].st = SETTLE; pick(1); T[0].st = RUN; }
void sch_gate_wait(volatile int *g) { while (!*g) block(g); }
void sch_gate_open(volatile int *g) { *g = 1; wake(g); }
static void entry(void) { int me = cur; T[me].ret = T[me].fn(T[me].arg); me = cur; T[me].st = DONE; wake(&T[me]); sch_progress(); for (;;) { pick(1); } }
int sch_spawn(void *(*fn)(void *), void *arg) {
    if (nT == MAXT) return -1;
    int n = nT++; thr *t = &T[n]; char *stk = t->stk; memset(t, 0, sizeof *t); t->stk = stk ? stk : malloc(STK);
    t->fn = fn; t->arg = arg; t->prio = 1000000 + rnd() % 1000000; getcontext(&t->cx); t->cx.uc_stack.ss_sp = t->stk; t->cx.uc_stack.ss_size = STK; t->cx.uc_link = 0; makecontext(&t->cx, entry, 0); t->st = RUN;
    if (mode && T[cur].st == RUN && t->prio > T[cur].prio) pick(0);
    return n;
}
void sch_join(int n) { while (T[n].st != DONE) block(&T[n]); T[n].joined = 1; }
int sch_alive(int n) { return T[n].st != DONE; }

/* ---- the primitives zpl is built on */
#define H 0x1000
int __wrap_pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    sch_point(); if (sch_fail_create && --sch_fail_create == 0) return EAGAIN;
    if (nT == MAXT) return EAGAIN;
    int n = nT; *h = (pthread_t)(H + n); sch_spawn(fn, arg);
    if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); T[n].detached = d == PTHREAD_CREATE_DETACHED; }
    sch_point(); return 0;
}
int __wrap_pthread_join(pthread_t h, void **r) { sch_point(); long n = (long)h - H; if (n < 1 || n >= nT || T[n].joined || T[n].detached) return ESRCH; if (n == cur) return EDEADLK; sch_join(n); if (r) *r = T[n].ret; sch_point(); return 0; }
int __wrap_pthread_detach(pthread_t h) { long n = (long)h - H; if (n < 1 || n >= nT) return ESRCH; T[n].detached = 1; return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(long)(H + cur); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { obj *o = find(m, 1); o->owner = -1; o->v = 0; if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); o->v = k == PTHREAD_MUTEX_RECURSIVE ? 1 : 0; } return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { obj *o = find(m, 0); if (o && o->owner >= 0) return EBUSY; drop(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { sch_point(); while (find(m, 1)->owner >= 0) { obj *o = find(m, 1); if (o->owner == cur && o->v) { o->v++; return 0; } block(m); } find(m, 1)->owner = cur; sch_point(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { sch_point(); obj *o = find(m, 1); if (o->owner >= 0) { if (o->owner == cur && o->v) { o->v++; return 0; } return EBUSY; } o->owner = cur; sch_point(); return 0; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { sch_point(); obj *o = find(m, 1); if (o->owner >= 0) return ETIMEDOUT; o->owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { sch_point(); obj *o = find(m, 1); if (o->v > 1) { o->v--; return 0; } o->owner = -1; wake(m); sch_point(); return 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { obj *o = find(s, 1); o->v = v; return 0; }
int __wrap_sem_destroy(sem_t *s) { drop(s); return 0; }
int __wrap_sem_post(sem_t *s) { sch_point(); find(s, 1)->v++; wake(s); sch_point(); return 0; }
int __wrap_sem_wait(sem_t *s) { sch_point(); while (find(s, 1)->v == 0) { if (sch_eintr && (int)(rnd() % 100) < sch_eintr) { sch_yield(); T[cur].yields = 0; if (find(s, 1)->v == 0 && (int)(rnd() % 100) < 60) { errno = EINTR; return -1; } continue; } block(s); } find(s, 1)->v--; sch_point(); return 0; }
int __wrap_sem_trywait(sem_t *s) { sch_point(); obj *o = find(s, 1); if (o->v == 0) { errno = EAGAIN; return -1; } o->v--; sch_point(); return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *t) { sch_point(); obj *o = find(s, 1); if (o->v == 0) { errno = ETIMEDOUT; return -1; } o->v--; return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = (int)find(s, 1)->v; return 0; }
int __wrap_sched_yield(void) { sch_yield(); return 0; }
int __wrap_usleep(unsigned u) { sch_yield(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { sch_yield(); return 0; }

/* ---- instrumentation callbacks: each is a scheduling point unless the address is on the running thread's own stack */
static void acc(const volatile void *p) {
    if (!active) return; char here; const char *c = (const char *)p;
    if (cur == 0) { if (c > &here - 4096 && c < mainbase) return; } else if (c >= T[cur].stk && c < T[cur].stk + STK) return;
    sch_point();
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } \
  void __tsan_volatile_read##n(void *p) { acc(p); } void __tsan_volatile_write##n(void *p) { acc(p); } void __tsan_unaligned_volatile_read##n(void *p) { acc(p); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p); } void __tsan_read##n##_pc(void *p, void *q) { acc(p); } void __tsan_write##n##_pc(void *p, void *q) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p); }
void __tsan_write_range(void *p, unsigned long n) { acc(p); }
#define AT(b, t) \
 t __tsan_atomic##b##_load(const volatile t *a, int m) { acc(a); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##b##_store(volatile t *a, t v, int m) { acc(a); __atomic_store_n(a, v, 5); } \
 t __tsan_atomic##b##_exchange(volatile t *a, t v, int m) { acc(a); return __atomic_exchange_n(a, v, 5); } \
 t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_add(a, v, 5); } \
 t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_sub(a, v, 5); } \
 t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_and(a, v, 5); } \
 t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_or(a, v, 5); } \
 t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_xor(a, v, 5); } \
 t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int m) { acc(a); return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int m, int f) { acc(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int m, int f) { acc(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int m, int f) { acc(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { sch_point(); }
void __tsan_atomic_signal_fence(int m) {}
extern void zpl_yield_thread(void);
void __cyg_profile_func_enter(void *f, void *c) { if (!active) return; if (f == (void *)zpl_yield_thread) sch_yield(); else sch_point(); }
void __cyg_profile_func_exit(void *f, void *c) { if (active) sch_point(); }
