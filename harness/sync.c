/* Threads running little programs over mutexes, semaphores and a barrier.  Built twice: under the controlled scheduler,
   and (-DVP_REAL) with real threads.  Every call is logged before it is made and after it returned.
   prog T op op ...      thread T's program; op = name[:arg[:arg]]
   main op op ...        operations of the main thread (thread 0) */
#include "vp.h"
#ifdef VP_REAL
#define ZPL_IMPLEMENTATION
#endif
#include "zpl.h"
#include <pthread.h>
#define NT 10
#ifdef VP_REAL
#include <sched.h>
#include <time.h>
static void sch_point(void) {}
static void sch_yield(void) { sched_yield(); }
static void sch_progress(void) {}
static int sch_fail_create, sch_eintr;
static void sch_gate_wait(volatile int *g) { while (!__atomic_load_n(g, 5)) sched_yield(); }
static void sch_gate_open(volatile int *g) { __atomic_store_n(g, 1, 5); }
static void sch_begin(unsigned long long a, int b, int c, long d) {}
static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
#define EVB pthread_mutex_lock(&evm)
#define EVE pthread_mutex_unlock(&evm)
#else
#include "ctl.h"
#define EVB (void)0
#define EVE sch_progress()
#endif
static zpl_mutex M[4]; static zpl_semaphore S[4]; static zpl_sync B; static volatile int G[64]; static zpl_thread TH[NT + 1]; static int kindof[NT + 1];
typedef struct { int t; int n; char op[600][20]; } prog; static prog PR[NT + 1]; static int tag[NT + 1];
#define LOG(name, ...) do { EVB; ev(name); ev_int("t", t); __VA_ARGS__; ev_end(); EVE; } while (0)
static void doop(int t, const char *o) {
    char n[20]; int a = 0, b = 0; const char *c = strchr(o, ':'); size_t k = c ? (size_t)(c - o) : strlen(o); memcpy(n, o, k); n[k] = 0; if (c) { a = atoi(c + 1); c = strchr(c + 1, ':'); if (c) b = atoi(c + 1); }
#define IS(x) !strcmp(n, x)
    if (IS("lock")) { LOG("lkb", ev_int("m", a)); zpl_mutex_lock(&M[a]); LOG("lke", ev_int("m", a)); }
    else if (IS("unlock")) { LOG("ulb", ev_int("m", a)); zpl_mutex_unlock(&M[a]); LOG("ule", ev_int("m", a)); }
    else if (IS("try")) { LOG("trb", ev_int("m", a)); int r = zpl_mutex_try_lock(&M[a]); LOG("tre", ev_int("m", a); ev_bool("res", r)); if (r && b) doop(t, b == 1 ? (a == 0 ? "unlock:0" : a == 1 ? "unlock:1" : a == 2 ? "unlock:2" : "unlock:3") : "y"); }
    else if (IS("minit")) { int r = zpl_mutex_init(&M[a]); LOG("minit", ev_int("m", a); ev_bool("res", r)); }
    else if (IS("mdestroy")) { int r = zpl_mutex_destroy(&M[a]); LOG("mdestroy", ev_int("m", a); ev_bool("res", r)); }
    else if (IS("sinit")) { zpl_semaphore_init(&S[a]); LOG("sinit", ev_int("s", a)); }
    else if (IS("sdestroy")) { zpl_semaphore_destroy(&S[a]); LOG("sdestroy", ev_int("s", a)); }
    else if (IS("post")) { LOG("pob", ev_int("s", a); ev_int("n", b)); zpl_semaphore_post(&S[a], b); LOG("poe", ev_int("s", a); ev_int("n", b)); }
    else if (IS("release")) { LOG("pob", ev_int("s", a); ev_int("n", 1)); zpl_semaphore_release(&S[a]); LOG("poe", ev_int("s", a); ev_int("n", 1)); }
    else if (IS("wait")) { LOG("wab", ev_int("s", a)); zpl_semaphore_wait(&S[a]); LOG("wae", ev_int("s", a)); }
    else if (IS("tw")) { LOG("twb", ev_int("s", a)); int r = zpl_semaphore_trywait(&S[a]); LOG("twe", ev_int("s", a); ev_bool("res", r == 0)); }
    else if (IS("y")) sch_yield();
    else if (IS("gate")) { LOG("gtb", ev_int("g", a)); sch_gate_wait(&G[a]); LOG("gte", ev_int("g", a)); }
    else if (IS("open")) { LOG("open", ev_int("g", a)); sch_gate_open(&G[a]); }
    else if (IS("binit")) { zpl_sync_init(&B); LOG("binit"); }
    else if (IS("bdestroy")) { zpl_sync_destroy(&B); LOG("bdestroy"); }
    else if (IS("target")) { LOG("tgb", ev_int("n", a)); zpl_sync_set_target(&B, a); LOG("tge", ev_int("n", a)); }
    else if (IS("reach")) { LOG("rb"); int r = zpl_sync_reach(&B); LOG("re", ev_int("n", r)); }
    else if (IS("rw")) { LOG("rb"); zpl_sync_reach_and_wait(&B); LOG("rwe"); }
    else if (IS("tinit")) { if (b == 1) zpl_thread_init_nowait(&TH[a]); else zpl_thread_init(&TH[a]); kindof[a] = b; LOG("tinit", ev_int("x", a); ev_bool("nowait", b == 1)); }
    else if (IS("start")) { extern zpl_isize body(zpl_thread *); tag[a]++; LOG("stb", ev_int("x", a)); int r = b ? zpl_thread_start_with_stack(&TH[a], body, &PR[a], b) : zpl_thread_start(&TH[a], body, &PR[a]); LOG("ste", ev_int("x", a); ev_bool("res", r)); }
    else if (IS("join")) { LOG("jnb", ev_int("x", a)); zpl_thread_join(&TH[a]); int r = zpl_thread_is_running(&TH[a]); long v = (long)TH[a].return_value; LOG("jne", ev_int("x", a); ev_int("ret", v); ev_bool("run", r)); }
    else if (IS("tdestroy")) { LOG("tdb", ev_int("x", a)); zpl_thread_destroy(&TH[a]); int r = zpl_thread_is_running(&TH[a]); long v = (long)TH[a].return_value; LOG("tde", ev_int("x", a); ev_int("ret", v); ev_bool("run", r)); }
    else if (IS("running")) { LOG("rnb", ev_int("x", a)); int r = zpl_thread_is_running(&TH[a]); LOG("rne", ev_int("x", a); ev_bool("res", r)); }
    else if (IS("failcreate")) { LOG("fail"); sch_fail_create = 1; }
    else if (IS("eintr")) sch_eintr = a;
    else { fprintf(stderr, "unknown op %s\n", o); exit(3); }
}
zpl_isize body(zpl_thread *th) {
    prog *p = (prog *)th->user_data; int t = p >= PR && p < PR + NT + 1 ? (int)(p - PR) : -1; int own = t >= 0 && th == &TH[t]; int g = tag[t < 0 ? 0 : t];
    LOG("begin", ev_int("x", t); ev_bool("own", own));
    for (int i = 0; i < p->n; i++) doop(t, p->op[i]);
    LOG("end", ev_int("x", t); ev_int("ret", t * 100 + g));
    return t * 100 + g;
}
static int skip;
#ifndef VP_REAL
static void fresh(void) { }
#endif
int main(int argc, char **argv) {
    vp_open(argc, argv);
#ifndef VP_REAL
    int why = setjmp(sch_abort_jmp);
    if (why) { ev(why == SCH_STUCK ? "stuck" : "endless"); ev_int("at", 0); ev_end(); skip = 1; }
#endif
    while (vp_next()) {
        if (is("seg")) { skip = 0; memset((void *)G, 0, sizeof G); memset(PR, 0, sizeof PR); memset(TH, 0, sizeof TH); memset(M, 0, sizeof M); memset(S, 0, sizeof S); memset(&B, 0, sizeof B); memset(tag, 0, sizeof tag); sch_begin(1, 0, 0, 200000); vp_seg(); continue; }
        if (skip) continue;
        if (is("sched")) sch_begin(au(1), (int)ai(2), (int)ai(3), 200000);
        else if (is("prog")) { prog *p = &PR[ai(1)]; p->n = 0; for (int i = 2; i < vp_ntok; i++) { strncpy(p->op[p->n], vp_tok[i], 19); p->n++; } }
        else if (is("main")) for (int i = 1; i < vp_ntok; i++) doop(0, vp_tok[i]);
        else vp_bad();
    }
    _exit(0);
}
