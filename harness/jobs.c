/* Job system under the controlled scheduler.  Main runs the script; workers are coroutines. */
#include "vp.h"
#include "ctl.h"
#include "zpl.h"
#define MAXJ 4096
typedef struct { int id, kind, len; volatile int gate; } jd;
static jd *J; static int nj, wbase; static zpl_jobs_system *pool; static int up;
static void go(jd *j, int f) {
    ev("start"); ev_int("id", j->id); ev_int("f", f); ev_int("w", sch_self() - wbase); ev_end(); sch_progress();
    if (j->kind == 1) sch_gate_wait(&j->gate); else for (int i = 0; i < j->len; i++) sch_point();
    ev("fin"); ev_int("id", j->id); ev_int("w", sch_self() - wbase); ev_end(); sch_progress();
}
static void p0(void *d) { go((jd *)d, 0); }
static void p1(void *d) { go((jd *)d, 1); }
static void p2(void *d) { go((jd *)d, 2); }
static zpl_jobs_proc P[3] = { p0, p1, p2 };
static void reset(void) { J = (jd *)calloc(MAXJ, sizeof(jd)); nj = 0; pool = (zpl_jobs_system *)calloc(1, sizeof *pool); up = 0; }
/* saturated rounds: jobs carry only their priority */
static int tk_started[64], tk_n; static volatile int tk_p[5] = { 0, 1, 2, 3, 4 };
static void tj(void *d) { if (tk_n < 64) tk_started[tk_n++] = *(volatile int *)d; sch_progress(); }
static unsigned tseed = 7;
static void tick(const int *q) {
    for (int p = 0; p < 5; p++) if (q[p]) while (!zpl_jobs_full(pool, (zpl_jobs_priority)p)) if (!zpl_jobs_enqueue_with_priority(pool, tj, (void *)&tk_p[p], (zpl_jobs_priority)p)) break;
    int w[5]; for (int p = 0; p < 5; p++) w[p] = !zpl_jobs_empty(pool, (zpl_jobs_priority)p);
    tk_n = 0; zpl_jobs_process(pool); sch_settle();
    ev("round"); ev_arr("w"); for (int p = 0; p < 5; p++) ev_item(w[p]); ev_arrend(); ev_arr("s"); for (int i = 0; i < tk_n; i++) ev_item(tk_started[i]); ev_arrend(); ev_end();
}
static void *opener(void *n) { for (long i = 0; i < (long)n; i++) sch_yield(); for (int i = 0; i < nj; i++) sch_gate_open(&J[i].gate); return 0; }
static int skip;
int main(int argc, char **argv) {
    vp_open(argc, argv); reset();
    int why = setjmp(sch_abort_jmp);
    if (why) { ev(why == SCH_STUCK ? "stuck" : "endless"); ev_int("at", 0); ev_end(); skip = 1; }
    while (vp_next()) {
        if (is("seg")) { skip = 0; reset(); sch_begin(1, 0, 0, 1000000); vp_seg(); continue; }
        if (skip) continue;
        if (is("sched")) { sch_begin(au(1), (int)ai(2), (int)ai(3), vp_ntok > 4 ? ai(4) : 1000000); }
        else if (is("failcreate")) { sch_fail_create = (int)ai(1); }
        else if (is("init")) { J = (jd *)calloc(MAXJ, sizeof(jd)); nj = 0; wbase = sch_count() - 1; if (vp_ntok > 2) zpl_jobs_init_with_limit(pool, zpl_heap(), ai(1), ai(2)); else zpl_jobs_init(pool, zpl_heap(), ai(1)); up = 1;
            ev("init"); ev_int("t", ai(1)); ev_int("m", vp_ntok > 2 ? ai(2) : 100); ev_end(); }
        else if (is("enq")) { /* enq prio func kind len ; prio 9 = the call without a priority */
            jd *j = &J[nj]; j->id = nj + 1; j->kind = (int)ai(3); j->len = (int)ai(4); nj++;
            int r = ai(1) == 9 ? zpl_jobs_enqueue(pool, P[ai(2)], j) : zpl_jobs_enqueue_with_priority(pool, P[ai(2)], j, (zpl_jobs_priority)ai(1));
            ev("enq"); ev_int("p", ai(1) == 9 ? 2 : ai(1)); ev_int("id", j->id); ev_int("f", ai(2)); ev_bool("res", r); ev_end(); }
        else if (is("process")) { for (int n = 0, c = (int)ai(1); n < c; n++) { ev("proc"); ev_end(); int r = zpl_jobs_process(pool); ev("procd"); ev_bool("res", r); ev_end(); } }
        else if (is("run")) { for (int i = 0; i < (int)ai(1); i++) sch_yield(); }
        else if (is("settle")) { sch_settle(); ev("settle"); ev_end(); }
        else if (is("release")) { sch_gate_open(&J[ai(1) - 1].gate); ev("release"); ev_int("id", ai(1)); ev_end(); }
        else if (is("empty")) { int r = zpl_jobs_empty(pool, (zpl_jobs_priority)ai(1)); ev("empty"); ev_int("p", ai(1)); ev_bool("res", r); ev_end(); }
        else if (is("full")) { int r = zpl_jobs_full(pool, (zpl_jobs_priority)ai(1)); ev("full"); ev_int("p", ai(1)); ev_bool("res", r); ev_end(); }
        else if (is("query")) { int e[5], f[5]; for (int p = 0; p < 5; p++) { e[p] = zpl_jobs_empty(pool, (zpl_jobs_priority)p); f[p] = zpl_jobs_full(pool, (zpl_jobs_priority)p); }
            int ea = zpl_jobs_empty_all(pool), fa = zpl_jobs_full_all(pool);
            ev("query"); ev_arr("e"); for (int p = 0; p < 5; p++) ev_item(!!e[p]); ev_arrend(); ev_arr("f"); for (int p = 0; p < 5; p++) ev_item(!!f[p]); ev_arrend(); ev_bool("ea", ea); ev_bool("fa", fa); ev_end(); }
        else if (is("done")) { int r = zpl_jobs_done(pool); ev("done"); ev_bool("res", r); ev_end(); }
        else if (is("drain")) { /* as an application does: process until done */
            for (int i = 0; i < nj; i++) sch_gate_open(&J[i].gate);
            ev("proc"); ev_end(); long n = 0, lim = ai(1); while (!zpl_jobs_done(pool) && n < lim) { zpl_jobs_process(pool); sch_yield(); n++; }
            ev("drained"); ev_bool("res", n < lim); ev_end(); }
        else if (is("free")) { /* free: running jobs can end by themselves; free N: something else lets them end, N turns later */
            if (vp_ntok < 2) for (int i = 0; i < nj; i++) sch_gate_open(&J[i].gate); else sch_spawn(opener, (void *)(long)ai(1));
            ev("freeing"); ev_end(); zpl_jobs_free(pool); ev("freed"); ev_end(); up = 0; for (int i = 0; i < 40; i++) sch_yield(); }
        else if (is("tick")) { /* rounds of a saturated system: keep the named queues filled (p) or at random (r) */
            for (int r = 0; r < (int)ai(1); r++) { int q[5] = { 0 }; for (int i = 2; i < vp_ntok; i++) { int p = abs((int)ai(i)) - 1; q[p] = ai(i) > 0 || rand_r(&tseed) % 2; } tick(q); } }
        else vp_bad();
    }
    _exit(0);
}
