/* Atomic operations: sequential semantics, concurrent histories, hammering.  Built for C, C++, the generic (non-x86) branch,
   and under the controlled scheduler (-DVP_CTL). */
#if defined(VP_CTL)
#include "zpl.h"
#elif defined(VP_GENERIC)
#include "generic.h"
#else
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#endif
#include "vp.h"
#include <pthread.h>
#include <sched.h>
#ifdef VP_CTL
#include "ctl.h"
#endif
#define NT 9
typedef struct { char f; uint64_t a, b; uint64_t r; long t0, t1; } call;   /* t0 = 0: not made */
typedef struct { int n; call c[64]; } prog;
static prog P[NT]; static int W; static zpl_atomic32 *c32; static zpl_atomic64 *c64; static zpl_atomic_ptr *cp; static char *mem;
static long clk; static volatile int run_; static int nthr;
/* the three families behind one face; f: l s c x + & | */
static uint64_t apply(char f, uint64_t a, uint64_t b) {
    if (W == 32) { zpl_i32 x = (zpl_i32)(uint32_t)a, y = (zpl_i32)(uint32_t)b; uint32_t r = 0;
        switch (f) { case 'l': r = zpl_atomic32_load(c32); break; case 's': zpl_atomic32_store(c32, x); break; case 'c': r = zpl_atomic32_compare_exchange(c32, x, y); break; case 'x': r = zpl_atomic32_exchange(c32, x); break;
          case '+': r = zpl_atomic32_fetch_add(c32, x); break; case '&': r = zpl_atomic32_fetch_and(c32, x); break; case '|': r = zpl_atomic32_fetch_or(c32, x); break; } return r; }
    if (W == 64) { zpl_i64 x = (zpl_i64)a, y = (zpl_i64)b; uint64_t r = 0;
        switch (f) { case 'l': r = zpl_atomic64_load(c64); break; case 's': zpl_atomic64_store(c64, x); break; case 'c': r = zpl_atomic64_compare_exchange(c64, x, y); break; case 'x': r = zpl_atomic64_exchange(c64, x); break;
          case '+': r = zpl_atomic64_fetch_add(c64, x); break; case '&': r = zpl_atomic64_fetch_and(c64, x); break; case '|': r = zpl_atomic64_fetch_or(c64, x); break; } return r; }
    void *x = (void *)(uintptr_t)a, *y = (void *)(uintptr_t)b; void *r = 0;
    switch (f) { case 'l': r = zpl_atomic_ptr_load(cp); break; case 's': zpl_atomic_ptr_store(cp, x); break; case 'c': r = zpl_atomic_ptr_compare_exchange(cp, x, y); break; case 'x': r = zpl_atomic_ptr_exchange(cp, x); break;
      case '+': r = zpl_atomic_ptr_fetch_add(cp, x); break; case '&': r = zpl_atomic_ptr_fetch_and(cp, x); break; case '|': r = zpl_atomic_ptr_fetch_or(cp, x); break; } return (uint64_t)(uintptr_t)r;
}
static int lk_lock(long to) { return W == 32 ? zpl_atomic32_spin_lock(c32, to) : W == 64 ? zpl_atomic64_spin_lock(c64, to) : zpl_atomic_ptr_spin_lock(cp, to); }
static int lk_try(void) { return W == 32 ? zpl_atomic32_try_acquire_lock(c32) : W == 64 ? zpl_atomic64_try_acquire_lock(c64) : zpl_atomic_ptr_try_acquire_lock(cp); }
static void lk_unlock(void) { if (W == 32) zpl_atomic32_spin_unlock(c32); else if (W == 64) zpl_atomic64_spin_unlock(c64); else zpl_atomic_ptr_spin_unlock(cp); }
static void cell(int w, uint64_t v) { W = w; if (!mem) mem = (char *)aligned_alloc(64, 192); memset(mem, 0xA5, 192); c32 = (zpl_atomic32 *)(mem + 64); c64 = (zpl_atomic64 *)(mem + 64); cp = (zpl_atomic_ptr *)(mem + 64); if (w == 32) { uint32_t x = (uint32_t)v; memcpy(mem + 64, &x, 4); } else memcpy(mem + 64, &v, 8); }
static uint64_t peek(void) { uint64_t v = 0; memcpy(&v, mem + 64, W == 32 ? 4 : 8); return v; }
static int around(void) { int n = W == 32 ? 4 : 8; for (int i = 0; i < 192; i++) if ((i < 64 || i >= 64 + n) && (unsigned char)mem[i] != 0xA5) return 0; return 1; }
static void val(const char *k, uint64_t v) { if (W == 32) ev_u32(k, (uint32_t)v); else ev_u64(k, v); }
static void pause_(void) {
#ifdef VP_CTL
    sch_yield();
#else
    sched_yield();
#endif
}
static void *conc(void *q) { prog *p = (prog *)q; int held = 0;
#ifndef VP_CTL
    __atomic_fetch_add(&run_, 1, 5); while (__atomic_load_n(&run_, 5) < nthr) ;
#endif
    for (int i = 0; i < p->n; i++) { call *c = &p->c[i]; if (c->f == 'u' && !held) continue; c->t0 = __atomic_fetch_add(&clk, 1, 5);
        switch (c->f) { case 'k': held = c->r = lk_lock((long)c->a); break; case 't': held = c->r = lk_try(); break; case 'u': lk_unlock(); held = 0; break; default: c->r = apply(c->f, c->a, c->b); }
        c->t1 = __atomic_fetch_add(&clk, 1, 5); }
    return 0; }
static void spawn_all(void *(*fn)(void *), int n) {
    run_ = 0; nthr = n;
#ifdef VP_CTL
    int h[NT]; for (int i = 0; i < n; i++) h[i] = sch_spawn(fn, &P[i]); for (int i = 0; i < n; i++) sch_join(h[i]);
#else
    pthread_t h[NT]; for (int i = 0; i < n; i++) if (pthread_create(&h[i], 0, fn, &P[i])) { fprintf(stderr, "no thread\n"); exit(3); } for (int i = 0; i < n; i++) pthread_join(h[i], 0);
#endif
}
static int cmp(const void *a, const void *b) { long x = **(long **)a, y = **(long **)b; return x < y ? -1 : x > y; }
static void history(int n) {
    long *t[2 * NT * 64]; int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < P[i].n; j++) if (P[i].c[j].t0) { t[k++] = &P[i].c[j].t0; t[k++] = &P[i].c[j].t1; }
    qsort(t, k, sizeof t[0], cmp);
    for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) for (int m = 0; m < P[j].n; m++) { call *c = &P[j].c[m]; char f[2] = { c->f == 'k' ? 't' : c->f, 0 };
        if (t[i] == &c->t0) { ev("inv"); ev_int("t", j); ev_name("f", f); val("a", c->a); val("b", c->b); ev_end(); }
        if (t[i] == &c->t1) { ev("ret"); ev_int("t", j); ev_name("f", f); val("r", c->r); ev_end(); } }
    ev("over"); val("v", peek()); ev_bool("clean", around()); ev_end();
}
/* hammering: every thread makes N calls; what must come out is simple arithmetic */
static char HK; static long HN; static uint64_t HA; static uint64_t rets[NT]; static volatile long plain; static long held[NT]; static uint64_t *seen; 
static void *hammer(void *q) { int me = (int)((prog *)q - P); uint64_t s = 0; long h = 0;
#ifndef VP_CTL
    __atomic_fetch_add(&run_, 1, 5); while (__atomic_load_n(&run_, 5) < nthr) ;
#endif
    for (long i = 0; i < HN; i++) switch (HK) {
        case '+': { uint64_t r = apply('+', HA, 0); s += r; break; }
        case 'c': { uint64_t o; do { o = apply('l', 0, 0); if (W == 32) o = (uint32_t)o; } while (({ uint64_t r = apply('c', o, o + HA); if (W == 32) r = (uint32_t)r; r; }) != o); s += o; break; }
        case 'x': s += apply('x', (uint64_t)(me * HN + i + 1), 0); break;
        case '|': { uint64_t r = apply('|', 1ull << (me * 4 + i % 4), 0); if (r >> (me * 4 + i % 4) & 1) h++; apply('&', ~(1ull << (me * 4 + i % 4)), 0); break; }
        case 'L': { if (!lk_lock(-1)) { s++; break; } long v = plain; for (volatile int k = 0; k < 3; k++) ; plain = v + 1; lk_unlock(); h++; break; }
        case 'T': { if (i % 2 ? !lk_lock(5) : !lk_try()) { s++; pause_(); break; } long v = plain; for (volatile int k = 0; k < 3; k++) ; plain = v + 1; lk_unlock(); h++; break; }
    }
    rets[me] = s; held[me] = h; return 0; }
static int skip;
int main(int argc, char **argv) {
    vp_open(argc, argv);
#ifdef VP_CTL
    int why = setjmp(sch_abort_jmp); if (why) { ev(why == SCH_STUCK ? "stuck" : "endless"); ev_int("at", 0); ev_end(); skip = 1; }
#endif
    while (vp_next()) {
        if (is("seg")) { skip = 0; memset(P, 0, sizeof P);
#ifdef VP_CTL
            sch_begin(1, 0, 0, 400000);
#endif
            vp_seg(); continue; }
        if (skip) continue;
        if (is("sched")) {
#ifdef VP_CTL
            sch_begin(au(1), (int)ai(2), (int)ai(3), 4000000);
#endif
        }
        else if (is("cell")) { cell((int)ai(1), au(2)); for (int i = 0; i < NT; i++) P[i].n = 0; ev("cell"); ev_int("w", W == 32 ? 2 : 4); val("v", au(2)); ev_end(); }
        else if (is("do")) { uint64_t a = vp_ntok > 2 ? au(2) : 0, b = vp_ntok > 3 ? au(3) : 0; char f[2] = { vp_tok[1][0], 0 }; uint64_t r = apply(f[0], a, b); ev("do"); ev_name("f", f); val("a", a); val("b", b); val("r", r); val("v", peek()); ev_bool("clean", around()); ev_end(); }
        else if (is("lock")) { int r = lk_lock(ai(1)); ev("lock"); val("r", r); val("v", peek()); ev_bool("clean", around()); ev_end(); }
        else if (is("try")) { int r = lk_try(); ev("lock"); val("r", r); val("v", peek()); ev_bool("clean", around()); ev_end(); }
        else if (is("unlock")) { lk_unlock(); ev("unlock"); val("v", peek()); ev_bool("clean", around()); ev_end(); }
        else if (is("p")) { prog *p = &P[ai(1)]; call *c = &p->c[p->n++]; c->f = vp_tok[2][0]; c->a = vp_ntok > 3 ? au(3) : 0; c->b = vp_ntok > 4 ? au(4) : 0; }
        else if (is("go")) { clk = 1; spawn_all(conc, (int)ai(1)); history((int)ai(1)); }
        else if (is("hammer")) { /* hammer kind threads N operand */
            HK = vp_tok[1][0]; int n = (int)ai(2); HN = ai(3); HA = au(4); plain = 0; uint64_t v0 = peek(); spawn_all(hammer, n);
            uint64_t s = 0, f = peek(); long h = 0; for (int i = 0; i < n; i++) { s += rets[i]; h += held[i]; }
            char k[2] = { HK, 0 }; ev("hammer"); ev_name("k", k); ev_int("n", n); ev_int("c", HN); val("a", HA); val("v0", v0); val("v", f); val("s", s); ev_int("h", h); ev_int("plain", plain); ev_bool("clean", around()); ev_end(); }
        else vp_bad();
    }
    _exit(0);
}
