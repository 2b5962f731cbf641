#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#define NA 4
#define NB 512
#define GUARD 64
typedef struct { int live; unsigned char *p; long size; unsigned char pat; } blk;
typedef struct { int open; zpl_arena a; unsigned char *mem, *lo; long memn; blk b[NB]; int nb; zpl_arena_snapshot snap[32]; int snb[32]; int ns; int sub; long ral; } arena;
static arena A[NA]; static unsigned char nextpat = 1;
static void fill(blk *b) { b->pat = nextpat++; if (!nextpat) nextpat = 1; memset(b->p, b->pat, b->size); }
static int intact(void) {
    for (int i = 0; i < NA; i++) if (A[i].open) {
        for (int k = 0; k < A[i].nb; k++) if (A[i].b[k].live) for (long j = 0; j < A[i].b[k].size; j++) if (A[i].b[k].p[j] != A[i].b[k].pat) return 0;
        if (A[i].mem) { for (unsigned char *q = A[i].mem; q < A[i].lo; q++) if (*q != 0xA5) return 0;
            for (unsigned char *q = A[i].lo + A[i].a.total_size; q < A[i].mem + A[i].memn; q++) if (*q != 0xA5) return 0; }
    }
    return 1;
}
static void obs(int a) { ev_int("used", A[a].a.total_allocated); ev_int("ral", A[a].ral); ev_int("pad", zpl_arena_alignment_of(&A[a].a, A[a].ral)); if (!A[a].a.temp_count) zpl_arena_check(&A[a].a); ev_int("rem", zpl_arena_size_remaining(&A[a].a, A[a].ral)); ev_bool("intact", intact()); ev_int("snaps", A[a].a.temp_count); ev_end(); }
static void reset(void) { for (int i = 0; i < NA; i++) { if (A[i].open && !A[i].sub && !A[i].mem) zpl_arena_free(&A[i].a); free(A[i].mem); } memset(A, 0, sizeof A); nextpat = 1; }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) { reset(); vp_seg(); continue; }
        int a = ai(1);
        if (is("init")) { /* init a base cap heap */
            long base = ai(2), cap = ai(3); int heap = ai(4); A[a].open = 1; A[a].ral = 16;
            if (heap) { zpl_arena_init_from_allocator(&A[a].a, zpl_heap_allocator(), cap); base = (long)((uintptr_t)A[a].a.physical_start % 4096); A[a].lo = A[a].a.physical_start; memset(A[a].lo, 0xEE, cap); }
            else { A[a].memn = cap + 8192 + base; A[a].mem = aligned_alloc(4096, (A[a].memn + 4095) & ~4095l); memset(A[a].mem, 0xA5, A[a].memn); A[a].lo = A[a].mem + 4096 + base; memset(A[a].lo, 0xEE, cap); zpl_arena_init_from_memory(&A[a].a, A[a].lo, cap); }
            ev("init"); ev_int("a", a); ev_int("base", base); ev_int("cap", cap); ev_end();
        } else if (is("sub")) { /* sub a parent cap */
            int p = ai(2); long cap = ai(3); if (!A[p].open) continue; zpl_arena_init_sub(&A[a].a, &A[p].a, cap); A[a].ral = 16;
            unsigned char *s = A[a].a.physical_start; A[a].lo = s; A[a].sub = 1; A[a].open = s != 0;
            ev("sub"); ev_int("a", a); ev_int("parent", p); ev_int("cap", cap); ev_int("off", s ? s - A[p].lo : -1); ev_int("pused", A[p].a.total_allocated); ev_bool("intact", intact()); ev_end();
        } else if (!A[a].open) { continue; }
        else if (is("alloc")) {
            long size = ai(2), al = ai(3); A[a].ral = al; unsigned char *p = zpl_alloc_align(zpl_arena_allocator(&A[a].a), size, al);
            int zero = 1; if (p) { for (long j = 0; j < size; j++) if (p[j]) zero = 0; }
            ev("alloc"); ev_int("a", a); ev_int("size", size); ev_int("al", al); ev_int("off", p ? p - A[a].lo : -1); ev_bool("zero", zero);
            int ok = p && p >= A[a].lo && p + size <= A[a].lo + A[a].a.total_size;
            if (ok && A[a].nb < NB) { blk *b = &A[a].b[A[a].nb++]; b->live = 1; b->p = p; b->size = size; int it = intact(); (void)it; fill(b); }
            obs(a);
        } else if (is("resize")) { /* resize a k size al */
            int n = 0; for (int k = 0; k < A[a].nb; k++) n += A[a].b[k].live; if (!n) continue;
            int k = ai(2) % n; blk *b = 0; for (int i = 0; i < A[a].nb; i++) if (A[a].b[i].live && k-- == 0) { b = &A[a].b[i]; break; }
            long size = ai(3), al = ai(4); A[a].ral = al; long from = b->p - A[a].lo, fs = b->size;
            unsigned char *p = zpl_resize_align(zpl_arena_allocator(&A[a].a), b->p, b->size, size, al); int kept = 1;
            if (p) for (long j = 0; j < (fs < size ? fs : size); j++) if (p[j] != b->pat) kept = 0;
            ev("resize"); ev_int("a", a); ev_int("from", from); ev_int("fsize", fs); ev_int("size", size); ev_int("al", al); ev_int("off", p ? p - A[a].lo : -1); ev_bool("kept", kept);
            int ok = p && p >= A[a].lo && p + size <= A[a].lo + A[a].a.total_size;
            if (ok && p != b->p && A[a].nb < NB) { blk *c = &A[a].b[A[a].nb++]; c->live = 1; c->p = p; c->size = size; fill(c); }
            obs(a);
        } else if (is("free")) { int n = A[a].nb; if (!n) continue; int k = ai(2) % n; if (!A[a].b[k].live) continue; zpl_free(zpl_arena_allocator(&A[a].a), A[a].b[k].p); ev("free"); ev_int("a", a); obs(a);
        } else if (is("snapb")) { if (A[a].ns >= 30) continue; A[a].snb[A[a].ns] = A[a].nb; A[a].snap[A[a].ns++] = zpl_arena_snapshot_begin(&A[a].a); ev("snapb"); ev_int("a", a); obs(a);
        } else if (is("snape")) { if (!A[a].ns) continue; A[a].ns--; A[a].nb = A[a].snb[A[a].ns]; zpl_arena_snapshot_end(A[a].snap[A[a].ns]); ev("snape"); ev_int("a", a); obs(a);
        } else if (is("freeall")) { if (A[a].ns) continue; int sub = 0; for (int i = 0; i < NA; i++) if (A[i].open && A[i].sub) sub = 1; if (sub && !A[a].sub) continue; A[a].nb = 0; zpl_free_all(zpl_arena_allocator(&A[a].a)); ev("freeall"); ev_int("a", a); obs(a);
        } else vp_bad();
    }
    return 0;
}
