#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
/* VP_T 0: u8, 1: i32, 2: 12 byte struct, 3: i64, 4: 40 byte struct */
typedef struct { int a; short b; short c; int d; } s12; typedef struct { int a; int b[9]; } s40;
#if VP_T == 0
typedef zpl_u8 T; static T mk(int v) { return v; } static int val(T t) { return t; }
#elif VP_T == 1
typedef int T; static T mk(int v) { return v; } static int val(T t) { return t; }
#elif VP_T == 2
typedef s12 T; static T mk(int v) { T t = { v, v + 1, v + 2, v + 3 }; return t; } static int val(T t) { return t.b == (short)(t.a + 1) && t.c == (short)(t.a + 2) && t.d == t.a + 3 ? t.a : -7; }
#elif VP_T == 3
typedef zpl_i64 T; static T mk(int v) { return v | ((zpl_i64)v << 32); } static int val(T t) { return (t >> 32) == (t & 0xffffffff) ? (int)t : -7; }
#else
typedef s40 T; static T mk(int v) { T t; t.a = v; for (int i = 0; i < 9; i++) t.b[i] = v + i; return t; } static int val(T t) { for (int i = 0; i < 9; i++) if (t.b[i] != t.a + i) return -7; return t.a; }
#endif
#define NA 4
static T *A[NA]; static int kind[NA];
/* exact-size blocks so that the sanitizer sees any overrun; old blocks are really freed */
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory);
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } return p; } return 0; }
static void drop(int i) { if (!A[i]) return; if (kind[i]) zpl_buffer_free(A[i]); else zpl_array_free(A[i]); A[i] = 0; }
static void obs(int i, int ok) {
    long n = kind[i] ? zpl_buffer_count(A[i]) : zpl_array_count(A[i]); ev_int("cap", kind[i] ? zpl_buffer_capacity(A[i]) : zpl_array_capacity(A[i])); ev_bool("ok", ok);
    ev_arr("s"); for (long k = 0; k < n; k++) ev_item(val(A[i][k])); ev_arrend();
    if (n > 0) { if (kind[i]) { ev_int("front", val(A[i][0])); ev_int("back", val(*zpl_buffer_end(A[i]))); ev_int("end", val(*zpl_buffer_end(A[i]))); } else { ev_int("front", val(zpl_array_front(A[i]))); ev_int("back", val(zpl_array_back(A[i]))); ev_int("end", val(*zpl_array_end(A[i]))); } }
    ev_end();
}
static T *items(int from, long *n) { *n = vp_ntok - from; T *t = malloc(sizeof(T) * (*n ? *n : 1)); for (long i = 0; i < *n; i++) t[i] = mk(ai(from + i)); return t; }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < NA; i++) drop(i); vp_seg(); continue; }
        int i = ai(1); int ok = 1; long n; T *t;
        if (is("init") || is("binit")) { drop(i); kind[i] = is("binit"); long c = ai(2), w = c; if (kind[i]) zpl_buffer_init(A[i], al, c); else if (c < 0) { ok = zpl_array_init(A[i], al); w = ZPL_ARRAY_GROW_FORMULA(0); } else ok = zpl_array_init_reserve(A[i], al, c); ev(vp_tok[0]); ev_int("a", i); ev_int("want", w); obs(i, ok); continue; }
        if (!A[i]) continue;
        long cnt = kind[i] ? zpl_buffer_count(A[i]) : zpl_array_count(A[i]);
        if (kind[i] != (vp_tok[0][0] == 'b')) continue;
        if (is("append")) { T x = mk(ai(2)); ok = zpl_array_append(A[i], x); ev("append"); ev_int("a", i); ev_int("x", ai(2)); obs(i, ok); }
        else if (is("appendat")) { long p = ai(3); if (p > cnt) p = cnt; T x = mk(ai(2)); ok = zpl_array_append_at(A[i], x, p); ev("appendat"); ev_int("a", i); ev_int("x", ai(2)); ev_int("pos", p); obs(i, ok); }
        else if (is("appendv") || is("bappendv")) { t = items(2, &n); if (kind[i]) { if (cnt + n > zpl_buffer_capacity(A[i])) { free(t); continue; } zpl_buffer_appendv(A[i], t, n); } else ok = zpl_array_appendv(A[i], t, n); ev(vp_tok[0]); ev_int("a", i); ev_arr("xs"); for (long k = 0; k < n; k++) ev_item(ai(2 + k)); ev_arrend(); obs(i, ok); free(t); }
        else if (is("appendvat")) { long p = ai(2); t = items(3, &n); ok = zpl_array_appendv_at(A[i], t, n, p); ev("appendvat"); ev_int("a", i); ev_int("pos", p); ev_arr("xs"); for (long k = 0; k < n; k++) ev_item(ai(3 + k)); ev_arrend(); obs(i, ok); free(t); }
        else if (is("pop")) { if (!cnt) continue; zpl_array_pop(A[i]); ev("pop"); ev_int("a", i); obs(i, 1); }
        else if (is("remove")) { if (!cnt) continue; long p = ai(2) % cnt; zpl_array_remove_at(A[i], p); ev("remove"); ev_int("a", i); ev_int("pos", p); obs(i, 1); }
        else if (is("clear")) { zpl_array_clear(A[i]); ev("clear"); ev_int("a", i); obs(i, 1); }
        else if (is("fill")) { long b = ai(2), e = ai(3); if (e > cnt) e = cnt; if (b > e) b = e; T x = mk(ai(4)); { T *arr = A[i]; zpl_array_fill(arr, b, e, x); } ev("fill"); ev_int("a", i); ev_int("pos", b); ev_int("e", e); ev_int("x", ai(4)); obs(i, 1); }
        else if (is("resize")) { n = ai(2); ok = zpl_array_resize(A[i], n); for (long k = cnt; k < n; k++) A[i][k] = mk(0); ev("resize"); ev_int("a", i); ev_int("n", n); obs(i, ok); }
        else if (is("reserve")) { n = ai(2); ok = zpl_array_reserve(A[i], n); ev("reserve"); ev_int("a", i); ev_int("n", n); obs(i, ok); }
        else if (is("setcap")) { n = ai(2); ok = zpl_array_set_capacity(A[i], n); ev("setcap"); ev_int("a", i); ev_int("n", n); obs(i, ok); }
        else if (is("grow")) { n = ai(2); ok = zpl_array_grow(A[i], n); ev("grow"); ev_int("a", i); ev_int("n", n); obs(i, ok); }
        else if (is("set")) { if (!cnt) continue; long p = ai(2) % cnt; A[i][p] = mk(ai(3)); ev("set"); ev_int("a", i); ev_int("pos", p); ev_int("x", ai(3)); obs(i, 1); }
        else if (is("copy") || is("bcopy")) { int j = ai(2); if (j == i) continue; drop(j); kind[j] = kind[i]; int eo = 1; if (kind[i]) zpl_buffer_copy_init(A[j], A[i]); else { ok = zpl_array_copy_init(A[j], A[i]); eo = zpl_array_elem_size(A[j]) == sizeof(T); } ev(vp_tok[0]); ev_int("a", j); ev_int("from", i); ev_bool("elemok", eo); obs(j, ok); }
        else if (is("bappend")) { if (cnt >= zpl_buffer_capacity(A[i])) continue; T x = mk(ai(2)); zpl_buffer_append(A[i], x); ev("bappend"); ev_int("a", i); ev_int("x", ai(2)); obs(i, 1); }
        else if (is("bpop")) { if (!cnt) continue; zpl_buffer_pop(A[i]); ev("bpop"); ev_int("a", i); obs(i, 1); }
        else if (is("bclear")) { zpl_buffer_clear(A[i]); ev("bclear"); ev_int("a", i); obs(i, 1); }
        else vp_bad();
    }
    return 0;
}
