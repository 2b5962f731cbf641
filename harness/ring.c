#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
typedef struct { int a; short b; short c; int d; } s12; typedef struct { int a; int b[9]; } s40;
#if VP_T == 0
typedef unsigned char T; static T mk(int v) { return v; } static int val(T t) { return t; }
#elif VP_T == 1
typedef int T; static T mk(int v) { return v; } static int val(T t) { return t; }
#elif VP_T == 2
typedef s12 T; static T mk(int v) { T t = { v, v + 1, v + 2, v + 3 }; return t; } static int val(T t) { return t.b == (short)(t.a + 1) && t.c == (short)(t.a + 2) && t.d == t.a + 3 ? t.a : -7; }
#else
typedef s40 T; static T mk(int v) { T t; t.a = v; for (int i = 0; i < 9; i++) t.b[i] = v + i; return t; } static int val(T t) { for (int i = 0; i < 9; i++) if (t.b[i] != t.a + i) return -7; return t.a; }
#endif
ZPL_RING(static, ring_, T);
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory);
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } return p; } return 0; }
static ring_T R; static int up;
static void obs(void) { ev_bool("full", ring_full(&R)); ev_bool("empty", ring_empty(&R)); ev_end(); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (is("seg")) { if (up) { ring_free(&R); up = 0; } vp_seg(); }
        else if (is("init")) { if (up) ring_free(&R); up = 1; ring_init(&R, al, ai(1)); ev("init"); ev_int("n", ai(1)); obs(); }
        else if (is("append")) { ring_append(&R, mk(ai(1))); ev("append"); ev_int("x", ai(1)); obs(); }
        else if (is("appendv")) { zpl_array(T) a; zpl_array_init(a, al); for (int i = 1; i < vp_ntok; i++) { T t = mk(ai(i)); zpl_array_append(a, t); }
            ring_append_array(&R, a); ev("appendv"); ev_arr("xs"); for (int i = 1; i < vp_ntok; i++) ev_item(ai(i)); ev_arrend(); ev_arr("src"); for (int i = 0; i < zpl_array_count(a); i++) ev_item(val(a[i])); ev_arrend(); obs(); zpl_array_free(a); }
        else if (is("get")) { T *p = ring_get(&R); int x = p ? val(*p) : 0; ev("get"); ev_bool("some", p != 0); ev_int("x", x); obs(); }
        else if (is("getv")) { zpl_array(T) a = ring_get_array(&R, ai(1), al); ev("getv"); ev_int("n", ai(1)); ev_arr("xs"); for (int i = 0; i < zpl_array_count(a); i++) ev_item(val(a[i])); ev_arrend(); obs(); zpl_array_free(a); }
        else vp_bad();
    }
    return 0;
}
