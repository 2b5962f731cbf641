/* bits, bytes and orderings */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static void bits(const char *k, zpl_u64 v, int n) { ev_arr(k); for (int i = 0; i < n; i++) ev_item((v >> i) & 1); ev_arrend(); }
static zpl_u32 w;
static void all(void) { zpl_u32 g = 0; for (zpl_u32 b = 0; b < 32; b++) if (zpl_bit_get(w, b)) g |= (zpl_u32)1 << b; bits("w", w, 32); bits("get", g, 32); }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) { w = 0; vp_seg(); }
        else if (is("set")) { zpl_bit_set(&w, (zpl_u32)au(1)); ev("set"); ev_int("b", ai(1)); all(); ev_end(); }
        else if (is("clear")) { zpl_bit_reset(&w, (zpl_u32)au(1)); ev("clear"); ev_int("b", ai(1)); all(); ev_end(); }
        else if (is("mask")) { zpl_u32 m = (zpl_u32)au(2); ZPL_MASK_SET(w, ai(1), m); ev("mask"); ev_bool("set", ai(1)); bits("m", m, 32); all(); ev_end(); }
        else if (is("swap")) { zpl_u64 v = au(2); int n = ai(1); zpl_u64 r = n == 16 ? zpl_endian_swap16((zpl_u16)v) : n == 32 ? zpl_endian_swap32((zpl_u32)v) : zpl_endian_swap64(v); ev("swap"); bits("v", v, n); bits("r", r, n); ev_end(); }
        else if (is("count")) { zpl_u64 v = au(1); ev("count"); bits("v", v, 64); ev_int("r", zpl_count_set_bits(v)); ev_end(); }
        else if (is("pow2")) { zpl_i32 v = (zpl_i32)ai(1); ev("pow2"); ev_int("v", v); ev_int("r", zpl_next_pow2(v)); ev_end(); }
        else if (is("order")) { zpl_u16 v = 1; unsigned char b; memcpy(&b, &v, 1); int ok = ZPL_IS_LITTLE_ENDIAN == (b == 1) && ZPL_IS_BIG_ENDIAN == (b == 0); for (int i = 0; i < 31; i++) ok &= ZPL_BIT(i) == (int)((unsigned)1 << i); ev("order"); ev_bool("ok", ok); ev_end(); }
        else if (is("cmp")) { int a = ai(1), b = ai(2), c = ai(3), x = a, y = b; zpl_swap(int, x, y); ev("cmp"); ev_int("a", a); ev_int("b", b); ev_int("c", c); ev_int("min", zpl_min(a, b)); ev_int("max", zpl_max(a, b)); ev_int("min3", zpl_min3(a, b, c)); ev_int("max3", zpl_max3(a, b, c)); ev_int("abs", zpl_abs(a)); ev_arr("sw"); ev_item(x); ev_item(y); ev_arrend(); ev_bool("between", zpl_is_between(a, b, c)); ev_bool("limit", zpl_is_between_limit(a, b, c)); ev_int("clamp", zpl_clamp(a, b, c)); ev_int("unit", zpl_clamp01(a)); ev_end(); }
        else vp_bad();
    }
    return 0;
}
