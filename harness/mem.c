#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static unsigned char *raw, *M; static long N;
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static void obs(void) { ev_bytes("m", M, N); ev_end(); }
static long off(void const *p) { return p ? (unsigned char const *)p - M : -1; }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) { free(raw); raw = 0; M = 0; continue; }
        /* new SHIFT N SEED MOD: exactly SHIFT+N bytes, so that the sanitizer guards the end; guard bytes in front are checked at the end */
        if (is("new")) { free(raw); long sh = ai(1); N = ai(2); raw = aligned_alloc(16, 0x1000); free(raw); raw = malloc(sh + N ? sh + N : 1); memset(raw, 0xAB, sh); M = raw + sh; unsigned x = ai(3); for (long i = 0; i < N; i++) { x = x * 1103515245u + 12345u; M[i] = (x >> 16) % ai(4); if (ai(4) > 4 && (x >> 28) == 0) M[i] ^= 0x80; } ev("new"); obs(); continue; }
        if (is("align")) { long v = ai(1), a = ai(2); int pow = zpl_is_power_of_two(a); ev("align"); ev_int("v", v); ev_int("a", a); ev_int("i64", zpl_align_forward_i64(v, a)); ev_int("u64", v >= 0 ? (long)zpl_align_forward_u64(v, a) : 0); ev_bool("pow", pow);
            ev_int("ptr", pow ? (long)(zpl_intptr)zpl_align_forward((void *)(zpl_intptr)v, a) : 0); ev_int("add", (long)(zpl_intptr)zpl_pointer_add((void *)(zpl_intptr)v, a)); ev_int("sub", (long)(zpl_intptr)zpl_pointer_sub_const((void *)(zpl_intptr)v, a)); ev_int("diff", zpl_pointer_diff((void *)(zpl_intptr)v, (void *)(zpl_intptr)a)); ev_end(); continue; }
        long d = ai(1), s = ai(2), n = ai(3);
        int val = is("set") || is("chr") || is("rchr");     /* s is a byte there */
        if (d + n > N || (!val && s + n > N)) continue;
        if (is("move")) { void *r = zpl_memmove(M + d, M + s, n); ev("move"); ev_int("ret", off(r)); }
        else if (is("copy")) { if (d < s + n && s < d + n) continue; void *r = zpl_memcopy(M + d, M + s, n); ev("copy"); ev_int("ret", off(r)); }
        else if (is("set")) { void *r = zpl_memset(M + d, s, n); ev("set"); ev_int("d", d); ev_int("c", s); ev_int("n", n); ev_int("ret", off(r)); obs(); continue; }
        else if (is("zero")) { zpl_zero_size(M + d, n); ev("zero"); }
        else if (is("swap")) { if (d != s && d < s + n && s < d + n) continue; zpl_memswap(M + d, M + s, n); ev("swap"); }
        else if (is("cmp")) { int r = zpl_memcompare(M + d, M + s, n); ev("cmp"); ev_int("d", d); ev_int("s", s); ev_int("n", n); ev_int("ret", sgn(r)); ev_end(); continue; }
        else if (is("chr") || is("rchr")) { void const *r = is("chr") ? zpl_memchr(M + d, s, n) : zpl_memrchr(M + d, s, n); ev(vp_tok[0]); ev_int("d", d); ev_int("c", s); ev_int("n", n); ev_int("ret", r ? off(r) - d : -1); ev_end(); continue; }
        else vp_bad();
        ev_int("d", d); ev_int("s", s); ev_int("n", n); obs();
    }
    return 0;
}
