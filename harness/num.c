#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) continue;
        char *e = 0, buf[140]; memset(buf, 'Z', sizeof buf);
        if (is("u2s")) { uint64_t v = au(1); int b = ai(2); zpl_u64_to_str(v, buf, b); ev("u2s"); ev_u64("v", v); ev_int("b", b); ev_str("out", buf); uint64_t r = b <= 36 ? zpl_str_to_u64(buf, &e, b) : 0; ev_u64("back", r); ev_int("used", e ? e - buf : 0); ev_end(); }
        else if (is("i2s")) { int64_t v = (int64_t)au(1); int b = ai(2); zpl_i64_to_str(v, buf, b); ev("i2s"); ev_u64("v", v); ev_int("b", b); ev_str("out", buf); int64_t r = b <= 36 ? zpl_str_to_i64(buf, &e, b) : 0; ev_u64("back", r); ev_int("used", e ? e - buf : 0); ev_end(); }
        else if (is("s2u") || is("s2i")) { char *s = as(1); uint64_t v = is("s2u") ? zpl_str_to_u64(s, &e, ai(2)) : (uint64_t)zpl_str_to_i64(s, &e, ai(2)); uint64_t w = is("s2u") ? zpl_str_to_u64(s, 0, ai(2)) : (uint64_t)zpl_str_to_i64(s, 0, ai(2)); ev(vp_tok[0]); ev_str("s", s); ev_int("b", ai(2)); ev_u64("v", v); ev_int("n", v == w ? e - s : -9); ev_end(); free(s); }
        else if (is("s2f")) { char *s = as(1), *e2 = 0; double d = zpl_str_to_f64(s, &e); float f = zpl_str_to_f32(s, &e2); ev("s2f"); ev_str("s", s); ev_u64("d", bits(d)); ev_int("n", e - s); ev_int("n32", e2 - s); double a = d < 0 ? -d : d; ev_bool("f32", a == 0 || (a > 1e-30 && a < 1e30)); ev_u64("f", bits((double)f)); ev_end(); free(s); }
        else vp_bad();
    }
    return 0;
}
