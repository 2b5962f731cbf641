#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static zpl_random r[4];
static int call(zpl_random *g, const char *k, unsigned char *a, unsigned char *b, unsigned char *o) {
    zpl_u32 x; zpl_u64 y; zpl_i64 i, lo, hi; zpl_f64 d, dl, dh;
    if (!strcmp(k, "u32")) { x = zpl_random_gen_u32(g); memcpy(o, &x, 4); return 4; }
    if (!strcmp(k, "unique")) { x = zpl_random_gen_u32_unique(g); memcpy(o, &x, 4); return 4; }
    if (!strcmp(k, "u64")) { y = zpl_random_gen_u64(g); memcpy(o, &y, 8); return 8; }
    if (!strcmp(k, "gisize")) { i = zpl_random_gen_isize(g); memcpy(o, &i, 8); return 8; }
    memcpy(&lo, a, 8); memcpy(&hi, b, 8); memcpy(&dl, a, 8); memcpy(&dh, b, 8);
    if (!strcmp(k, "i64")) { i = zpl_random_range_i64(g, lo, hi); memcpy(o, &i, 8); return 8; }
    if (!strcmp(k, "isize")) { i = zpl_random_range_isize(g, lo, hi); memcpy(o, &i, 8); return 8; }
    if (!strcmp(k, "f64")) { d = zpl_random_range_f64(g, dl, dh); memcpy(o, &d, 8); return 8; }
    vp_bad(); return 0;
}
static int c32(const void *a, const void *b) { uint32_t x = *(uint32_t *)a, y = *(uint32_t *)b; return x < y ? -1 : x > y; }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) continue;
        unsigned char z[8] = {0}, *a = z, *b = z, o[8]; size_t n;
        if (is("set")) { size_t m; unsigned char *s = ab(2, &m); memset(&r[ai(1)], 0, sizeof *r); memcpy(&r[ai(1)], s, m < sizeof *r ? m : sizeof *r); free(s); }
        else if (is("init")) zpl_random_init(&r[ai(1)]);
        else if (is("copy")) r[ai(1)] = r[ai(2)];
        else if (is("gen")) {   /* gen G KIND LO HI */
            zpl_random *g = &r[ai(1)]; if (vp_ntok > 3) a = ab(3, &n), b = ab(4, &n);
            ev("gen"); ev_name("kind", vp_tok[2]); ev_key("args"); vp__puts("["); if (vp_ntok > 3) { for (int q = 0; q < 2; q++) { vp__puts(q ? ",[" : "["); for (int i = 0; i < 8; i++) { if (i) vp__puts(","); vp__int((q ? b : a)[i]); } vp__puts("]"); } } vp__puts("]");
            ev_bytes("s0", g, sizeof *g); int m = call(g, vp_tok[2], a, b, o); ev_bytes("v", o, m); ev_bytes("s1", g, sizeof *g); ev_end(); }
        else if (is("many")) {  /* many G KIND N WIDTH LO HI */
            zpl_random *g = &r[ai(1)]; if (vp_ntok > 5) a = ab(5, &n), b = ab(6, &n);
            ev("many"); ev_name("kind", vp_tok[2]); ev_int("width", ai(4)); ev_key("args"); vp__puts("["); if (vp_ntok > 5) { for (int q = 0; q < 2; q++) { vp__puts(q ? ",[" : "["); for (int i = 0; i < 8; i++) { if (i) vp__puts(","); vp__int((q ? b : a)[i]); } vp__puts("]"); } } vp__puts("]");
            ev_key("v"); vp__puts("["); for (int i = 0; i < ai(3); i++) { int m = call(g, vp_tok[2], a, b, o); vp__puts(i ? ",[" : "["); for (int k = 0; k < m; k++) { if (k) vp__puts(","); vp__int(o[k]); } vp__puts("]"); } vp__puts("]"); ev_end(); }
        else if (is("unique")) {  /* unique G N: how many of N successive unique values repeat an earlier one */
            zpl_random *g = &r[ai(1)]; long m = ai(2), d = 0; uint32_t *v = malloc(m * 4);
            if (m > 100000000) { free(v); unsigned char *bm = calloc(1u << 29, 1); for (long i = 0; i < m; i++) { uint32_t x = zpl_random_gen_u32_unique(g); d += bm[x >> 3] >> (x & 7) & 1; bm[x >> 3] |= 1 << (x & 7); } free(bm); }
            else { for (long i = 0; i < m; i++) v[i] = zpl_random_gen_u32_unique(g); qsort(v, m, 4, c32); for (long i = 1; i < m; i++) d += v[i] == v[i - 1]; free(v); }
            ev("unique"); ev_int("n", m >> 10); ev_int("dups", d > 1000000 ? 1000000 : d); ev_end(); }
        else vp_bad();
    }
    return 0;
}
