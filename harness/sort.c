#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
/* Elements of any size with the key at an offset; every comparison must look at whole elements of the array. */
static unsigned char *g_lo, *g_hi; static long g_sz, g_bad; static const void *g_key; static zpl_compare_proc *g_cmp_;
static int (*g_cmp)(void const *, void const *);
static void look(const void *p) { const unsigned char *c = p; if (c == g_key) return; if (c < g_lo || c + g_sz > g_hi || (c - g_lo) % g_sz) g_bad++; }
static int cmp(void const *a, void const *b) { look(a); look(b); if (g_bad > 1000) _exit(77); return g_cmp(a, b); }
static void pick(const char *k, long off) {
    g_cmp = !strcmp(k, "u8") ? zpl_u8_cmp(off) : !strcmp(k, "i16") ? zpl_i16_cmp(off) : !strcmp(k, "i32") ? zpl_i32_cmp(off) : !strcmp(k, "i64") ? zpl_i64_cmp(off) :
            !strcmp(k, "isize") ? zpl_isize_cmp(off) : !strcmp(k, "f32") ? zpl_f32_cmp(off) : !strcmp(k, "f64") ? zpl_f64_cmp(off) : !strcmp(k, "str") ? zpl_str_cmp(off) : 0;
    if (!g_cmp) vp_bad();
}
static void elems(const char *key, unsigned char *p, long n, long sz, int isstr, long off) {
    ev_key(key); vp__puts("[");
    for (long i = 0; i < n; i++) { if (i) vp__puts(","); vp__puts("["); const unsigned char *e = p + i * sz; long m = sz;
        if (isstr) { char *s; memcpy(&s, e + off, sizeof s); e = (unsigned char *)s; m = strlen(s); }
        for (long k = 0; k < m; k++) { if (k) vp__puts(","); vp__int(e[k]); } vp__puts("]"); }
    vp__puts("]");
}
#define RX(T) { zpl_##T *t = (zpl_##T *)malloc(n * sizeof *t + !n); memset(t, 0x5a, n * sizeof *t); zpl_radix_sort(T)((zpl_##T *)p, t, n); free(t); }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) continue;
        /* OP kind size offset xBYTES [xKEY]; for str the bytes are NUL separated texts and elements are pointers */
        const char *kind = vp_tok[1]; long sz = ai(2), off = ai(3), n; size_t len; unsigned char *raw = ab(4, &len), *p; int st = !strcmp(kind, "str");
        g_bad = 0; g_key = 0; g_sz = sz;
        if (st) { n = 0; for (size_t i = 0; i < len; i++) n += !raw[i]; p = malloc(n * sz + !n); memset(p, 7, n * sz); unsigned char *q = raw; for (long i = 0; i < n; i++) { char *d = strdup((char *)q); memcpy(p + i * sz + off, &d, sizeof d); q += strlen((char *)q) + 1; } }
        else { n = len / sz; p = malloc(len + !len); memcpy(p, raw, len); }
        g_lo = p; g_hi = p + n * sz;
        if (is("sort")) { pick(kind, off); ev("sort"); ev_name("kind", kind); ev_int("off", off); elems("in", p, n, sz, st, off); zpl_sort(p, n, sz, cmp); elems("out", p, n, sz, st, off); ev_int("bad", g_bad); ev_end(); }
        else if (is("search")) { pick(kind, off); size_t kl; unsigned char *k = ab(5, &kl), *ke = malloc(sz); memset(ke, 9, sz); char *ks = 0; if (st) { ks = malloc(kl + 1); memcpy(ks, k, kl); ks[kl] = 0; memcpy(ke + off, &ks, sizeof ks); } else memcpy(ke, k, kl < sz ? kl : sz);
            g_key = ke; long r = zpl_binary_search(p, n, sz, ke, cmp); ev("search"); ev_name("kind", kind); ev_int("off", off); elems("in", p, n, sz, st, off); ev_bytes("key", st ? (void *)ks : ke, st ? kl : sz); ev_int("r", r); ev_int("bad", g_bad); ev_end(); free(k); free(ke); free(ks); }
        else if (is("radix")) { ev("radix"); ev_name("kind", kind); ev_int("off", 0); elems("in", p, n, sz, 0, 0);
            if (!strcmp(kind, "u8")) RX(u8) else if (!strcmp(kind, "u16")) RX(u16) else if (!strcmp(kind, "u32")) RX(u32) else if (!strcmp(kind, "u64")) RX(u64) else vp_bad();
            elems("out", p, n, sz, 0, 0); ev_int("bad", 0); ev_end(); }
        else if (is("reverse")) { ev("reverse"); elems("in", p, n, sz, 0, 0); zpl_reverse(p, n, sz); elems("out", p, n, sz, 0, 0); ev_end(); }
        else if (is("shuffle")) { ev("shuffle"); elems("in", p, n, sz, 0, 0); zpl_shuffle(p, n, sz); elems("out", p, n, sz, 0, 0); ev_end(); }
        else vp_bad();
        free(raw); free(p);
    }
    return 0;
}
