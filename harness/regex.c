#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static long live;
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) live--; free(old_memory); }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } else live++; return p; } return 0; }
static void cap(const char *t, zpl_re_capture c) { vp__puts("["); vp__int(c.str ? c.str - t : -1); vp__puts(","); vp__int(c.len); vp__puts("]"); }
/* re CAP xPATTERN NCAP xTEXT...   CAP 0: own memory, otherwise a caller's buffer of that size */
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) continue;
        if (!is("re")) vp_bad();
        long c = ai(1), nc = ai(3); size_t n; unsigned char *p = ab(2, &n); zpl_re re; memset(&re, 0x77, sizeof re); live = 0; char *buf = c ? malloc(c) : 0;
        unsigned char *pp = malloc(n + !n); memcpy(pp, p, n);
        int err = c ? zpl_re_compile_from_buffer(&re, (char *)pp, n, buf, c) : zpl_re_compile(&re, al, (char *)pp, n);
        ev("re"); ev_bytes("p", p, n); ev_int("cap", c); ev_int("err", err); ev_int("groups", err ? 0 : zpl_re_capture_count(&re));
        for (int pass = 0; pass < 2; pass++) {
            ev_key(pass ? "all" : "res"); vp__puts("["); 
            for (int k = 4; k < vp_ntok && !err; k++) {
                size_t m; unsigned char *q = ab(k, &m); char *t = malloc(m + !m); memcpy(t, q, m); free(q);
                if (k > 4) vp__puts(",");
                vp__puts("{\"t\":["); for (size_t i = 0; i < m; i++) { if (i) vp__puts(","); vp__int((unsigned char)t[i]); } vp__puts("]");
                if (!pass) {
                    zpl_re_capture *cp = malloc(nc * sizeof *cp + !nc); memset(cp, 0x55, nc * sizeof *cp); zpl_isize off = -5; int r = zpl_re_match(&re, t, m, nc ? cp : 0, nc, &off);
                    ev_bool("m", r); ev_int("e", r ? off : -1); ev_key("c"); vp__puts("["); if (r) for (long i = 0; i < nc; i++) { if (i) vp__puts(","); cap(t, cp[i]); } vp__puts("]}"); free(cp);
                } else {
                    zpl_re_capture *out; zpl_array_init(out, zpl_heap()); int r = zpl_re_match_all(&re, t, m, nc, &out); ev_bool("all", r);
                    ev_key("l"); vp__puts("["); long cnt = zpl_array_count(out); if (nc) for (long i = 0; i + nc <= cnt; i += nc) { vp__puts(i ? ",[" : "["); for (long j = 0; j < nc; j++) { if (j) vp__puts(","); cap(t, out[i + j]); } vp__puts("]"); } vp__puts("]}"); zpl_array_free(out);
                }
                free(t);
            }
            vp__puts("]"); if (!nc) { if (!pass) ev_key("all"), vp__puts("[]"); break; }
        }
        zpl_re_destroy(&re); ev_int("live", live); ev_end(); free(p); free(pp); free(buf);
    }
    return 0;
}
