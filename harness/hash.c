#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static long live;
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) live--; free(old_memory); } return 0; }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) continue;
        if (is("hash")) {   /* hash FN xBYTES SEED ALIGN: the bytes sit at an odd offset inside their own block */
            const char *f = vp_tok[1]; size_t n; unsigned char *b = ab(2, &n); uint64_t seed = au(3); int al8 = ai(4); unsigned char *m = malloc(n + al8 + !(n + al8)), *p = m + al8; memcpy(p, b, n);
            uint32_t x = 0; uint64_t y = 0; int w = 4;
            if (!strcmp(f, "adler32")) x = zpl_adler32(p, n); else if (!strcmp(f, "crc32")) x = zpl_crc32(p, n); else if (!strcmp(f, "fnv32")) x = zpl_fnv32(p, n); else if (!strcmp(f, "fnv32a")) x = zpl_fnv32a(p, n);
            else if (!strcmp(f, "murmur32")) x = zpl_murmur32(p, n); else if (!strcmp(f, "murmur32s")) x = zpl_murmur32_seed(p, n, seed);
            else { w = 8; if (!strcmp(f, "crc64")) y = zpl_crc64(p, n); else if (!strcmp(f, "fnv64")) y = zpl_fnv64(p, n); else if (!strcmp(f, "fnv64a")) y = zpl_fnv64a(p, n);
                else if (!strcmp(f, "murmur64")) y = zpl_murmur64(p, n); else if (!strcmp(f, "murmur64s")) y = zpl_murmur64_seed(p, n, seed); else vp_bad(); }
            ev("hash"); ev_name("fn", f); ev_bool("tol", vp_ntok < 6); ev_bytes("in", p, n); ev_bytes("seed", &seed, w); if (w == 4) ev_bytes("out", &x, 4); else ev_bytes("out", &y, 8); ev_end(); free(m); free(b); }
        else if (is("enc")) { size_t n; unsigned char *b = ab(1, &n); live = 0; unsigned char *e = zpl_base64_encode(al, b, n); ev("enc"); ev_bytes("in", b, n); ev_bool("null", !e); ev_bytes("out", e ? e : b, e ? strlen((char *)e) : 0); ev_int("leak", live); ev_end(); free(e); free(b); }
        else if (is("dec")) { size_t n; unsigned char *b = ab(1, &n); live = 0; int z = ai(2); char *t = malloc(n + 1); memcpy(t, b, n); t[n] = 0; unsigned char *e = zpl_base64_decode(al, z ? t : (char *)b, n);
            long m = n / 4 * 3; if (e && n >= 4) { if (b[n - 1] == '=') m--; if (b[n - 2] == '=') m--; } ev("dec"); ev_bytes("in", b, n); ev_bool("null", !e); ev_bytes("out", e ? e : b, e ? m : 0); ev_int("term", e ? e[m] : 0); ev_int("leak", live); ev_end(); free(e); free(b); free(t); }
        else vp_bad();
    }
    return 0;
}
