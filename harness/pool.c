#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
/* backing allocator with guard bytes; records the region given out */
#define G 256
static unsigned char *g_mem; static long g_size; static int g_freed;
static ZPL_ALLOCATOR_PROC(backing) {
    (void)allocator_data; (void)old_size; (void)flags; (void)old_memory;
    if (type == ZPL_ALLOCATION_ALLOC) { long al = alignment < 16 ? 16 : alignment; unsigned char *m = aligned_alloc(4096, (size + 2 * G + 8192) & ~4095l); g_mem = m + ((G + al - 1) / al) * al; g_size = size;
        if (alignment < 16) g_mem += alignment; memset(m, 0xA5, g_mem - m); memset(g_mem, 0xEE, size); memset(g_mem + size, 0xA5, G); return g_mem; }
    if (type == ZPL_ALLOCATION_FREE) g_freed++;
    return 0;
}
#define NB 4096
static unsigned char *B[NB], pat[NB]; static int nb; static unsigned char np = 1; static zpl_pool P; static int open_;
static int intact(void) {
    for (int i = 0; i < nb; i++) for (long j = 0; j < P.block_size; j++) if (B[i][j] != pat[i]) return 0;
    for (int j = 1; j <= 64; j++) if (g_mem[-j] != 0xA5) return 0;
    for (int j = 0; j < G; j++) if (g_mem[g_size + j] != 0xA5) return 0;
    return 1;
}
static void obs(void) { ev_int("used", P.total_size); ev_bool("intact", intact()); ev_end(); }
static int cmp(const void *a, const void *b) { return 0; }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) { nb = 0; open_ = 0; np = 1; vp_seg(); continue; }
        if (is("init")) { long n = ai(1), bs = ai(2), al = ai(3); zpl_allocator b = { backing, 0 };
            if (al == 16 && n % 2) zpl_pool_init(&P, b, n, bs); else zpl_pool_init_align(&P, b, n, bs, al);
            open_ = 1; nb = 0; ev("init"); ev_int("n", n); ev_int("bs", bs); ev_int("al", al); ev_int("base", (uintptr_t)g_mem % 4096); ev_int("mem", g_size); obs(); continue; }
        if (!open_) continue;
        zpl_allocator a = zpl_pool_allocator(&P);
        if (is("alloc")) { if (nb >= P.num_blocks || nb >= NB) continue; unsigned char *q = zpl_alloc_align(a, P.block_size, P.block_align); int zero = 1;
            ev("alloc"); ev_int("off", q ? q - g_mem : -1);
            if (q) { for (long j = 0; j < P.block_size; j++) if (q[j]) zero = 0; }
            ev_bool("zero", zero);
            if (q && q >= g_mem && q + P.block_size <= g_mem + g_size) { int k = nb; while (k > 0 && B[k - 1] > q) { B[k] = B[k - 1]; pat[k] = pat[k - 1]; k--; } B[k] = q; pat[k] = np++; if (!np) np = 1; nb++; memset(q, pat[k], P.block_size); }
            obs(); }
        else if (is("free")) { if (!nb) continue; int k = ai(1) % nb; unsigned char *q = B[k]; memmove(B + k, B + k + 1, (nb - k - 1) * sizeof *B); memmove(pat + k, pat + k + 1, nb - k - 1); nb--; zpl_free(a, q); ev("free"); ev_int("off", q - g_mem); obs(); }
        else if (is("freeall")) { nb = 0; zpl_free_all(a); ev("freeall"); obs(); }
        else vp_bad();
    }
    return 0;
}
