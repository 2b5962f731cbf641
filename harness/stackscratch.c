#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#define G 256
static unsigned char *g_mem, *g_raw; static long g_size; static long g_base; static int g_freed;
static unsigned char *mk(long base, long size) { long t = (8192 + base + size + G + 4095) & ~4095l; unsigned char *m = aligned_alloc(4096, t); memset(m, 0xA5, t); g_raw = m; memset(m + 4096 + base, 0xEE, size); g_mem = m + 4096 + base; g_size = size; return g_mem; }
static int guards(void) { for (int j = 1; j <= 128; j++) if (g_mem[-j] != 0xA5) return 0; for (int j = 0; j < G; j++) if (g_mem[g_size + j] != 0xA5) return 0; return 1; }
/* a backing allocator whose blocks always move when they grow; alternates the base address modulo 16 */
static ZPL_ALLOCATOR_PROC(backing) {
    (void)allocator_data; (void)flags;
    if (type == ZPL_ALLOCATION_ALLOC) return mk(alignment > 4096 ? 0 : (g_base = (g_base + alignment) % 4096) / alignment * alignment, size);
    if (type == ZPL_ALLOCATION_RESIZE) { unsigned char *om = g_mem; long os = g_size; unsigned char *raw = g_raw; mk((g_base = (g_base + alignment) % 4096) / alignment * alignment, size); memcpy(g_mem, old_memory, (old_size < size ? old_size : size)); if (old_size != os) memset(g_mem, 0x11, 1); (void)om; free(raw); return g_mem; }
    if (type == ZPL_ALLOCATION_FREE) { if (old_memory == g_mem) g_freed++; else g_freed += 100; }
    return 0;
}
#define NB 1024
typedef struct { long off; long size; unsigned char pat; } blk;
static blk B[NB]; static int nb; static unsigned char np = 1; static zpl_stack_memory S; static zpl_scratch_memory C; static int mode, fixed; static unsigned char *lo;
static int intact(void) { if (!mode) return 1;
    if (mode == 1) { unsigned char *b = S.physical_start; for (int i = 0; i < nb; i++) if (B[i].size && !zpl_stack_memory_is_in_use(&S, b + B[i].off)) return 0; if (!nb && zpl_stack_memory_is_in_use(&S, b + 8)) return 0; if (zpl_stack_memory_is_in_use(&S, b + S.total_size) || zpl_stack_memory_is_in_use(&S, b - 1)) return 0; }
    if (mode == 2) { for (int i = 0; i < nb; i++) if (B[i].size && !zpl_scratch_memory_is_in_use(&C, lo + B[i].off)) return 0; if (!nb && zpl_scratch_memory_is_in_use(&C, C.physical_start)) return 0; } unsigned char *base = mode == 1 ? (unsigned char *)S.physical_start : lo; for (int i = 0; i < nb; i++) for (long j = 0; j < B[i].size; j++) if (base[B[i].off + j] != B[i].pat) return 0; return guards(); }
static void sobs(void) { ev_int("top", S.allocated); ev_int("total", S.total_size); ev_int("base", (uintptr_t)S.physical_start % 4096); ev_bool("intact", intact()); ev_end(); }
static void cobs(void) { ev_bool("intact", intact()); ev_end(); }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) { if (g_raw) free(g_raw); g_raw = 0; nb = 0; mode = 0; np = 1; g_base = 0; vp_seg(); continue; }
        if (is("stack")) { long base = ai(1), tot = ai(2); fixed = !ai(3); mode = 1; memset(&S, 0xCC, sizeof S);
            if (fixed) { zpl_stack_memory_init_from_memory(&S, mk(base, tot), tot); } else { zpl_allocator b = { backing, 0 }; zpl_stack_memory_init(&S, b, tot); }
            ev("stack"); sobs(); continue; }
        if (is("scratch")) { long base = ai(1), cap = ai(2); mode = 2; lo = mk(base, cap); zpl_scratch_memory_init(&C, lo, cap); ev("scratch"); ev_int("base", base); ev_int("cap", cap); cobs(); continue; }
        if (!mode) continue;
        zpl_allocator a = mode == 1 ? zpl_stack_allocator(&S) : zpl_scratch_allocator(&C);
        if (is("salloc")) { long size = ai(1), al = ai(2); if (nb >= NB) continue; if (fixed && (long)S.allocated + size + 8 + al > (long)S.total_size) continue;
            unsigned char *q = zpl_alloc_align(a, size, al); long off = q ? q - (unsigned char *)S.physical_start : -1;
            ev("salloc"); ev_int("size", size); ev_int("al", al); ev_int("off", off);
            if (q && q >= g_mem && q + size <= g_mem + g_size) { B[nb].off = off; B[nb].size = size; B[nb].pat = np++; if (!np) np = 1; memset(q, B[nb].pat, size); nb++; }
            sobs(); }
        else if (is("sfree")) { if (!nb) continue; nb--; zpl_free(a, (unsigned char *)S.physical_start + B[nb].off); ev("sfree"); sobs(); }
        else if (is("sfreeall")) { nb = 0; zpl_free_all(a); ev("sfreeall"); sobs(); }
        else if (is("sclose")) { if (mode != 1) continue; g_freed = 0; zpl_stack_memory_free(&S); ev("sclose"); ev_bool("own", !fixed); ev_int("freed", g_freed); ev_bool("null", S.physical_start == 0); ev_bool("intact", guards()); ev_end(); mode = 0; nb = 0; free(g_raw); g_raw = 0; }
        else if (is("calloc")) { long size = ai(1), al = ai(2); if (nb >= NB) continue; unsigned char *q = zpl_alloc_align(a, size, al); int zero = 1;
            ev("calloc"); ev_int("size", size); ev_int("al", al); ev_int("off", q ? q - lo : -1); int in = q && q >= lo && q + size <= lo + g_size;
            if (in) for (long j = 0; j < size; j++) if (q[j]) zero = 0;
            ev_bool("zero", zero); int it = nb ? intact() : 1;
            if (in) { B[nb].off = q - lo; B[nb].size = size; B[nb].pat = np++; if (!np) np = 1; memset(q, B[nb].pat, size); nb++; }
            ev_bool("intact", it && intact()); ev_end(); }
        else if (is("cfree")) { if (!nb) continue; int k = ai(1) % nb; long off = B[k].off; memmove(B + k, B + k + 1, (nb - k - 1) * sizeof *B); nb--; zpl_free(a, lo + off); ev("cfree"); ev_int("off", off); cobs(); }
        else if (is("cresize")) { if (!nb) continue; int k = ai(1) % nb; long size = ai(2), al = ai(3), from = B[k].off, fs = B[k].size; int kept = 1; if (!fs || !size) continue;
            unsigned char *q = zpl_resize_align(a, lo + from, fs, size, al); ev("cresize"); ev_int("from", from); ev_int("size", size); ev_int("al", al); ev_int("off", q ? q - lo : -1);
            if (q && q != lo + from && q >= lo && q + size <= lo + g_size) { for (long j = 0; j < (fs < size ? fs : size); j++) if (q[j] != B[k].pat) kept = 0; blk n = { q - lo, size, np++ }; if (!np) np = 1; memmove(B + k, B + k + 1, (nb - k - 1) * sizeof *B); B[nb - 1] = n; memset(q, n.pat, size); }
            ev_bool("kept", kept); cobs(); }
        else if (is("cfreeall")) { nb = 0; zpl_free_all(a); ev("cfreeall"); cobs(); }
        else vp_bad();
    }
    return 0;
}
