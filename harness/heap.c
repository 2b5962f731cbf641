#ifdef VP_ANALYSIS
#define ZPL_HEAP_ANALYSIS
#endif
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#define NB 64
typedef struct { unsigned char *p; long size; unsigned char *want; } blk;
static blk B[NB]; static unsigned seed;
static void fill(blk *b) { free(b->want); b->want = malloc(b->size + 1); for (long i = 0; i < b->size; i++) b->p[i] = b->want[i] = (unsigned char)(seed = seed * 1103515245u + 12345u, seed >> 16); }
static int intact(void) { for (int i = 0; i < NB; i++) if (B[i].p && memcmp(B[i].p, B[i].want, B[i].size)) return 0; return 1; }
static void obs(void) {
    ev_bool("intact", intact());
#ifdef VP_ANALYSIS
    ev_bool("analysis", 1); ev_int("used", zpl_heap_stats_used_memory()); ev_int("count", zpl_heap_stats_alloc_count());
#else
    ev_bool("analysis", 0); ev_int("used", 0); ev_int("count", 0);
#endif
    ev_end();
}
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator a = zpl_heap_allocator();
    zpl_heap_stats_init();
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < NB; i++) if (B[i].p) { zpl_free(a, B[i].p); B[i].p = 0; }
#ifdef VP_ANALYSIS
            zpl_heap_stats_check();
#endif
            vp_seg(); continue; }
        int id = ai(1); blk *b = &B[id];
        if (is("alloc")) { if (b->p) continue; long size = ai(2), al = ai(3); unsigned char *q = al == 16 && size % 3 == 0 ? zpl_malloc(size) : zpl_alloc_align(a, size, al); int zero = 1; for (long i = 0; i < size; i++) if (q[i]) zero = 0;
            b->p = q; b->size = size; ev("alloc"); ev_int("id", id); ev_u64("addr", (uintptr_t)q); ev_int("size", size); ev_int("al", al); ev_bool("zero", zero); fill(b); obs(); }
        else if (is("copy")) { /* copy id kind bytes */ if (b->p) continue; int kind = ai(2); size_t n; unsigned char *src = ab(3, &n); unsigned char *q; long size = n; int same; char *z = 0; long al = 16;
            if (kind == 0) { q = zpl_alloc_copy(a, src, n); same = !memcmp(q, src, n); }
            else if (kind == 1) { al = 64; q = zpl_alloc_copy_align(a, src, n, 64); same = !memcmp(q, src, n); }
            else if (kind == 2) { q = (unsigned char *)zpl_alloc_str_len(a, (char *)src, n); same = !memcmp(q, src, n) && q[n] == 0; size = n + 1; }
            else { z = malloc(n + 1); size_t m = 0; for (size_t i = 0; i < n; i++) if (src[i]) z[m++] = src[i]; z[m] = 0; z = realloc(z, m + 1); q = (unsigned char *)zpl_alloc_str(a, z); same = !strcmp((char *)q, z); size = m + 1; free(z); }
            free(src); b->p = q; b->size = size; ev("copy"); ev_int("id", id); ev_u64("addr", (uintptr_t)q); ev_int("size", size); ev_int("al", al); ev_bool("same", same); fill(b); obs(); }
        else if (is("free")) { if (!b->p) continue; zpl_mfree(b->p); b->p = 0; ev("free"); ev_int("id", id); obs(); }
        else if (is("resize")) { if (!b->p || !b->size) continue; long size = ai(2), al = ai(3); unsigned char *q = al == 16 ? zpl_resize(a, b->p, b->size, size) : zpl_resize_align(a, b->p, b->size, size, al); int kept = 1;
            if (q) { long m = b->size; if (size && memcmp(q, b->want, m)) kept = 0; }
            ev("resize"); ev_int("id", id); ev_int("size", size); ev_int("al", al); ev_bool("null", !q); ev_bool("moved", q != b->p); ev_u64("addr", (uintptr_t)q); ev_bool("kept", kept);
            if (!q) b->p = 0; else { if (size > b->size) b->size = size; b->p = q; fill(b); }
            obs(); }
        else if (is("vm")) { long size = ai(2); zpl_virtual_memory vm = zpl_vm_alloc(0, size); long align = 0, page = zpl_virtual_memory_page_size(&align); int zero = 1; unsigned char *q = vm.data;
            for (long i = 0; i < size; i++) if (q[i]) zero = 0; memset(q, 7, size);
            int aligned = vm.size == size && (uintptr_t)q % page == 0 && page >= 512 && align == page; int ok = zpl_vm_free(vm);
            ev("vm"); ev_bool("ok", ok); ev_bool("zero", zero); ev_bool("aligned", aligned); ev_end(); }
        else vp_bad();
    }
    return 0;
}
