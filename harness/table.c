#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#if VP_T == 0
typedef int V; static V mkv(int v) { return v; } static int vv(V v) { return v; }
#else
typedef struct { int a, b, c, d, e; } V5; typedef V5 V; static V mkv(int v) { V x = { v, v + 1, v + 2, v + 3, v + 4 }; return x; } static int vv(V v) { return v.b == v.a + 1 && v.c == v.a + 2 && v.d == v.a + 3 && v.e == v.a + 4 ? v.a : -9; }
#endif
ZPL_TABLE(static, tab, tab_, V);
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory); return 0; }
static zpl_u64 K[4096]; static int nk; static tab H; static int open_;
static int keyno(zpl_u64 k) { for (int i = 0; i < nk; i++) if (K[i] == k) return i; return -2; }
static void visit(zpl_u64 k, V v) { if (!vp_first) vp__puts(","); vp_first = 0; vp__puts("["); vp__int(keyno(k)); vp__puts(","); vp__int(vv(v)); vp__puts("]"); }
static int D; static int seen;
static void mut(zpl_u64 k, V *v) { seen++; *v = mkv((vv(*v) + D) % 1000); }
static void obs(void) {
    int slotok = 1;
    ev_arr("gets"); for (int i = 0; i < nk; i++) { V *v = tab_get(&H, K[i]); ev_item(v ? vv(*v) : -1); zpl_isize s = tab_slot(&H, K[i]); if ((s >= 0) != (v != 0)) slotok = 0; if (s >= 0 && (s >= zpl_array_count(H.entries) || H.entries[s].key != K[i])) slotok = 0; } ev_arrend();
    /* keys never set must not be found: neighbours of the used ones, unless they are used themselves */
    for (int i = 0; i < nk; i++) for (int d = -1; d <= 1; d += 2) { zpl_u64 k = K[i] + d * (i % 3 ? 1 : 8); if (keyno(k) < 0 && (tab_get(&H, k) || tab_slot(&H, k) >= 0)) slotok = 0; }
    ev_arr("it"); tab_map(&H, visit); ev_arrend(); ev_bool("slotok", slotok); ev_end();
}
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (is("seg")) { if (open_) tab_destroy(&H); memset(&H, 0, sizeof H); tab_init(&H, al); open_ = 1; for (nk = 0; nk < 6; nk++) K[nk] = nk; vp_seg(); continue; }
        if (is("keys")) { nk = 0; for (int i = 1; i < vp_ntok; i++) K[nk++] = au(i); continue; }
        if (is("set")) { int k = ai(1) % nk; tab_set(&H, K[k], mkv(ai(2))); ev("set"); ev_int("k", k); ev_int("v", ai(2)); obs(); }
        else if (is("remove")) { int k = ai(1) % nk; tab_remove(&H, K[k]); ev("remove"); ev_int("k", k); obs(); }
        else if (is("removeall")) { ev("removeall"); ev_arr("ks"); for (int i = 1; i < vp_ntok; i++) { int k = ai(i) % nk; zpl_isize s = tab_slot(&H, K[k]); if (s >= 0) tab_remove_entry(&H, s); ev_item(k); } ev_arrend(); tab_rehash_fast(&H); obs(); }
        else if (is("clear")) { tab_clear(&H); ev("clear"); obs(); }
        else if (is("rehash")) { tab_rehash(&H, ai(1)); ev("rehash"); obs(); }
        else if (is("rehashfast")) { tab_rehash_fast(&H); ev("rehashfast"); obs(); }
        else if (is("grow")) { tab_grow(&H); ev("grow"); obs(); }
        else if (is("mapmut")) { D = ai(1); tab_map_mut(&H, mut); ev("mapmut"); ev_int("d", D); obs(); }
        else vp_bad();
    }
    return 0;
}
