#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#define N 16
static zpl_list L[N]; static int used[N]; static char tag[N];
static int idx(zpl_list *p) { if (!p) return -1; if (p < L || p >= L + N) return -9; return p - L; }
static void obs(void) { ev_arr("nx"); for (int i = 0; i < N; i++) ev_item(idx(L[i].next)); ev_arrend(); ev_arr("pv"); for (int i = 0; i < N; i++) ev_item(idx(L[i].prev)); ev_arrend();
    ev_arr("ptr"); for (int i = 0; i < N; i++) ev_item(L[i].ptr ? (char *)L[i].ptr - tag : -1); ev_arrend(); ev_end(); }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) { memset(used, 0, sizeof used); memset(L, 0, sizeof L); continue; }
        int a = ai(1);
        if (is("init")) { if (used[a]) continue; zpl_list_init(&L[a], tag + a); used[a] = 1; ev("init"); ev_int("a", a); obs(); }
        else if (is("add")) { int b = ai(2); if (!used[a] || used[b]) continue; L[b].ptr = tag + b; zpl_list *r = zpl_list_add(&L[a], &L[b]); used[b] = 1; ev("add"); ev_int("a", a); ev_int("b", b); ev_int("ret", idx(r)); obs(); }
        else if (is("remove")) { if (!used[a]) continue; zpl_list *r = zpl_list_remove(&L[a]); used[a] = 0; ev("remove"); ev_int("a", a); ev_int("ret", idx(r)); obs(); }
        else vp_bad();
    }
    return 0;
}
