#include <stdio.h>
#include <stdlib.h>
/* a lookup that cannot be meant is a programming error: assertions inside a query only count as "not found" */
static int in_query;
#define ZPL_ASSERT_MSG(cond, msg, ...) do { if (!(cond) && !in_query) { fprintf(stderr, "assert %s\n", #cond); abort(); } } while (0)
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static long live;
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) { live--; } free(old_memory); }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } else live++; return p; } return 0; }
static zpl_adt_node root; static char *pool[4096]; static int npool;
static char *text(int k) { if (!strcmp(vp_tok[k], "-")) return 0; size_t n; unsigned char *b = ab(k, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); if (npool == 4096) exit(3); return pool[npool++] = s; }
static int isc(zpl_adt_node *n) { return n->type == ZPL_ADT_TYPE_OBJECT || n->type == ZPL_ADT_TYPE_ARRAY; }
typedef struct { int n, i[32]; } Path;
/* indexes are taken modulo what is there */
static zpl_adt_node *walk(int k, Path *p, int cont) {
    zpl_adt_node *x = &root; p->n = 0; char *s = vp_tok[k];
    if (*s != '-') while (*s) { long v = strtol(s, &s, 10); if (*s == '.') s++; if (!isc(x) || !zpl_array_count(x->nodes)) break; long i = v % zpl_array_count(x->nodes); if (cont && !isc(x->nodes + i)) break; p->i[p->n++] = i; x = x->nodes + i; }
    return x;
}
static void path(const char *key, Path *p) { ev_key(key); vp__puts("["); for (int i = 0; i < p->n; i++) { if (i) vp__puts(","); vp__int(p->i[i]); } vp__puts("]"); }
static int locate(zpl_adt_node *x, zpl_adt_node *want, Path *p) { if (x == want) return 1; if (isc(x)) for (long i = 0; i < zpl_array_count(x->nodes); i++) { p->i[p->n++] = i; if (locate(x->nodes + i, want, p)) return 1; p->n--; } return 0; }
static void at(zpl_adt_node *want) { ev_key("at"); if (!want) { vp__puts("[-2]"); return; } Path p; p.n = 0; if (!locate(&root, want, &p)) { vp__puts("[-3]"); return; } vp__puts("["); for (int i = 0; i < p.n; i++) { if (i) vp__puts(","); vp__int(p.i[i]); } vp__puts("]"); }
static void str(const char *s) { if (!s) { vp__puts("[-1]"); return; } vp__puts("["); for (size_t i = 0; s[i]; i++) { if (i) vp__puts(","); vp__int((unsigned char)s[i]); } vp__puts("]"); }
static void dump(zpl_adt_node *x, zpl_adt_node *par) {
    vp__puts("{\"t\":"); vp__int(x->type); vp__puts(",\"n\":"); str(x->name); vp__puts(",\"p\":"); vp__puts(x->parent == par ? "true" : "false");
    vp__puts(",\"v\":"); vp__int(x->type == ZPL_ADT_TYPE_INTEGER ? x->integer : x->type == ZPL_ADT_TYPE_REAL ? (long)(x->real * 8) : 0);
    vp__puts(",\"s\":"); str(x->type == ZPL_ADT_TYPE_STRING || x->type == ZPL_ADT_TYPE_MULTISTRING ? x->string : 0); vp__puts(",\"c\":[");
    if (isc(x)) for (long i = 0; i < zpl_array_count(x->nodes); i++) { if (i) vp__puts(","); dump(x->nodes + i, x); }
    vp__puts("]}");
}
static void tree(void) { ev_key("tree"); dump(&root, 0); ev_end(); }
static int kind, fresh; static char *nm, *sv; static long iv;
/* KIND NAME VALUE from token k */
static void spec(int k) { kind = ai(k); nm = text(k + 1); sv = 0; iv = 0; if (kind == 3) sv = text(k + 2); if (kind == 5 || kind == 6) iv = ai(k + 2); }
static void evspec(void) { ev_int("k", kind); ev_key("n"); str(nm); ev_int("v", iv); ev_key("s"); str(sv); }
static void put(zpl_adt_node *x, zpl_allocator al) {
    switch (kind) { case 0: break; case 1: zpl_adt_set_arr(x, nm, al); break; case 2: zpl_adt_set_obj(x, nm, al); break; case 3: zpl_adt_set_str(x, nm, sv); break; case 5: zpl_adt_set_int(x, nm, iv); break; case 6: zpl_adt_set_flt(x, nm, iv / 8.0); break; }
}
static void drop(void) { if (fresh) { zpl_adt_destroy_branch(&root); fresh = 0; } while (npool) free(pool[--npool]); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 }; Path p, q; zpl_adt_node *a, *b, *r;
    while (vp_next()) {
        if (vp_seg()) { drop(); live = 0; memset(&root, 0, sizeof root); continue; }
        if (is("new")) { drop(); memset(&root, 0x66, sizeof root); root.parent = 0; live = 0; kind = ai(1); nm = text(2); sv = 0; iv = 0; zpl_adt_make_branch(&root, al, nm, kind == 1); fresh = 1; ev("new"); evspec(); tree(); }
        else if (is("add")) { a = walk(1, &p, 1); long n = zpl_array_count(a->nodes), i = ai(2) % (n + 1); spec(3); r = zpl_adt_alloc_at(a, i); if (r) put(r, al); ev("add"); path("p", &p); ev_int("i", i); evspec(); at(r); tree(); }
        else if (is("app")) { a = walk(1, &p, 1); long n = zpl_array_count(a->nodes); spec(2); 
            r = kind == 0 ? zpl_adt_alloc(a) : kind == 1 ? zpl_adt_append_arr(a, nm) : kind == 2 ? zpl_adt_append_obj(a, nm) : kind == 3 ? zpl_adt_append_str(a, nm, sv) : kind == 5 ? zpl_adt_append_int(a, nm, iv) : zpl_adt_append_flt(a, nm, iv / 8.0);
            ev("add"); path("p", &p); ev_int("i", n); evspec(); at(r); tree(); }
        else if (is("set")) { a = walk(1, &p, 0); if (!p.n) continue; spec(2); if (kind == 0) continue; zpl_adt_destroy_branch(a); put(a, al); ev("set"); path("p", &p); evspec(); tree(); }
        else if (is("rm")) { a = walk(1, &p, 0); if (!p.n) continue; zpl_adt_destroy_branch(a); zpl_adt_remove_node(a); ev("rm"); path("p", &p); tree(); }
        else if (is("mv") || is("mva")) { a = walk(1, &p, 0); b = walk(2, &q, 1); if (!p.n) continue; int in = q.n >= p.n; for (int i = 0; in && i < p.n; i++) in = p.i[i] == q.i[i]; if (in) continue;
            long n = zpl_array_count(b->nodes), i = is("mva") ? n : ai(3) % (n + 1); r = is("mva") ? zpl_adt_move_node(a, b) : zpl_adt_move_node_at(a, b, i); ev("mv"); path("p", &p); path("q", &q); ev_int("i", i); at(r); tree(); }
        else if (is("swap")) { a = walk(1, &p, 0); b = walk(2, &q, 0); if (!p.n || !q.n || a == b) continue; int m = p.n < q.n ? p.n : q.n, in = 1; for (int i = 0; in && i < m; i++) in = p.i[i] == q.i[i]; if (in) continue;
            zpl_adt_swap_nodes(a, b); ev("swap"); path("p", &p); path("q", &q); tree(); }
        else if (is("bad")) { a = walk(1, &p, 0); b = walk(2, &q, 1); int in = q.n >= p.n; for (int i = 0; in && i < p.n; i++) in = p.i[i] == q.i[i]; long n = zpl_array_count(b->nodes); 
            if (p.n && !in && ai(3) == 2) r = zpl_adt_move_node_at(a, b, n + 1); else r = ai(3) == 0 ? zpl_adt_alloc_at(b, n + 1) : zpl_adt_alloc_at(b, -1);
            if (!r && p.n && !isc(a)) r = zpl_adt_alloc(a); ev("bad"); at(r); tree(); }
        else if (is("find")) { a = walk(1, &p, 0); char *n = text(2); long d = ai(3); r = zpl_adt_find(a, n, d); ev("find"); path("p", &p); ev_key("n"); str(n); ev_bool("deep", d); at(r); ev_end(); }
        else if (is("query")) { a = walk(1, &p, 0); char *n = text(2); in_query = 1; r = zpl_adt_query(a, n); in_query = 0; ev("query"); path("p", &p); ev_key("u"); str(n); at(r); ev_end(); }
        else if (is("free")) { drop(); ev("free"); ev_int("live", live); ev_end(); }
        else vp_bad();
    }
    return 0;
}
