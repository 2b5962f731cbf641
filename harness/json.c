#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include "node.h"
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
#define CFG 0
#else
#define CFG root.cfg_mode
#endif
static zpl_json_object root; static int have;
static void doc(const char *key, zpl_json_object *o) { ev_key(key); links = 1; dump(o, 0); ev_bool("links", links); }
static int samev(const char *a, const char *b) { for (;;) { while (*a == ' ' || *a == '\n') a++; while (*b == ' ' || *b == '\n') b++; if (*a != *b) return 0; if (!*a) return 1; a++; b++; } }   /* but for spacing */
static void drop(void) { if (have) zpl_json_free(&root); have = 0; while (npool) free(pool[--npool]); }
/* deterministic edits of the document at hand: members and elements move, appear and go */
static unsigned rs; static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return n ? (rs >> 12) % n : 0; }
static zpl_adt_node *all[4096]; static int nall; static void collect(zpl_adt_node *x) { if (nall < 4096) all[nall++] = x; if (isc(x)) for (long i = 0; i < zpl_array_count(x->nodes); i++) collect(x->nodes + i); }
static int inside(zpl_adt_node *x, zpl_adt_node *y) { for (; x; x = x->parent) if (x == y) return 1; return 0; }
static void edit(void) { nall = 0; collect(&root); zpl_adt_node *a = all[rnd(nall)], *b = all[rnd(nall)]; for (int i = 0; i < 5 && (b == &root || !isc(b)); i++) b = all[rnd(nall)];
    switch (rnd(5)) { case 0: case 1: case 2: if (a == &root || !isc(b) || inside(b, a) || (!a->name && b->type == ZPL_ADT_TYPE_OBJECT) || a->parent == b) return; if (rnd(2)) zpl_adt_move_node(a, b); else zpl_adt_move_node_at(a, b, rnd(zpl_array_count(b->nodes) + 1)); break;
        case 3: if (!isc(b)) return; zpl_adt_append_int(b, "new", (int)rnd(1000) - 500); break;
        case 4: if (a == &root || isc(a)) return; if (rnd(2)) zpl_adt_set_flt(a, a->name, (int)rnd(4000) / 8.0 - 250); else zpl_adt_set_str(a, a->name, "re\"set"); break; } }
static zpl_b8 wfile(zpl_file *f, zpl_adt_node *x, long arg) { (void)arg; return zpl_json_write(f, x, arg); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) { drop(); live = 0; continue; }
        if (is("parse")) { drop(); live = 0; char *t = text(1); ev("parse"); ev_str("t", t); memset(&root, 0x77, sizeof root); int err = zpl_json_parse(&root, t, al); have = 1; ev_int("err", err);
            if (!err) { doc("x", &root); } else { zpl_json_free(&root); have = 0; } ev_int("live", err ? live : 0); ev_end(); }
        else if (is("oom")) { drop(); live = 0; char *t = text(1); char *c = keep(strdup(t)); (void)c; ev("oom"); ev_str("t", t); int ok = 0;
            for (long k = 0; k < 400 && !ok; k++) { left = k; memset(&root, 0x77, sizeof root); int err = zpl_json_parse(&root, t, al); left = -1; if (err && err != ZPL_JSON_ERROR_OUT_OF_MEMORY) { ev_int("bad", err); break; } if (err) { zpl_json_free(&root); if (live) break; } else { ok = 1; have = 1; } }
            ev_bool("ok", ok); if (ok) doc("x", &root); else ev_int("lost", live); ev_end(); }
        else if (is("begin")) { drop(); live = 0; memset(&root, 0x77, sizeof root); root.parent = 0; int arr = !strcmp(vp_tok[1], "arr"); if (arr) zpl_adt_set_arr(&root, 0, al); else zpl_adt_set_obj(&root, 0, al); have = 1;
            zpl_adt_node *cur = &root; while (vp_next()) { if (is("fin")) break; char *n = vp_ntok > 1 && !is("end") ? text(1) : 0; 
                if (is("obj")) cur = zpl_adt_append_obj(cur, n); else if (is("arr")) cur = zpl_adt_append_arr(cur, n); else if (is("str")) zpl_adt_append_str(cur, n, text(2)); else if (is("mstr")) { zpl_adt_node *q = zpl_adt_append_str(cur, n, text(2)); q->type = ZPL_ADT_TYPE_MULTISTRING; }
                else if (is("int")) zpl_adt_append_int(cur, n, ai(2)); else if (is("flt")) zpl_adt_append_flt(cur, n, ad(2)); else if (is("end")) cur = cur->parent; else vp_bad(); }
            ev("build"); doc("x", &root); ev_end(); }
        else if (is("write")) { if (!have) continue; long ind = strcmp(vp_tok[1], "c") ? ai(1) : ZPL_JSON_INDENT_STYLE_COMPACT; ev("write"); long before = live; zpl_string t1 = zpl_json_write_string(al, &root, ind); ev_bool("ok", t1 != 0);
            if (t1) { ev_str("t", t1); ev_files(wfile, &root, ind, t1); char *t = keep(strdup(t1)); zpl_json_object again; memset(&again, 0x77, sizeof again); int err = zpl_json_parse(&again, t, al); ev_int("err", err);
                if (!err) { doc("x", &again); zpl_string t2 = zpl_json_write_string(al, &again, ind); ev_bool("same", t2 && samev(t1, t2)); if (t2) zpl_string_free(t2); zpl_json_free(&again); } zpl_string_free(t1); }
            ev_int("live", live - before); ev_end(); }
        else if (is("edit")) { if (!have) continue; rs = ai(1); for (long i = ai(2); i > 0; i--) edit(); if (CFG && !zpl_array_count(root.nodes)) zpl_adt_append_int(&root, "last", 1); ev("build"); doc("x", &root); ev_end(); }
        else if (is("num")) { char *t = text(1); int st = ai(2); zpl_adt_node n; memset(&n, 0, sizeof n); char *e = st ? zpl_adt_parse_number_strict(&n, t) : zpl_adt_parse_number(&n, t);
            ev("num"); ev_str("t", t); ev_bool("strict", st); ev_int("ret", e - t); ev_bool("num", n.type == ZPL_ADT_TYPE_INTEGER || n.type == ZPL_ADT_TYPE_REAL); doc("x", &n); ev_end(); }
        else if (is("conv")) { drop(); live = 0; char *t = text(1); int st = ai(2); zpl_adt_set_obj(&root, 0, al); have = 1; root.parent = 0; zpl_adt_append_int(&root, "a", 1); zpl_adt_append_str(&root, "num", t); zpl_adt_append_int(&root, "b", 2); zpl_adt_node *n = zpl_adt_query(&root, "num");
            int err = st ? zpl_adt_str_to_number_strict(n) : zpl_adt_str_to_number(n), again = st ? zpl_adt_str_to_number_strict(n) : zpl_adt_str_to_number(n), other = st ? zpl_adt_str_to_number_strict(&root) : zpl_adt_str_to_number(&root);
            ev("conv"); ev_str("t", t); ev_bool("strict", st); ev_str("n", "num"); ev_int("err", err); ev_int("again", again); ev_int("other", other); zpl_adt_node *par = n->parent; links = 1; ev_key("x"); dump(n, &root); ev_bool("links", links && par == &root && zpl_array_count(root.nodes) == 3); ev_end(); }
        else if (is("free")) { drop(); ev("free"); ev_int("live", live); ev_end(); }
        else vp_bad();
    }
    return 0;
}
