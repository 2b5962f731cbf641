#include <stdio.h>
#include <stdlib.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include "node.h"
static zpl_csv_object root; static int have, head;
static void drop(void) { if (have) zpl_csv_free(&root); have = 0; while (npool) free(pool[--npool]); }
static void doc(zpl_adt_node *o) { ev_key("x"); dump(o, 0); }
static zpl_b8 wfile(zpl_file *f, zpl_adt_node *x, long arg) { (void)arg; return arg == ',' ? zpl_csv_write(f, x) : zpl_csv_write_delimiter(f, x, (char)arg); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) { drop(); live = 0; continue; }
        if (is("parse")) { drop(); live = 0; int d = ai(1); head = ai(2); char *t = text(3); ev("parse"); ev_int("d", d); ev_bool("head", head); ev_str("t", t); memset(&root, 0x77, sizeof root);
            int err = d == ',' ? zpl_csv_parse(&root, t, al, head) : zpl_csv_parse_delimiter(&root, t, al, head, (char)d); ev_int("err", err); have = 1;
            if (err) { zpl_csv_free(&root); have = 0; } else doc(&root); ev_int("live", err ? live : 0); ev_end(); }
        else if (is("build")) { drop(); live = 0; int cols = ai(1), rows = ai(2); head = ai(3); memset(&root, 0x77, sizeof root); root.parent = 0; if (head) zpl_adt_set_obj(&root, 0, al); else zpl_adt_set_arr(&root, 0, al); have = 1;
            for (int i = 0; i < cols; i++) { if (!vp_next()) return 3; zpl_adt_node *c = zpl_adt_append_arr(&root, head ? text(0) : 0); c->name_style = ai(1); 
                for (int j = 0; j < rows; j++) { if (!vp_next()) return 3; c = root.nodes + i; if (is("str")) { zpl_adt_node *n = zpl_adt_append_str(c, 0, text(2)); n->name_style = ai(1); } else if (is("int")) zpl_adt_append_int(c, 0, ai(1)); else if (is("flt")) zpl_adt_append_flt(c, 0, ad(1)); else vp_bad(); } }
            ev("build"); ev_bool("head", head); doc(&root); ev_end(); }
        else if (is("write")) { if (!have) continue; int d = ai(1); ev("write"); ev_int("d", d); long before = live; zpl_string t1 = d == ',' ? zpl_csv_write_string(al, &root) : zpl_csv_write_string_delimiter(al, &root, (char)d); ev_str("t", t1); ev_files(wfile, &root, d, t1);
            char *t = keep(strdup(t1)); zpl_csv_object again; memset(&again, 0x77, sizeof again); int err = zpl_csv_parse_delimiter(&again, t, al, head, (char)d); ev_int("err", err);
            if (!err) { doc(&again); } zpl_csv_free(&again); zpl_string_free(t1); ev_int("live", live - before); ev_end(); }
        else if (is("free")) { drop(); ev("free"); ev_int("live", live); ev_end(); }
        else vp_bad();
    }
    return 0;
}
