#include <stdio.h>
#include <stdlib.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include "node.h"
static zpl_uri_object root; static int have;
static void drop(void) { if (have) zpl_uri_free(&root); have = 0; while (npool) free(pool[--npool]); }
static void doc(zpl_adt_node *o) { ev_key("x"); dump(o, 0); }
static zpl_b8 wfile(zpl_file *f, zpl_adt_node *x, long arg) { (void)arg; return zpl_uri_write(f, x); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) { drop(); live = 0; continue; }
        if (is("parse")) { drop(); live = 0; char *t = text(1); ev("parse"); ev_str("t", t); memset(&root, 0x77, sizeof root); ev_int("err", zpl_uri_parse(&root, t, al)); have = 1; doc(&root); ev_end(); }
        else if (is("init")) { drop(); live = 0; memset(&root, 0x77, sizeof root); zpl_uri_init(&root, text(1), al); have = 1;
            while (vp_next()) { if (is("fin")) break; char *n = text(1); if (is("str")) zpl_adt_append_str(&root, n, text(2)); else if (is("int")) zpl_adt_append_int(&root, n, ai(2)); else if (is("flt")) zpl_adt_append_flt(&root, n, ad(2)); else if (is("bare")) zpl_adt_append_flt(&root, n, 1)->props = ZPL_ADT_PROPS_TRUE;
                else if (is("origin")) { zpl_adt_append_str(&root, "__zpl_origin__", n); } else vp_bad(); }
            ev("build"); doc(&root); ev_end(); }
        else if (is("write")) { if (!have) continue; ev("write"); long before = live; zpl_string t1 = zpl_uri_write_string(al, &root); ev_str("t", t1); ev_files(wfile, &root, 0, t1); char *t = keep(strdup(t1)); zpl_uri_object again; memset(&again, 0x77, sizeof again); ev_int("err", zpl_uri_parse(&again, t, al));
            doc(&again); zpl_uri_free(&again); zpl_string_free(t1); ev_int("live", live - before); ev_end(); }
        else if (is("free")) { drop(); ev("free"); ev_int("live", live); ev_end(); }
        else vp_bad();
    }
    return 0;
}
