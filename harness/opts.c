#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include <fcntl.h>
#include "vp.h"
static long live;
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) live--; free(old_memory); }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } else live++; return p; } return 0; }
static unsigned char *slurp(const char *f, size_t *n) { FILE *h = fopen(f, "rb"); static unsigned char b[1 << 16]; *n = fread(b, 1, sizeof b, h); fclose(h); return b; }
static void show(const char *key, zpl_opts *o, int help) {
    fflush(stdout); int save = dup(1), fd = open("screen.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd);
    if (help) zpl_opts_print_help(o); else zpl_opts_print_errors(o);
    fflush(stdout); dup2(save, 1); close(save); size_t n; unsigned char *b = slurp("screen.txt", &n); ev_bytes(key, b, n);
}
static char *name(int k) { size_t n; unsigned char *b = ab(k, &n); if (!n) { free(b); return 0; } char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
static char *text(int k) { size_t n; unsigned char *b = ab(k, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
/* add xSHORT xLONG xDESC TYPE | pos xLONG | compile xARG...   (compile reads everything back and frees the parser) */
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 }; zpl_opts o; int have = 0, cnt = 0; char *ns[64], *ls[64], *junk[256]; int nj = 0, ty[64];
    while (vp_next()) {
        if (vp_seg()) continue;
        if (!have) { live = 0; memset(&o, 0x77, sizeof o); zpl_opts_init(&o, al, "app"); have = 1; cnt = 0; nj = 0; }
        if (is("add")) { char *n = name(1), *ln = name(2), *d = text(3); ty[cnt] = ai(4); ns[cnt] = n; ls[cnt] = ln; cnt++; junk[nj++] = n; junk[nj++] = ln; junk[nj++] = d;
            zpl_opts_add(&o, n, ln, d, ty[cnt - 1]); ev("add"); ev_bytes("n", (unsigned char *)(n ? n : ""), n ? strlen(n) : 0); ev_bytes("ln", (unsigned char *)(ln ? ln : ""), ln ? strlen(ln) : 0); ev_bytes("d", (unsigned char *)d, strlen(d)); ev_int("t", ty[cnt - 1]); ev_end(); }
        else if (is("pos")) { char *ln = text(1); junk[nj++] = ln; zpl_opts_positional_add(&o, ln); ev("pos"); ev_bytes("ln", (unsigned char *)ln, strlen(ln)); ev_end(); }
        else if (is("compile")) {
            int ac = vp_ntok; char **av = malloc((ac + 1) * sizeof *av); av[0] = strdup("prog"); ev("compile"); ev_bytes("app", (unsigned char *)"app", 3);
            ev_key("args"); vp__puts("["); for (int k = 1; k < ac; k++) { size_t n; unsigned char *b = ab(k, &n); av[k] = text(k); vp__puts(k > 1 ? ",[" : "["); for (size_t i = 0; i < n; i++) { if (i) vp__puts(","); vp__int(b[i]); } vp__puts("]"); free(b); } vp__puts("]"); av[ac] = 0;
            show("hscr", &o, 1);
            int ok = zpl_opts_compile(&o, ac, av); ev_bool("ok", ok);
            ev_key("err"); vp__puts("["); for (long i = 0; i < zpl_array_count(o.errors); i++) { vp__puts(i ? ",[" : "["); vp__int(o.errors[i].type); vp__puts(",["); for (size_t j = 0; j < strlen(o.errors[i].val); j++) { if (j) vp__puts(","); vp__int((unsigned char)o.errors[i].val[j]); } vp__puts("]]"); } vp__puts("]");
            show("escr", &o, 0);
            ev_key("vals"); vp__puts("[");
            for (int k = 0; k < cnt; k++) {
                vp__puts(k ? ",{\"has\":" : "{\"has\":"); zpl_opts_entry *e = &o.entries[k]; int has = ls[k] ? zpl_opts_has_arg(&o, ls[k]) : e->met; vp__puts(has ? "true" : "false");
                static char fb[] = "fallback"; char *s = 0; long i = 0; int d = 0;
                if (ty[k] == ZPL_OPTS_STRING) { s = ls[k] ? zpl_opts_string(&o, ls[k], fb) : e->met ? e->text : fb; d = s == fb; }
                if (ty[k] == ZPL_OPTS_INT) { i = ls[k] ? zpl_opts_integer(&o, ls[k], 987654321012L) : e->met ? e->integer : 987654321012L; d = i == 987654321012L; }
                if (ty[k] == ZPL_OPTS_FLOAT) { double r = ls[k] ? zpl_opts_real(&o, ls[k], 1e200) : e->met ? e->real : 1e200; d = r == 1e200; i = d || r > 1e6 || r < -1e6 ? 0 : (long)(r * 1000 + (r < 0 ? -0.5 : 0.5)); }
                vp__puts(",\"dflt\":"); vp__puts(d ? "true" : "false"); vp__puts(",\"i\":"); vp__int(d || i > 2000000000 || i < -2000000000 ? 0 : i); vp__puts(",\"s\":["); if (s && !d) for (size_t j = 0; j < strlen(s); j++) { if (j) vp__puts(","); vp__int((unsigned char)s[j]); } vp__puts("]}");
            }
            vp__puts("]"); ev_bool("filled", zpl_opts_positionals_filled(&o));
            ev_bool("ghost", zpl_opts_has_arg(&o, "no-such") || zpl_opts_integer(&o, "no-such", 7) != 7 || zpl_opts_real(&o, "no-such", .5) != .5 || zpl_opts_string(&o, "no-such", 0) != 0);
            zpl_opts_free(&o); ev_int("live", live); ev_end(); have = 0;
            for (int k = 0; k < ac; k++) free(av[k]); free(av); while (nj) free(junk[--nj]);
        } else vp_bad();
    }
    return 0;
}
