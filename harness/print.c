#define _GNU_SOURCE
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
/* integer-class arguments and floating ones travel in separate registers (System V x86-64): both lists are passed in full */
#define ARGS I[0], I[1], I[2], I[3], I[4], I[5], I[6], I[7], I[8], I[9], I[10], I[11], D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]
#define CK(n) if ((n) >= 12) { fprintf(stderr, "too many arguments\n"); exit(3); }
/* what two calls print on the standard output and on the standard error: a fresh file, a pipe, a file that is appended to */
static int rd[2], sv[2], kind;
static void cap_on(void) { fflush(stdout); kind = (kind + 1) % 3; for (int i = 0; i < 2; i++) { int w, p[2]; const char *n = i ? "e.tmp" : "o.tmp"; 
    if (kind == 1) { if (pipe2(p, O_NONBLOCK)) exit(3); rd[i] = p[0]; w = p[1]; } else { unlink(n); rd[i] = open(n, O_RDWR | O_CREAT, 0600); if (kind == 2 && write(rd[i], "keep", 4) != 4) exit(3); w = kind == 2 ? open(n, O_WRONLY | O_APPEND) : dup(rd[i]); }
    sv[i] = dup(i + 1); dup2(w, i + 1); close(w); } }
static void cap_off(void) { for (int i = 0; i < 2; i++) { dup2(sv[i], i + 1); close(sv[i]); } }
static void cap_ev(const char *o, const char *e) { static char b[16384]; for (int i = 0; i < 2; i++) { long k = kind == 1 ? read(rd[i], b, sizeof b) : pread(rd[i], b, sizeof b, 0), from = 0; if (k < 0) k = 0; if (kind == 2) { if (k >= 4 && !memcmp(b, "keep", 4)) from = 4; else { memcpy(b, "?", 1); k = 1; } } ev_bytes(i ? e : o, b + from, k - from); close(rd[i]); } }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) continue;
        if (is("print") || is("printf1") || is("odd")) {
            uint64_t I[12] = {0}; double D[8] = {0}; int ni = 0, nd = 0, own = 0; char *owned[16];
            size_t n = ai(1); char *fmt = as(2);
            for (int k = 3; k < vp_ntok; k++) { char c = vp_tok[k][0]; vp_tok[k]++; CK(ni) 
                if (c == 'i') I[ni++] = au(k); else if (c == 'd') { uint64_t u = au(k); memcpy(&D[nd++ % 8], &u, 8); } else if (c == 'n') I[ni++] = 0;
                else if (c == 's') I[ni++] = (uint64_t)(owned[own++] = as(k)); else vp_bad(); }
            char *buf = malloc(n ? n : 1);     /* exactly n bytes: the sanitizer sees any write beyond */
            memset(buf, 'Z', n);
            long ret = n ? zpl_snprintf(buf, n, fmt, ARGS) : zpl_snprintf(buf + 1, 0, fmt, ARGS);
            ev(vp_tok[0]); ev_int("n", n); ev_str("fmt", fmt); ev_key("args"); vp__puts("[");
            for (int k = 3, i = 0, d = 0, o = 0; k < vp_ntok; k++) { char c = vp_tok[k][-1]; vp__puts(k > 3 ? ",{\"t\":\"" : "{\"t\":\""); vp__put(&c, 1); vp__puts("\"");
                if (c == 'i') ev_u64("v", I[i++]); else if (c == 'd') { uint64_t u; memcpy(&u, &D[d++], 8); ev_u64("v", u); } else if (c == 's') ev_str("b", (char *)I[i++]); else i++;
                vp__puts("}"); }
            vp__puts("]");
            size_t ol = n ? strnlen(buf, n) : 0; ev_bytes("out", buf, ol); ev_int("ret", ret);
            if (!is("odd")) {
                static char big[4096]; long fr = zpl_snprintf(big, sizeof big, fmt, ARGS); ev_str("full", big); ev_int("fullret", fr);
                ev_str("b", zpl_bprintf(fmt, ARGS));
                char *a = 0; long ar = zpl_asprintf(zpl_heap_allocator(), &a, fmt, ARGS); ev_str("a", a); ev_int("aret", ar); zpl_free(zpl_heap_allocator(), a);
                zpl_file f = {0}; unlink("p.tmp"); if (zpl_file_create(&f, "p.tmp")) exit(3);
                long wr = zpl_fprintf(&f, fmt, ARGS); zpl_file_close(&f);
                int fd = open("p.tmp", O_RDONLY); long got = read(fd, big, sizeof big); close(fd); ev_bytes("f", big, got < 0 ? 0 : got); ev_int("fret", wr);
                cap_on(); long po = zpl_printf(fmt, ARGS), po2 = zpl_printf(fmt, ARGS); cap_off(); if (po2 != po) po = -7; cap_ev("po", "poe"); ev_int("poret", po);
                cap_on(); long pe = zpl_printf_err(fmt, ARGS), pe2 = zpl_printf_err(fmt, ARGS); cap_off(); if (pe2 != pe) pe = -7; cap_ev("peo", "pe"); ev_int("peret", pe);
                zpl_string s = zpl_string_sprintf_buf(zpl_heap_allocator(), fmt, ARGS); ev_bytes("s", s, zpl_string_length(s)); zpl_string_free(s);
                zpl_string t = zpl_string_make(zpl_heap_allocator(), "pre"); t = zpl_string_append_fmt(t, fmt, ARGS); ev_str("pre", "pre"); ev_bytes("app", t, zpl_string_length(t)); zpl_string_free(t);
            }
            ev_end();
            free(buf); free(fmt); while (own) free(owned[--own]);
        } else if (is("long")) {
            int extra = ai(1), lim = ZPL_PRINTF_MAXLEN, ok = 1, len = lim + extra;
            char *s = malloc(len + 1); for (int k = 0; k < len; k++) s[k] = 'a' + k % 23; s[len] = 0;
            char *b = zpl_bprintf("%s", s); long n = strlen(b); ok &= !memcmp(b, s, n);
            char *a = 0; long ar = zpl_asprintf(zpl_heap_allocator(), &a, "%s", s); ok &= !strcmp(a, b); zpl_free(zpl_heap_allocator(), a);
            zpl_file f = {0}; unlink("p.tmp"); if (zpl_file_create(&f, "p.tmp")) exit(3);
            long wr = zpl_fprintf(&f, "%s", s); zpl_file_close(&f); ok &= wr == ar;
            char *big = malloc(4 * lim); int fd = open("p.tmp", O_RDONLY); long got = read(fd, big, 4 * lim); close(fd); ok &= got == n && !memcmp(big, s, n); free(big);
            zpl_string t = zpl_string_make(zpl_heap_allocator(), "pre"); t = zpl_string_append_fmt(t, "%s", s); long tl = zpl_string_length(t); ok &= tl >= n + 3 - 1 && tl <= n + 3 && !memcmp(t + 3, s, tl - 3); zpl_string_free(t);
            ev("long"); ev_int("lim", lim); ev_bool("ok", ok); ev_int("n", n); ev_int("ret", ar); ev_end(); free(s);
        } else vp_bad();
    }
    return 0;
}
