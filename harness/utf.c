#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static void units(const char *k, zpl_u16 *u) { ev_arr(k); if (!u) ev_item(-1); else for (; *u; u++) ev_item(*u); ev_arrend(); }
int main(int argc, char **argv) {
    vp_open(argc, argv);
    while (vp_next()) {
        if (vp_seg()) continue;
        if (is("enc")) { for (long r = ai(1); r < ai(2); r += ai(3)) { zpl_u8 b[4]; long w = zpl_utf8_encode_rune(b, (zpl_rune)r); zpl_u8 *x = malloc(w); memcpy(x, b, w); zpl_rune back = -1; long bw = zpl_utf8_decode(x, w, &back); ev("enc"); ev_int("r", r); ev_int("w", w); ev_bytes("b", b, w > 4 ? 4 : w); ev_int("back", back); ev_int("bw", bw); ev_end(); free(x); } }
        else if (is("dec")) { size_t n; unsigned char *b = ab(1, &n); long w[300]; int r[300], k = 0; for (size_t o = 0; o < n && k < 299; k++) { zpl_rune c = -1; w[k] = zpl_utf8_decode(b + o, n - o, &c); r[k] = c; if (w[k] < 1) { k++; break; } o += w[k]; } ev("dec"); ev_bytes("s", b, n); ev_arr("w"); for (int i = 0; i < k; i++) ev_item(w[i]); ev_arrend(); ev_arr("r"); for (int i = 0; i < k; i++) ev_item(r[i]); ev_arrend(); ev_end(); free(b); }
        else if (is("text")) { char *s = as(1); long n = strlen(s); zpl_u8 *S = (zpl_u8 *)s; zpl_u16 *u = zpl_utf8_to_ucs2_buf(S); 
            long nu = 0; if (u) while (u[nu]) nu++;
            zpl_u16 *t = malloc(2 * (nu + 1)), *sh = malloc(2 * (nu ? nu : 1)); zpl_u16 *tr = u ? zpl_utf8_to_ucs2(t, nu + 1, S) : 0; int short_ok = u && nu ? zpl_utf8_to_ucs2(sh, nu, S) != 0 : 0;
            zpl_u8 *tb = malloc(n + 1), *tbs = malloc(n ? n : 1); zpl_u8 *tbr = u ? zpl_ucs2_to_utf8(tb, n + 1, u) : 0; int bs = u && n ? zpl_ucs2_to_utf8(tbs, n, u) != 0 : 0;
            ev("text"); ev_str("s", s); if (u) { ev_int("len", zpl_utf8_strlen(S)); ev_int("nlen", zpl_utf8_strnlen(S, n)); } else { ev_int("len", -1); ev_int("nlen", -1); } units("u", u); zpl_u8 *bk = u ? zpl_ucs2_to_utf8_buf(u) : 0; ev_str("back", bk ? (char *)bk : ""); units("tight", tr); ev_bool("short", short_ok); ev_str("tback", tbr ? (char *)tb : "?"); ev_bool("bshort", bs); ev_arr("upto"); for (long k = 0; u && n <= 48 && k <= n; k++) ev_item(zpl_utf8_strnlen(S, k)); ev_arrend(); ev_end(); free(s); free(t); free(sh); free(tb); free(tbs); }
        else if (is("u2u")) { int n = vp_ntok - 1; zpl_u16 *u = malloc(2 * (n + 1)); for (int i = 0; i < n; i++) u[i] = ai(1 + i); u[n] = 0; zpl_u8 *b = zpl_ucs2_to_utf8_buf(u); ev("u2u"); ev_arr("u"); for (int i = 0; i < n; i++) ev_item(u[i]); ev_arrend(); ev_bool("ok", b != 0); zpl_u16 *v = b ? zpl_utf8_to_ucs2_buf(b) : 0; units("out", v); units("exp", u); ev_end(); free(u); }
        else if (is("size")) { size_t n; unsigned char *b = ab(1, &n); ev("size"); ev_bytes("s", b, n); ev_int("n", zpl_utf8_codepoint_size(b, n)); ev_end(); free(b); }
        else vp_bad();
    }
    return 0;
}
