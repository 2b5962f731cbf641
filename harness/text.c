#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static char *fill(size_t n) { char *p = malloc(n ? n : 1); memset(p, 170, n); return p; }
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory);
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } return p; } return 0; }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (vp_seg()) continue;
        if (is("char")) { for (int i = ai(1); i < ai(2); i++) { char c = i; ev("char"); ev_int("c", i); ev_int("lower", (unsigned char)zpl_char_to_lower(c)); ev_int("upper", (unsigned char)zpl_char_to_upper(c)); ev_bool("space", zpl_char_is_space(c)); ev_bool("digit", zpl_char_is_digit(c)); ev_bool("hex", zpl_char_is_hex_digit(c));
            ev_bool("alpha", zpl_char_is_alpha(c)); ev_bool("alnum", zpl_char_is_alphanumeric(c)); ev_int("h2i", zpl_hex_digit_to_int(c)); ev_int("c2h", zpl_char_to_hex_digit(c)); ev_int("d2i", zpl_digit_to_int(c)); ev_bool("ctl", zpl_char_is_control(c)); ev_end(); } continue; }
        char *s = as(1); long n = strlen(s);
        if (is("one")) { char *a = as(1), *b = as(1), *c = as(1); zpl_str_to_lower(a); zpl_str_to_upper(b); char *r = zpl_strrev(c); ev("one"); ev_str("s", s); ev_int("len", zpl_strlen(s)); ev_bytes("lower", a, n); ev_bytes("upper", b, n); ev_bytes("rev", r, n); ev_int("trim0", zpl_str_trim(s, 0) - s); ev_int("trim1", zpl_str_trim(s, 1) - s); ev_end(); free(a); free(b); free(c); }
        else if (is("lines")) { char *a = as(1); char **L = zpl_str_split_lines(al, a, ai(2)); ev("lines"); ev_str("s", s); ev_bool("strip", ai(2)); ev_key("ls"); vp__puts("["); for (int i = 0; i < zpl_array_count(L); i++) { vp__puts(i ? ",[" : "["); for (int k = 0; L[i][k]; k++) { if (k) vp__puts(","); vp__int((unsigned char)L[i][k]); } vp__puts("]"); } vp__puts("]"); ev_end(); zpl_array_free(L); free(a); }
        else if (is("withc")) { char c = ai(2); char const *f = zpl_char_first_occurence(s, c), *g = zpl_char_last_occurence(s, c); ev("withc"); ev_str("s", s); ev_int("c", (unsigned char)c); ev_int("first", f ? f - s : -1); ev_int("last", g ? g - s : -1); ev_int("skip", zpl_str_skip(s, c) - s); ev_int("lit", zpl_str_skip_literal(s, c) - s); ev_int("ctl", zpl_str_control_skip(s, c) - s); ev_end(); }
        else if (is("withn")) { long m = ai(2); char *a = fill(m), *b = fill(m); zpl_strncpy(a, s, m); long lr = zpl_strlcpy(b, s, m); char *u = as(1); char *d = zpl_strdup(al, u, m); ev("withn"); ev_str("s", s); ev_int("n", m); ev_int("nlen", zpl_strnlen(s, m)); ev_bytes("ncpy", a, m); ev_bytes("lcpy", b, m); ev_int("lret", lr); ev_str("dup", d); ev_end(); free(a); free(b); free(u); free(d); }
        else if (is("two")) { char *t = as(2); long m = strlen(t), z = n + m + 1 + ai(3); char *a = fill(z), *b = fill(z), *c = fill(z); zpl_strcpy(a, t); memcpy(b, s, n + 1); zpl_strcat(b, t); zpl_str_concat(c, z, s, n, t, m); ev("two"); ev_str("s", s); ev_str("t", t); ev_int("n", z); ev_int("cmp", sgn(zpl_strcmp(s, t))); ev_bool("pre", zpl_str_has_prefix(s, t)); ev_bool("suf", zpl_str_has_suffix(s, t)); ev_int("any", zpl_str_skip_any(s, t) - s); ev_bytes("cpy", a, z); ev_bytes("cat", b, z); ev_bytes("con", c, z); ev_end(); free(a); free(b); free(c); free(t); }
        else if (is("ncmp")) { char *t = as(2); ev("ncmp"); ev_str("s", s); ev_str("t", t); ev_int("n", ai(3)); ev_int("ret", sgn(zpl_strncmp(s, t, ai(3)))); ev_end(); free(t); }
        else if (is("tok")) { char *d = as(2); char *o = fill(n + 1); char const *x = zpl_strtok(o, s, d); ev("tok"); ev_str("s", s); ev_str("d", d); ev_bytes("out", o, strnlen(o, n) + 1); ev_int("nxt", x - s); ev_end(); free(o); free(d); }
        else if (is("ntok")) { char *d = as(2); long m = ai(3); char *o = fill(m); char const *x = zpl_strntok(o, m, s, d); ev("ntok"); ev_str("s", s); ev_str("d", d); ev_int("n", m); ev_str("out", o); ev_int("nxt", x - s); ev_end(); free(o); free(d); }
        else vp_bad();
        free(s);
    }
    return 0;
}
