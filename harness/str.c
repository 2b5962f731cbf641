#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#define NS 4
static zpl_string S[NS];
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory);
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } return p; } return 0; }
static void drop(int i) { if (S[i]) zpl_string_free(S[i]); S[i] = 0; }
static void obs(int i) { if (!S[i]) { ev_int("len", -1); ev_end(); return; } long n = zpl_string_length(S[i]); ev_int("len", n); ev_int("cap", zpl_string_capacity(S[i])); ev_int("avail", zpl_string_available_space(S[i])); ev_bytes("t", S[i], n); ev_int("nul", S[i][n]); ev_end(); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < NS; i++) drop(i); vp_seg(); continue; }
        int i = ai(1); size_t n; unsigned char *b; char *c;
        if (is("make")) { drop(i); c = as(2); S[i] = zpl_string_make(al, c); ev("make"); ev_int("a", i); ev_str("x", c); obs(i); free(c); continue; }
        if (is("makelen")) { drop(i); b = ab(2, &n); S[i] = zpl_string_make_length(al, n ? b : NULL, n); ev("makelen"); ev_int("a", i); ev_bytes("x", b, n); obs(i); free(b); continue; }
        if (is("makenull")) { drop(i); S[i] = zpl_string_make_length(al, NULL, ai(2)); b = calloc(1, ai(2) + 1); ev("makelen"); ev_int("a", i); ev_bytes("x", b, ai(2)); obs(i); free(b); continue; }
        if (is("reserve")) { drop(i); S[i] = zpl_string_make_reserve(al, ai(2)); ev("reserve"); ev_int("a", i); ev_int("n", ai(2)); obs(i); continue; }
        if (is("join")) { drop(i); char *g = as(2); const char **p = malloc(sizeof(char *) * (vp_ntok + 1)); int k = vp_ntok - 3; for (int j = 0; j < k; j++) p[j] = as(3 + j); S[i] = zpl_string_join(al, p, k, g); ev("join"); ev_int("a", i); ev_str("glue", g); ev_key("parts"); vp__puts("["); for (int j = 0; j < k; j++) { if (j) vp__puts(","); vp__puts("["); for (size_t q = 0; p[j][q]; q++) { if (q) vp__puts(","); vp__int((unsigned char)p[j][q]); } vp__puts("]"); } vp__puts("]"); obs(i); continue; }
        if (is("sprintf")) { drop(i); c = as(2); size_t m = strlen(c) + 40; char *buf = malloc(m), exp[5000]; S[i] = zpl_string_sprintf(al, buf, m, "<%s|%d>", c, (int)ai(3)); snprintf(exp, sizeof exp, "<%s|%d>", c, (int)ai(3)); ev("sprintf"); ev_int("a", i); ev_str("x", exp); obs(i); free(buf); free(c); continue; }
        if (is("sprintfbuf")) { drop(i); c = as(2); char exp[5000]; S[i] = zpl_string_sprintf_buf(al, "%s-%d", c, (int)ai(3)); snprintf(exp, sizeof exp, "%s-%d", c, (int)ai(3)); ev("sprintfbuf"); ev_int("a", i); ev_str("x", exp); obs(i); free(c); continue; }
        if (!S[i]) continue;
        if (is("dup")) { int j = ai(2); if (j == i) continue; drop(j); S[j] = zpl_string_duplicate(al, S[i]); ev("dup"); ev_int("a", j); ev_int("from", i); obs(j); }
        else if (is("appendc")) { c = as(2); S[i] = zpl_string_appendc(S[i], c); ev("appendc"); ev_int("a", i); ev_str("x", c); obs(i); free(c); }
        else if (is("appendlen")) { b = ab(2, &n); S[i] = zpl_string_append_length(S[i], b, n); ev("appendlen"); ev_int("a", i); ev_bytes("x", b, n); obs(i); free(b); }
        else if (is("appendself")) { zpl_string o = zpl_string_duplicate(al, S[i]); S[i] = zpl_string_append(S[i], o); ev("appendlen"); ev_int("a", i); ev_bytes("x", o, zpl_string_length(o)); obs(i); zpl_string_free(o); }
        else if (is("append")) { int j = ai(2); if (j == i || !S[j]) continue; S[i] = zpl_string_append(S[i], S[j]); ev("append"); ev_int("a", i); ev_int("from", j); obs(i); }
        else if (is("appendfmt")) { c = as(2); char exp[5000]; S[i] = zpl_string_append_fmt(S[i], "%s:%d", c, (int)ai(3)); snprintf(exp, sizeof exp, "%s:%d", c, (int)ai(3)); ev("appendfmt"); ev_int("a", i); ev_str("x", exp); obs(i); free(c); }
        else if (is("rune")) { S[i] = zpl_string_append_rune(S[i], ai(2)); ev("rune"); ev_int("a", i); ev_int("r", ai(2)); obs(i); }
        else if (is("set")) { c = as(2); S[i] = zpl_string_set(S[i], c); ev("set"); ev_int("a", i); ev_str("x", c); obs(i); free(c); }
        else if (is("clear")) { zpl_string_clear(S[i]); ev("clear"); ev_int("a", i); obs(i); }
        else if (is("trim")) { c = as(2); S[i] = zpl_string_trim(S[i], c); ev("trim"); ev_int("a", i); ev_str("x", c); obs(i); free(c); }
        else if (is("trimspace")) { S[i] = zpl_string_trim_space(S[i]); ev("trimspace"); ev_int("a", i); obs(i); }
        else if (is("space")) { S[i] = zpl_string_make_space_for(S[i], ai(2)); ev("space"); ev_int("a", i); ev_int("n", ai(2)); obs(i); }
        else if (is("equal")) { int j = ai(2); if (!S[j]) continue; int r = zpl_string_are_equal(S[i], S[j]); ev("equal"); ev_int("a", i); ev_int("from", j); ev_bool("ret", r); ev_end(); }
        else vp_bad();
    }
    return 0;
}
