/* every operation with a chosen allocation refused: the allocator given to it and the heap count blocks and refuse requests on demand */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
static long live, asked, den, arm = -1; static int all, inlib, heapon = 1;
static int refuse(void) { asked++; if (arm < 0) return 0; if (all ? asked > arm : asked == arm + 1) { den++; return 1; } return 0; }
/* the heap, as the library sees it: blocks it got from here are remembered */
static void *hb[65536]; static int nhb;
static void *got(void *p, size_t n) { if (p) { if (nhb == 65536) exit(3); hb[nhb++] = p; live++; memset(p, 0x3C, n); } return p; }
static int mine(void *p) { for (int i = nhb - 1; i >= 0; i--) if (hb[i] == p) { hb[i] = hb[--nhb]; live--; return 1; } return 0; }
static int off(void) { return !inlib || !heapon; }
static void *vp_malloc(size_t n) { if (off()) return malloc(n); return refuse() ? 0 : got(malloc(n), n); }
static void *vp_calloc(size_t a, size_t b) { if (off()) return calloc(a, b); void *p = refuse() ? 0 : got(malloc(a * b), a * b); if (p) memset(p, 0, a * b); return p; }
static void *vp_aligned_alloc(size_t a, size_t n) { if (off()) return aligned_alloc(a, n); return refuse() ? 0 : n > (1ul << 40) ? (den++, (void *)0) : got(aligned_alloc(a, n), n); }
static int vp_posix_memalign(void **p, size_t a, size_t n) { if (off()) return posix_memalign(p, a, n); if (refuse()) return 12; if (posix_memalign(p, a, n)) return 12; got(*p, n); return 0; }
static void *vp_realloc(void *o, size_t n) { if (off()) return realloc(o, n); if (refuse()) return 0; if (o) mine(o); void *p = realloc(o, n); if (p) { hb[nhb++] = p; live++; } return p; }
static void vp_free(void *p) { if (p) mine(p); free(p); }
#define malloc(n) vp_malloc(n)
#define calloc(a, b) vp_calloc(a, b)
#define realloc(p, n) vp_realloc(p, n)
#define aligned_alloc(a, n) vp_aligned_alloc(a, n)
#define posix_memalign(p, a, n) vp_posix_memalign(p, a, n)
#define free(p) vp_free(p)
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#undef malloc
#undef calloc
#undef realloc
#undef aligned_alloc
#undef posix_memalign
#undef free
#include "vp.h"
/* the allocator given to operations; each block knows its size */
static size_t bsize(void *p) { return p ? *(size_t *)((char *)p - 16) : 0; }
static void *take(size_t n) { if (refuse()) return 0; char *p = malloc(n + 16); *(size_t *)p = n; memset(p + 16, 0x3C, n); live++; return p + 16; }
static void give(void *p) { if (p) { live--; free((char *)p - 16); } }
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment;
    if (type == ZPL_ALLOCATION_ALLOC) { void *p = take(size); if (p && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) memset(p, 0, size); return p; }
    if (type == ZPL_ALLOCATION_FREE) { give(old_memory); return 0; }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = take(size); if (p && old_memory) { size_t o = bsize(old_memory); memcpy(p, old_memory, o < size ? o : size); give(old_memory); } return p; } return 0; }
static zpl_allocator al = { strict, 0 };
#define N 6
enum { NONE, ARR, STR, STM, TREE }; static int K[N]; static int *A[N]; static zpl_string S[N]; static zpl_file F[N]; static zpl_adt_node T[N];
static char *names[100];
static int num(const char *n) { return n ? atoi(n + 1) : -1; }
static void ints(const int *a, long n) { vp__puts("["); for (long i = 0; i < n; i++) { if (i) vp__puts(","); vp__int(a[i]); } vp__puts("]"); }
static void bytes(const void *p, long n) { vp__puts("["); for (long i = 0; i < n; i++) { if (i) vp__puts(","); vp__int(((unsigned char *)p)[i]); } vp__puts("]"); }
static int good;
static void dumpt(zpl_adt_node *x, zpl_adt_node *par) {
    const char *k = x->type == ZPL_ADT_TYPE_OBJECT ? "obj" : x->type == ZPL_ADT_TYPE_ARRAY ? "arr" : x->type == ZPL_ADT_TYPE_STRING ? "str" : x->type == ZPL_ADT_TYPE_INTEGER ? "int" : x->type == ZPL_ADT_TYPE_REAL ? "flt" : "nil";
    int b = k[0] == 'o' || k[0] == 'a'; if (x->parent != par) good = 0;
    vp__puts("{\"t\":\""); vp__puts(k); vp__puts("\",\"n\":"); vp__int(num(x->name)); vp__puts(",\"x\":"); vp__int(k[0] == 's' ? num(x->string) : k[0] == 'i' ? x->integer : k[0] == 'f' ? (long)x->real : 0); vp__puts(",\"c\":[");
    if (b) { if (!x->nodes || zpl_array_count(x->nodes) > zpl_array_capacity(x->nodes) || bsize(ZPL_ARRAY_HEADER(x->nodes)) < sizeof(zpl_array_header) + zpl_array_capacity(x->nodes) * sizeof(zpl_adt_node)) good = 0;
        for (long i = 0; x->nodes && i < zpl_array_count(x->nodes); i++) { if (i) vp__puts(","); dumpt(x->nodes + i, x); } }
    vp__puts("]}"); }
static void world(void) { ev_key("o"); vp__puts("[");
    for (int i = 0; i < N; i++) { if (i) vp__puts(","); static const char *kn[] = { "none", "arr", "str", "stm", "tree" }; good = 1; long c = 0; size_t at = vp_len;
        vp__puts("\"v\":"); const char *nil = "{\"t\":\"nil\",\"n\":-1,\"x\":0,\"c\":[]}";
        if (K[i] == ARR) { zpl_array_header *h = ZPL_ARRAY_HEADER(A[i]); good = h->count <= h->capacity && bsize(h) >= sizeof *h + h->capacity * sizeof(int) && h->elem_size == sizeof(int); ints(A[i], h->count); }
        else if (K[i] == STR) { long n = zpl_string_length(S[i]); good = n <= zpl_string_capacity(S[i]) && bsize(ZPL_STRING_HEADER(S[i])) >= sizeof(zpl_string_header) + zpl_string_capacity(S[i]) + 1 && S[i][n] == 0; bytes(S[i], n); }
        else if (K[i] == STM) { zpl_isize n; zpl_u8 *b = zpl_file_stream_buf(&F[i], &n); zpl_array_header *h = ZPL_ARRAY_HEADER(b); good = n <= h->capacity && bsize(h) >= sizeof *h + h->capacity; bytes(b, n); c = zpl_file_tell(&F[i]); }
        else vp__puts("[]");
        vp__puts(",\"c\":"); vp__int(c); vp__puts(",\"t\":"); if (K[i] == TREE) dumpt(&T[i], 0); else vp__puts(nil);
        char *tail = strdup(vp_buf + at); vp_len = at; vp__puts("{\"k\":\""); vp__puts(good ? kn[K[i]] : "bad"); vp__puts("\","); vp__puts(tail); vp__puts("}"); free(tail); }
    vp__puts("]"); }
/* arguments: bytes xHEX, a list of them xHEX,xHEX, paths 0.1.2 or - */
static int P[32], nP, Q[32], nQ;
static int path(int k, int *p) { int n = 0; if (k >= vp_ntok) exit(3); if (!strcmp(vp_tok[k], "-")) return 0; for (char *s = vp_tok[k]; ; s++) { p[n++] = strtol(s, &s, 10); if (*s != '.') break; } return n; }
static zpl_adt_node *at(int i, int *p, int n) { zpl_adt_node *x = &T[i]; for (int k = 0; k < n; k++) x = x->nodes + p[k]; return x; }
static int okk; static int kindof(const char *s) { return s[0]; }
static void *L; /* result of an operation that makes an object */
static int step(void) { /* one run of the operation of this line; 1 for success */
    const char *o = vp_tok[0]; int i = ai(1), j = 0, x = 0, pos = 0, n = -1; const char *kind = ""; size_t dn = 0; unsigned char *d = 0; char *parts[16] = { 0 }; size_t pn[16]; int np = 0; nP = nQ = 0;
    long old = 0; int ok = 0, v[64], nv = 0; if (i < 0 || i >= N) exit(3);
    if (K[i] == ARR) old = zpl_array_count(A[i]);
#define OP(s) (!strcmp(o, s))
#define LIB(e) do { inlib = 1; e; inlib = 0; } while (0)
#define MAKES(k) do { if (K[i] != NONE) { fprintf(stderr, "taken\n"); exit(3); } okk = k; } while (0)
#define HAS(k) do { if (K[i] != k) { fprintf(stderr, "not there: %s\n", o); exit(3); } okk = k; } while (0)
    asked = den = 0;
    if (OP("arr.new")) { MAKES(ARR); int *a = 0; LIB(ok = zpl_array_init(a, al)); if (ok) A[i] = a; }
    else if (OP("arr.newcap")) { MAKES(ARR); x = ai(2); int *a = 0; LIB(ok = zpl_array_init_reserve(a, al, x)); if (ok) A[i] = a; }
    else if (OP("arr.append")) { HAS(ARR); x = ai(2); LIB(ok = zpl_array_append(A[i], x)); }
    else if (OP("arr.appendat")) { HAS(ARR); x = ai(2); pos = ai(3); LIB(ok = zpl_array_append_at(A[i], x, pos)); }
    else if (OP("arr.appendv")) { HAS(ARR); for (int k = 2; k < vp_ntok; k++) v[nv++] = ai(k); LIB(ok = zpl_array_appendv(A[i], v, nv)); }
    else if (OP("arr.appendvat")) { HAS(ARR); pos = ai(2); for (int k = 3; k < vp_ntok; k++) v[nv++] = ai(k); LIB(ok = zpl_array_appendv_at(A[i], v, nv, pos)); }
    else if (OP("arr.cap")) { HAS(ARR); x = ai(2); LIB(ok = zpl_array_set_capacity(A[i], x)); if (ok && zpl_array_capacity(A[i]) != x) ok = 2; }
    else if (OP("arr.grow")) { HAS(ARR); x = ai(2); LIB(ok = zpl_array_grow(A[i], x)); if (ok && zpl_array_capacity(A[i]) < x) ok = 2; }
    else if (OP("arr.reserve")) { HAS(ARR); x = ai(2); LIB(ok = zpl_array_reserve(A[i], x)); if (ok && zpl_array_capacity(A[i]) < x) ok = 2; }
    else if (OP("arr.resize")) { HAS(ARR); x = ai(2); LIB(ok = zpl_array_resize(A[i], x)); if (ok) for (long k = old; k < x && k < zpl_array_count(A[i]); k++) A[i][k] = 0; }
    else if (OP("arr.copy")) { MAKES(ARR); j = ai(2); int *a = 0; LIB(ok = zpl_array_copy_init(a, A[j])); if (ok) A[i] = a; }
    else if (OP("str.new")) { MAKES(STR); char *c = as(2); dn = strlen(c); d = (void *)c; zpl_string s; LIB(s = zpl_string_make(al, c)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.len")) { MAKES(STR); d = ab(2, &dn); zpl_string s; LIB(s = zpl_string_make_length(al, d, dn)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.printf")) { MAKES(STR); char *c = as(2), b[400]; dn = strlen(c); d = (void *)c; zpl_string s; LIB(s = ai(3) ? zpl_string_sprintf_buf(al, "%s", c) : zpl_string_sprintf(al, b, sizeof b, "%s", c)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.reserve")) { MAKES(STR); x = ai(2); zpl_string s; LIB(s = zpl_string_make_reserve(al, x)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.dup")) { MAKES(STR); j = ai(2); zpl_string s; LIB(s = zpl_string_duplicate(al, S[j])); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.join")) { MAKES(STR); d = ab(2, &dn); char *g = strndup((char *)d, dn); for (int k = 3; k < vp_ntok; k++) { parts[np] = as(k); pn[np] = strlen(parts[np]); np++; } zpl_string s; LIB(s = zpl_string_join(al, (const char **)parts, np, g)); free(g); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.append") || OP("str.appendc") || OP("str.fmt") || OP("str.set")) { HAS(STR); char *c = as(2); dn = strlen(c); d = (void *)c; zpl_string s;
        LIB(s = OP("str.append") ? zpl_string_append_length(S[i], c, dn) : OP("str.appendc") ? zpl_string_appendc(S[i], c) : OP("str.fmt") ? zpl_string_append_fmt(S[i], "%s", c) : zpl_string_set(S[i], c)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.rune")) { HAS(STR); d = ab(2, &dn); zpl_rune r; zpl_utf8_decode(d, dn, &r); zpl_string s; LIB(s = zpl_string_append_rune(S[i], r)); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.add")) { HAS(STR); j = ai(2); zpl_string s; LIB(s = zpl_string_append(S[i], S[j])); ok = s != 0; if (ok) S[i] = s; }
    else if (OP("str.space")) { HAS(STR); x = ai(2); zpl_string s; LIB(s = zpl_string_make_space_for(S[i], x)); ok = s != 0; if (ok) { S[i] = s; if (zpl_string_available_space(s) < x) ok = 2; } }
    else if (OP("stm.new")) { MAKES(STM); zpl_file f; LIB(ok = zpl_file_stream_new(&f, al)); if (ok) F[i] = f; }
    else if (OP("stm.open")) { MAKES(STM); d = ab(2, &dn); zpl_file f; LIB(ok = zpl_file_stream_open(&f, al, d, dn, ZPL_FILE_STREAM_CLONE_WRITABLE)); if (ok) F[i] = f; }
    else if (OP("stm.write")) { HAS(STM); d = ab(2, &dn); LIB(ok = zpl_file_write(&F[i], d, dn)); }
    else if (OP("stm.print")) { HAS(STM); char *c = as(2); dn = strlen(c); d = (void *)c; LIB(ok = zpl_fprintf(&F[i], "%s", c) >= 0); }
    else if (OP("stm.writeat")) { HAS(STM); pos = ai(2); d = ab(3, &dn); zpl_isize w = 0; LIB(ok = zpl_file_write_at_check(&F[i], d, dn, pos, &w)); if (ok && w != dn) ok = 2; }
    else if (OP("stm.seek")) { HAS(STM); pos = ai(2); zpl_file_seek(&F[i], pos); ok = 1; }
    else if (OP("tree.new")) { MAKES(TREE); kind = vp_tok[2]; n = ai(3); memset(&T[i], 0, sizeof T[i]); LIB(ok = !(kind[0] == 'o' ? zpl_adt_set_obj(&T[i], names[n], al) : zpl_adt_set_arr(&T[i], names[n], al))); }
    else if (OP("tree.app")) { HAS(TREE); nP = path(2, P); kind = vp_tok[3]; n = ai(4); x = ai(5); zpl_adt_node *u = at(i, P, nP), *r = 0;
        LIB(r = kind[0] == 'o' ? zpl_adt_append_obj(u, names[n]) : kind[0] == 'a' ? zpl_adt_append_arr(u, names[n]) : kind[0] == 's' ? zpl_adt_append_str(u, names[n], names[x]) : kind[0] == 'i' ? zpl_adt_append_int(u, names[n], x) : zpl_adt_append_flt(u, names[n], x)); ok = r != 0; }
    else if (OP("tree.at")) { HAS(TREE); nP = path(2, P); pos = ai(3); zpl_adt_node *u = at(i, P, nP), *r = 0; LIB(r = pos == zpl_array_count(u->nodes) && ai(4) ? zpl_adt_alloc(u) : zpl_adt_alloc_at(u, pos)); ok = r != 0; }
    else if (OP("tree.set")) { HAS(TREE); nP = path(2, P); kind = vp_tok[3]; n = ai(4); x = ai(5); zpl_adt_node *u = at(i, P, nP); 
        LIB(ok = kind[0] == 'o' ? !zpl_adt_set_obj(u, names[n], al) : kind[0] == 'a' ? !zpl_adt_set_arr(u, names[n], al) : kind[0] == 's' ? zpl_adt_set_str(u, names[n], names[x]) : kind[0] == 'i' ? zpl_adt_set_int(u, names[n], x) : zpl_adt_set_flt(u, names[n], x)); }
    else if (OP("tree.move")) { HAS(TREE); nP = path(2, P); nQ = path(3, Q); pos = ai(4); zpl_adt_node *r, *u = at(i, P, nP), *q = at(i, Q, nQ); LIB(r = zpl_adt_move_node_at(u, q, pos)); ok = r != 0; }
    else if (OP("tree.remove")) { HAS(TREE); nP = path(2, P); zpl_adt_node *u = at(i, P, nP); LIB((zpl_adt_destroy_branch(u), zpl_adt_remove_node(u))); ok = 1; }
    else if (OP("free")) { LIB({ if (K[i] == ARR) zpl_array_free(A[i]); if (K[i] == STR) zpl_string_free(S[i]); if (K[i] == STM) zpl_file_close(&F[i]); if (K[i] == TREE) zpl_adt_destroy_branch(&T[i]); }); okk = NONE; ok = 1; }
    else vp_bad();
    if (ok) K[i] = okk;
    ev(ok == 2 ? "stop" : o); ev_int("i", i); ev_int("j", j); ev_int("x", x); ev_int("at", pos); ev_int("n", n); ev_key("d"); if (nv) ints(v, nv); else bytes(d, dn); ev_key("ps"); vp__puts("["); for (int k = 0; k < np; k++) { if (k) vp__puts(","); bytes(parts[k], pn[k]); } vp__puts("]");
    ev_key("p"); ints(P, nP); ev_key("q"); ints(Q, nQ); ev_name("kind", kind[0] == 'o' ? "obj" : kind[0] == 'a' ? "arr" : kind[0] == 's' ? "str" : kind[0] == 'i' ? "int" : kind[0] == 'f' ? "flt" : ""); ev_bool("ok", ok); ev_int("den", den); ev_int("asked", asked); world(); ev_int("live", live); ev_end();
    free(d); for (int k = 0; k < np; k++) free(parts[k]);
    return ok; }
/* calls that keep nothing */
static char *R; static size_t rn, rc; static int doc;
static void add(const void *p, size_t n) { if (rn + n + 1 > rc) R = realloc(R, rc = (rn + n + 1) * 2); memcpy(R + rn, p, n); rn += n; R[rn] = 0; }
static void adds(const char *s) { add(s, strlen(s) + 1); }
static void addt(zpl_adt_node *x) { char b[200]; snprintf(b, sizeof b, "(%d %d %s:", x->type, x->props, x->name ? x->name : "-"); adds(b); if (x->type == ZPL_ADT_TYPE_STRING || x->type == ZPL_ADT_TYPE_MULTISTRING) adds(x->string); else if (x->type == ZPL_ADT_TYPE_INTEGER) { snprintf(b, sizeof b, "%lld", (long long)x->integer); adds(b); } else if (x->type == ZPL_ADT_TYPE_REAL) { snprintf(b, sizeof b, "%a", x->real); adds(b); }
    else if (x->type == ZPL_ADT_TYPE_OBJECT || x->type == ZPL_ADT_TYPE_ARRAY) for (long i = 0; i < zpl_array_count(x->nodes); i++) addt(x->nodes + i); adds(")"); }
static int fds(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static long quiet(long k) { long a = arm; arm = k; return a; }
static int whole(void) {
    const char *f = vp_tok[1]; rn = 0; doc = 1; heapon = 1; int ok = 0; char *t = 0; size_t tn = 0; zpl_adt_node r; memset(&r, 0, sizeof r);
    int isdoc = !strncmp(f, "json", 4) ? 1 : !strncmp(f, "csv", 3) ? 2 : !strncmp(f, "uri", 3) ? 3 : 0; int w = f[strlen(f) - 1] == 'w';
#define FN(s) (!strcmp(f, s))
    asked = den = 0;
    if (isdoc && !FN("uriinit")) { t = as(2); int e; long a = 0; if (w) a = quiet(-1);
        LIB(e = isdoc == 1 ? zpl_json_parse(&r, t, al) : isdoc == 2 ? zpl_csv_parse_delimiter(&r, t, al, ai(3), vp_tok[4][0]) : zpl_uri_parse(&r, t, al));
        if (w) { if (e) { fprintf(stderr, "bad document\n"); exit(3); } asked = den = 0; arm = a; zpl_string s; LIB(s = isdoc == 1 ? zpl_json_write_string(al, &r, ai(3)) : isdoc == 2 ? zpl_csv_write_string_delimiter(al, &r, vp_tok[4][0]) : zpl_uri_write_string(al, &r)); ok = s != 0; if (s) { add(s, zpl_string_length(s)); zpl_string_free(s); } }
        else { ok = e == 0; if (ok) addt(&r); else if (isdoc == 1) doc = e == ZPL_JSON_ERROR_OUT_OF_MEMORY; }
        zpl_adt_destroy_branch(&r); }
    else if (FN("uriinit")) { int e; t = as(2); LIB(e = zpl_uri_init(&r, t, al)); ok = !e; if (ok) addt(&r); zpl_adt_destroy_branch(&r); }
    else if (FN("query")) { t = as(2); char *u = as(3); long a = quiet(-1); int e; LIB(e = zpl_json_parse(&r, t, al)); if (e) exit(3); asked = den = 0; arm = a; zpl_adt_node *x; LIB(x = zpl_adt_query(&r, u)); ok = x != 0; if (x) addt(x); zpl_adt_destroy_branch(&r); free(u); }
    else if (FN("rcont")) { zpl_file_contents c; LIB(c = zpl_file_read_contents(al, ai(3), vp_tok[2])); ok = c.data != 0; if (ok) { add(c.data, c.size + !!ai(3)); LIB(zpl_file_free_contents(&c)); } else doc = c.size == 0; }
    else if (FN("lines")) { char **ls = 0, *c; heapon = 0; LIB(c = zpl_file_read_lines(al, &ls, vp_tok[2], ai(3))); ok = c != 0; if (ok) { for (long i = 0; i < zpl_array_count(ls); i++) adds(ls[i]); zpl_array_free(ls); zpl_free(al, c); } else doc = ls == 0; }
    else if (FN("open")) { zpl_file g; memset(&g, 0, sizeof g); LIB(ok = zpl_file_open_mode(&g, ai(3) ? ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW : ZPL_FILE_MODE_READ, vp_tok[2]) == ZPL_FILE_ERROR_NONE); if (ok) { adds(zpl_file_name(&g)); LIB(zpl_file_close(&g)); } }
    else if (FN("full")) { char *c; LIB(c = zpl_path_get_full_name(al, vp_tok[2])); ok = c != 0; if (ok) { adds(c); zpl_free(al, c); } }
    else if (FN("list")) { zpl_string s; LIB(s = zpl_path_dirlist(al, vp_tok[2], ai(3))); ok = s != 0; if (ok) { add(s, zpl_string_length(s)); zpl_string_free(s); } }
    else if (FN("tar")) { zpl_file g; long a = quiet(-1); zpl_file_stream_new(&g, al); asked = den = 0; arm = a; LIB(ok = zpl_tar_pack_dir(&g, vp_tok[2], al) >= 0); if (ok) { zpl_isize n; zpl_u8 *b = zpl_file_stream_buf(&g, &n); add(b, n); } zpl_file_close(&g); }
    else if (FN("split")) { t = as(2); char **ls; LIB(ls = zpl_str_split_lines(al, t, ai(3))); ok = ls != 0; if (ok) { for (long i = 0; i < zpl_array_count(ls); i++) adds(ls[i]); zpl_array_free(ls); } }
    else if (FN("strdup")) { t = as(2); char *c; LIB(c = zpl_strdup(al, t, strlen(t))); ok = c != 0; if (ok) { adds(c); zpl_free(al, c); } }
    else if (FN("allocstr")) { t = as(2); char *c; LIB(c = ai(3) ? zpl_alloc_str_len(al, t, strlen(t)) : zpl_alloc_str(al, t)); ok = c != 0; if (ok) { adds(c); zpl_free(al, c); } }
    else if (FN("asprintf")) { t = as(2); char *c = 0; int e; LIB(e = zpl_asprintf(al, &c, "%s", t)); ok = c != 0; if (ok) { adds(c); zpl_free(al, c); } }
    else if (FN("b64e") || FN("b64d")) { t = (char *)ab(2, &tn); zpl_u8 *c; LIB(c = f[3] == 'e' ? zpl_base64_encode(al, t, tn) : zpl_base64_decode(al, t, tn)); ok = c != 0; if (ok) { adds((char *)c); zpl_free(al, c); } }
    else if (FN("re")) { t = as(2); zpl_re re; zpl_regex_error e; LIB(e = zpl_re_compile(&re, al, t, strlen(t))); ok = e == ZPL_RE_ERROR_NONE; if (ok) { char b[20]; snprintf(b, 20, "%d", (int)zpl_re_capture_count(&re)); adds(b); add(re.buf, re.buf_len); zpl_re_destroy(&re); } }
    else if (FN("heap")) { size_t n = au(2); char *c; LIB(c = ai(3) == 2 ? zpl_malloc(n) : zpl_alloc(zpl_heap(), n)); ok = c != 0; if (ok) { if (ai(3) == 1) for (size_t k = 0; k < n; k++) doc &= c[k] == 0; LIB(zpl_mfree(c)); } }
    else if (FN("regrow")) { char *c, *c2; long a = quiet(-1); LIB(c = zpl_malloc(ai(2))); memset(c, 'x', ai(2)); asked = den = 0; arm = a; LIB(c2 = zpl_resize(zpl_heap(), c, ai(2), ai(3))); ok = c2 != 0; if (!ok) { for (int k = 0; k < ai(2); k++) doc &= c[k] == 'x'; } else add(c2, ai(2) < ai(3) ? ai(2) : ai(3)); LIB(zpl_mfree(ok ? c2 : c)); }
    else vp_bad();
    free(t); heapon = 1; return ok; }
static void wholes(void) { /* whole F ARGS: once with memory enough, then with every request refused, alone and with all that follow */
    arm = -1; long l0 = live; int f0 = fds(); int rok = whole(); char *ref = malloc(rn + 1); size_t refn = rn; if (rn) memcpy(ref, R, rn); long n = asked;
    ev("whole"); ev_name("f", vp_tok[1]); ev_int("k", -1); ev_bool("ok", rok); ev_bool("refok", rok); ev_bool("same", 1); ev_bool("doc", doc); ev_int("den", den); ev_int("left", live - l0 + fds() - f0); ev_end(); l0 = live; f0 = fds();
    long most = getenv("VP_MOST") ? atol(getenv("VP_MOST")) : 40;
    for (all = 0; all < 2; all++) for (long q = 0; q < n && q < most; q++) { long k = n <= most ? q : q < most / 2 ? q : q * (n - 1) / (most - 1); arm = k; int ok = whole(); arm = -1;
        ev("whole"); ev_name("f", vp_tok[1]); ev_int("k", k); ev_bool("ok", ok); ev_bool("refok", rok); ev_bool("same", !ok || (rn == refn && !memcmp(R, ref, rn))); ev_bool("doc", doc); ev_int("den", den); ev_int("left", live - l0 + fds() - f0); ev_end(); l0 = live; f0 = fds(); }
    all = 0; free(ref); }
int main(int argc, char **argv) {
    vp_open(argc, argv); long k1 = -1; int m1 = 0; R = malloc(rc = 64); R[0] = 0;
    for (int i = 0; i < 100; i++) { names[i] = malloc(8); snprintf(names[i], 8, "n%d", i); }
    while (vp_next()) {
        if (is("seg")) { if (k1 != -1) exit(3); for (int i = 0; i < N; i++) K[i] = NONE; live = 0; nhb = 0; vp_seg(); }
        else if (is("fault")) { k1 = ai(1); m1 = ai(2); }   /* fault K ALL: for the next operation; K = -2: every K in turn until it succeeds */
        else if (is("file")) { size_t n; unsigned char *b = ab(2, &n); if (strstr(vp_tok[1], "..") || vp_tok[1][0] == '/') exit(3); int fd = open(vp_tok[1], O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(fd, b, n) != n) exit(3); close(fd); free(b); }
        else if (is("dir")) { if (strstr(vp_tok[1], "..") || vp_tok[1][0] == '/') exit(3); mkdir(vp_tok[1], 0700); }
        else if (is("whole")) wholes();
        else if (is("done")) { for (int i = 0; i < N; i++) { inlib = 1; if (K[i] == ARR) zpl_array_free(A[i]); if (K[i] == STR) zpl_string_free(S[i]); if (K[i] == STM) zpl_file_close(&F[i]); if (K[i] == TREE) zpl_adt_destroy_branch(&T[i]); inlib = 0; K[i] = NONE; } ev("done"); ev_int("live", live); ev_end(); live = 0; }
        else if (k1 == -2) { all = m1; for (long k = 0; k < 200; k++) { arm = k; int ok = step(); arm = -1; if (ok) break; } all = 0; k1 = -1; }
        else { arm = k1; all = m1; step(); arm = k1 = -1; all = 0; }
    }
    return 0;
}
