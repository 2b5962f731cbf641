/* shared by the parser harnesses: an allocator that counts (and can fail), texts that live as long as the document, a document as JSON */
#include <inttypes.h>
static long live, left = -1, resizes;   /* left: allocations that still succeed, -1 for all */
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type != ZPL_ALLOCATION_FREE && left >= 0 && left-- == 0) { left = 0; return 0; }
    if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) live--; free(old_memory); }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } else live++; return p; } return 0; }
static char *pool[4096]; static int npool; static int links;
static char *keep(char *s) { if (npool == 4096) exit(3); return pool[npool++] = s; }
static char *text(int k) { if (!strcmp(vp_tok[k], "-")) return 0; size_t n; unsigned char *b = ab(k, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return keep(s); }
static int isc(zpl_adt_node *n) { return n->type == ZPL_ADT_TYPE_OBJECT || n->type == ZPL_ADT_TYPE_ARRAY; }
static void str(const char *s) { if (!s) { vp__puts("[-1]"); return; } vp__puts("["); for (size_t i = 0; s[i]; i++) { if (i) vp__puts(","); vp__int((unsigned char)s[i]); } vp__puts("]"); }
static void dump(zpl_adt_node *x, zpl_adt_node *par) {
    static const char *sp[] = { "real", "nan", "nnan", "inf", "ninf", "false", "true", "null", "real", "real", "real" };
    const char *k = "bad", *s = ""; char b[64], h[32]; long m = 0; int e = 0, neg = 0; b[0] = h[0] = 0;
    switch (x->type) { case ZPL_ADT_TYPE_OBJECT: k = "obj"; break; case ZPL_ADT_TYPE_ARRAY: k = "arr"; break; case ZPL_ADT_TYPE_STRING: k = "str"; s = x->string; break; case ZPL_ADT_TYPE_MULTISTRING: k = "mstr"; s = x->string; break;
        case ZPL_ADT_TYPE_INTEGER: k = "int"; snprintf(b, sizeof b, "%" PRId64, (int64_t)x->integer); neg = b[0] == '-'; s = b + neg; snprintf(h, sizeof h, "%" PRIx64, (uint64_t)x->integer); break;
        case ZPL_ADT_TYPE_REAL: k = x->props <= 10 ? sp[x->props] : "bad"; if (!strcmp(k, "real")) { if (x->real != x->real || x->real > 1.7e308 || x->real < -1.7e308) k = "bad"; else { snprintf(b, sizeof b, "%.8e", x->real); neg = b[0] == '-'; char *q = b + neg; m = *q - '0'; for (q += 2; *q != 'e'; q++) m = m * 10 + (*q - '0'); e = atoi(q + 1); if (!m) neg = e = 0; } }
            else if (!strcmp(k, "inf") ? x->real != ZPL_INFINITY : !strcmp(k, "ninf") ? x->real != -ZPL_INFINITY : !strcmp(k, "true") ? x->real != 1 : k[strlen(k) - 1] == 'n' ? x->real == x->real : x->real != 0) k = "bad";
            break; }
    vp__puts("{\"k\":\""); vp__puts(k); vp__puts("\",\"n\":"); str(x->name); vp__puts(",\"s\":"); str(s); vp__puts(",\"h\":"); str(h); vp__puts(",\"neg\":"); vp__puts(neg ? "true" : "false"); vp__puts(",\"m\":"); vp__int(m); vp__puts(",\"e\":"); vp__int(e);
    if (x->parent != par) links = 0;
    vp__puts(",\"c\":["); if (isc(x)) for (long i = 0; i < zpl_array_count(x->nodes); i++) { if (i) vp__puts(","); dump(x->nodes + i, x); } vp__puts("]}");
}

/* writing straight to a file: onto the disk behind what is already there, and into a file of our own one of whose writes fails */
static struct { char *b; long cap, n, pos, calls, fail; int failed; } snk;
static ZPL_FILE_READ_AT_PROC(snk_read) { (void)fd; (void)buffer; (void)size; (void)offset; (void)stop_at_newline; if (bytes_read) *bytes_read = 0; return 0; }
static ZPL_FILE_WRITE_AT_PROC(snk_write) { (void)fd; if (bytes_written) *bytes_written = 0; if (snk.calls++ == snk.fail) { snk.failed = 1; return 0; }
    if (offset < 0 || offset + size > snk.cap) { snk.failed = 2; return 0; } memcpy(snk.b + offset, buffer, size); if (offset + size > snk.n) snk.n = offset + size; if (bytes_written) *bytes_written = size; return 1; }
static ZPL_FILE_SEEK_PROC(snk_seek) { (void)fd; snk.pos = (whence == ZPL_SEEK_WHENCE_BEGIN ? 0 : whence == ZPL_SEEK_WHENCE_CURRENT ? snk.pos : snk.n) + offset; if (new_offset) *new_offset = snk.pos; return 1; }
static ZPL_FILE_CLOSE_PROC(snk_close) { (void)fd; }
typedef zpl_b8 tofile(zpl_file *f, zpl_adt_node *x, long arg);
static int snk_run(tofile *w, zpl_adt_node *x, long arg, long fail) {
    zpl_file f; memset(&f, 0, sizeof f); zpl_file_operations ops = { snk_read, snk_write, snk_seek, snk_close }; zpl_file_descriptor fd = {0}; snk.n = snk.pos = snk.calls = snk.failed = 0; snk.fail = fail;
    if (zpl_file_new(&f, fd, ops, "sink")) exit(3); int ok = w(&f, x, arg); zpl_file_close(&f); return ok; }
static void ev_files(tofile *w, zpl_adt_node *x, long arg, const char *t) {
    long n = strlen(t), lost = 0; char *m = malloc(n + 64); zpl_file f; unlink("w.tmp"); if (zpl_file_create(&f, "w.tmp") || !zpl_file_write(&f, "PRE", 3)) exit(3);
    int ok = w(&f, x, arg); zpl_file_close(&f); int fd = open("w.tmp", O_RDONLY); long got = read(fd, m, n + 64); close(fd); unlink("w.tmp");
    ev_bool("disk", ok && got == n + 3 && !memcmp(m, "PRE", 3) && !memcmp(m + 3, t, n)); free(m);
    snk.b = malloc(n + 4096); snk.cap = n + 4096; ok = snk_run(w, x, arg, -1); long calls = snk.calls; ok = ok && !snk.failed && snk.n == n && !memcmp(snk.b, t, n); ev_bool("own", ok);
    for (long k = 0; k < calls; k = k == 11 && calls > 16 ? calls - 4 : k + 1) lost += snk_run(w, x, arg, k) && snk.failed;
    ev_int("lost", lost); free(snk.b); }
