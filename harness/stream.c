#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static int live;
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); live++; return p; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) live--; free(old_memory); }
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } else live++; return p; } return 0; }
static zpl_file F; static int up; static unsigned char *orig; static int on;
static void obs(void) { ev_int("tell", zpl_file_tell(&F)); ev_int("size", zpl_file_size(&F)); zpl_isize n = -1; zpl_u8 *b = zpl_file_stream_buf(&F, &n); ev_bytes("buf", b, n); ev_bytes("orig", orig, on); ev_end(); }
static unsigned char *args(int from, int *n) { *n = vp_ntok - from; unsigned char *b = malloc(*n ? *n : 1); for (int i = 0; i < *n; i++) b[i] = ai(from + i); return b; }
static void drop(void) { if (up) { zpl_file_close(&F); up = 0; } live = 0; }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 };
    while (vp_next()) {
        if (is("seg")) { drop(); free(orig); orig = 0; on = 0; vp_seg(); }
        else if (is("new") || is("grow") || is("fixed") || is("ro")) {
            drop(); free(orig); orig = args(1, &on); int nw = is("new"), ok;
            memset(&F, 0x7E, sizeof F);
            if (nw) ok = zpl_file_stream_new(&F, al); else ok = zpl_file_stream_open(&F, al, orig, on, is("grow") ? ZPL_FILE_STREAM_CLONE_WRITABLE : is("fixed") ? ZPL_FILE_STREAM_WRITABLE : 0);
            up = 1; ev("open"); ev_name("kind", nw ? "grow" : vp_tok[0]); ev_bytes("b", orig, on); ev_bool("ok", ok); obs(); }
        else if (is("write")) { int n; unsigned char *d = args(1, &n); int ok = zpl_file_write(&F, d, n); ev("write"); ev_bytes("d", d, n); ev_bool("ok", ok); obs(); free(d); }
        else if (is("writeat")) { int n; unsigned char *d = args(2, &n); zpl_isize w = 0; int ok = zpl_file_write_at_check(&F, d, n, ai(1), &w); if (ok && w == n && !zpl_file_write_at(&F, d, n, ai(1))) ok = 0; ev("writeat"); ev_int("off", ai(1)); ev_bytes("d", d, n); ev_bool("ok", ok); ev_int("n", w); obs(); free(d); }
        else if (is("read")) { int n = ai(1); zpl_i64 c = zpl_file_tell(&F); unsigned char *d = malloc(n ? n : 1); memset(d, 0xEE, n ? n : 1); int ok = zpl_file_read(&F, d, n);
            int k = zpl_file_tell(&F) - c; if (k < 0 || k > n) k = n; for (int i = k; i < n; i++) if (d[i] != 0xEE) k = i + 1; ev("read"); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, k); obs(); free(d); }
        else if (is("readat")) { int n = ai(2); unsigned char *d = malloc(n ? n : 1); memset(d, 0xEE, n ? n : 1); unsigned char *q = malloc(n ? n : 1); memset(q, 0xEE, n ? n : 1); int ok1 = zpl_file_read_at(&F, q, n, ai(1)); zpl_isize g = 0; int ok = zpl_file_read_at_check(&F, d, n, ai(1), &g); if (ok1 != ok || memcmp(q, d, n)) { ev("crash"); ev_end(); } free(q);
            for (int i = g; i < n; i++) if (d[i] != 0xEE) g = i + 1; ev("readat"); ev_int("off", ai(1)); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, g); obs(); free(d); }
        else if (is("seek")) { long long r = zpl_file_seek(&F, ai(1)); ev("seek"); ev_int("off", ai(1)); ev_int("ret", r); obs(); }
        else if (is("skip")) { long long r = zpl_file_skip(&F, ai(1)); ev("skip"); ev_int("off", ai(1)); ev_int("ret", r); obs(); }
        else if (is("end")) { long long r = zpl_file_seek_to_end(&F); ev("end"); ev_int("ret", r); obs(); }
        else if (is("close")) { int e = zpl_file_close(&F); up = 0; ev("close"); ev_int("err", e); ev_int("live", live); ev_bytes("orig", orig, on); ev_end(); }
        else vp_bad();
    }
    return 0;
}
