#define _GNU_SOURCE
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/fsuid.h>
#include <dirent.h>
#include <sys/ioctl.h>
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { void *p = malloc(size); memset(p, 0x3C, size); return p; } if (type == ZPL_ALLOCATION_FREE) free(old_memory);
    if (type == ZPL_ALLOCATION_RESIZE) { void *p = malloc(size); memset(p, 0x3C, size); if (old_memory) { memcpy(p, old_memory, old_size < size ? old_size : size); free(old_memory); } return p; } return 0; }
static zpl_file F[3]; static int up[3]; static long long lim = -1;
static void limon(void) { if (lim >= 0) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &r); } }
static void limoff(void) { if (lim >= 0) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); } }
static int hi(int i) { char *s = vp_tok[i]; if (i >= vp_ntok || s[0] != 'h' || s[1] < '0' || s[1] > '2') { fprintf(stderr, "bad handle\n"); exit(3); } return s[1] - '0'; }
static char *nm(int i) { if (i >= vp_ntok || strchr(vp_tok[i], '/') || vp_tok[i][1]) { fprintf(stderr, "bad name\n"); exit(3); } return vp_tok[i]; }
static int md(int i) { char *s = vp_tok[i]; int m = s[0] == 'r' ? ZPL_FILE_MODE_READ : s[0] == 'w' ? ZPL_FILE_MODE_WRITE : ZPL_FILE_MODE_APPEND; return s[1] == '+' ? m | ZPL_FILE_MODE_RW : m; }
static void put(const char *k) { int fd = open(k, O_RDONLY); if (fd < 0) { ev_key(k); vp__puts("[-1]"); return; } static unsigned char b[1 << 20]; ssize_t n = read(fd, b, sizeof b); close(fd); ev_bytes(k, b, n < 0 ? 0 : n); }
static void files(void) { put("a"); put("b"); }
static void obs(int h) { ev_name("h", vp_tok[1]); ev_int("tell", zpl_file_tell(&F[h])); ev_int("size", zpl_file_size(&F[h])); files(); ev_end(); }
/* a pipe: its ends connected to files of ours, or put under the standard output and input */
static zpl_file PF[2]; static int pfd[2] = { -1, -1 }, pstd, psv[2];
static zpl_file *pe(int w) { return pstd ? zpl_file_get_standard(w ? ZPL_FILE_STANDARD_OUTPUT : ZPL_FILE_STANDARD_INPUT) : &PF[w]; }
static void pshut(int w) { if (pfd[w] < 0) return; close(pfd[w]); pfd[w] = -1; if (pstd) { dup2(psv[w], w); close(psv[w]); } }
static int basefds;
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static unsigned char *args(int from, int *n) { *n = vp_ntok - from; unsigned char *b = malloc(*n ? *n : 1); for (int i = 0; i < *n; i++) b[i] = ai(from + i); return b; }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 }; signal(SIGXFSZ, SIG_IGN); umask(022); basefds = fds();
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < 3; i++) if (up[i]) { zpl_file_close(&F[i]); up[i] = 0; } memset(F, 0, sizeof F); for (int i = 0; i < 3; i++) F[i].fd.i = -1; pshut(0); pshut(1); lim = -1; unlink("a"); unlink("b"); vp_seg(); }
        else if (is("limit")) { lim = ai(1); }
        else if (is("open") || is("openu")) { int h = hi(1), u = is("openu"); if (u) setfsuid(65534); if (u && setfsuid(-1) != 65534) continue;
            memset(&F[h], 0x7E, sizeof F[h]); int e = zpl_file_open_mode(&F[h], md(3), nm(2)); if (u) setfsuid(0); up[h] = e == 0;
            ev(u ? "openu" : "open"); ev_name("p", nm(2)); ev_name("m", vp_tok[3]); ev_int("err", e); if (!e) { ev_name("name", zpl_file_name(&F[h])); obs(h); } else { ev_name("h", vp_tok[1]); files(); ev_end(); } }
        else if (is("openbad")) { char big[6000]; memset(big, 'q', sizeof big); big[5999] = 0; zpl_file f; memset(&f, 0x7E, sizeof f); mkdir("dd", 0755); char *t = vp_tok[1]; int want = 0;
            char const *p = !strcmp(t, "dir") ? (want = 1, "dd") : !strcmp(t, "long") ? (want = 8, big) : !strcmp(t, "nodir") ? (want = 4, "nodir/x") : (want = 4, "");
            int e = zpl_file_open_mode(&f, md(2), p), c = e ? zpl_file_close(&f) : 0; rmdir("dd"); ev("openbad"); ev_int("err", c == 1 ? e : 100 + c); ev_int("want", want); files(); ev_end(); }
        else if (is("temp")) { int h = hi(1); memset(&F[h], 0x7E, sizeof F[h]); int e = zpl_file_temp(&F[h]); up[h] = !e; ev("temp"); ev_int("err", e); obs(h); }
        else if (is("close")) { int h = hi(1); int e = zpl_file_close(&F[h]); if (up[h]) { up[h] = 0; } F[h].filename = 0; F[h].fd.i = -1; ev("close"); ev_name("h", vp_tok[1]); ev_int("err", e); ev_int("fds", fds() - basefds - ((pfd[0] >= 0) + (pfd[1] >= 0)) * (1 + pstd)); files(); ev_end(); }
        else if (is("write")) { int h = hi(1), n; unsigned char *d = args(2, &n); limon(); int ok = zpl_file_write(&F[h], d, n); limoff(); ev("write"); ev_bytes("d", d, n); ev_int("lim", lim); ev_bool("ok", ok); obs(h); free(d); }
        else if (is("writeat")) { int h = hi(1), n; unsigned char *d = args(3, &n); zpl_isize w = 0; limon(); int ok = zpl_file_write_at_check(&F[h], d, n, ai(2), &w); limoff(); ev("writeat"); ev_int("off", ai(2)); ev_bytes("d", d, n); ev_int("lim", lim); ev_bool("ok", ok); ev_int("n", w); obs(h); free(d); }
        else if (is("read")) { int h = hi(1), n = ai(2); zpl_i64 c = zpl_file_tell(&F[h]); unsigned char *d = malloc(n ? n : 1); memset(d, 0xEE, n ? n : 1); int ok = zpl_file_read(&F[h], d, n);
            int k = zpl_file_tell(&F[h]) - c; if (k < 0 || k > n) k = n; for (int i = k; i < n; i++) if (d[i] != 0xEE) k = i + 1; ev("read"); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, k); obs(h); free(d); }
        else if (is("readat")) { int h = hi(1), n = ai(3); unsigned char *d = malloc(n ? n : 1); memset(d, 0xEE, n ? n : 1); unsigned char *q = malloc(n ? n : 1); memset(q, 0xEE, n ? n : 1); int ok1 = zpl_file_read_at(&F[h], q, n, ai(2)); zpl_isize g = 0; int ok = zpl_file_read_at_check(&F[h], d, n, ai(2), &g); if (ok1 != ok || memcmp(q, d, n)) { ev("crash"); ev_end(); } free(q);
            for (int i = g; i < n; i++) if (d[i] != 0xEE) g = i + 1; ev("readat"); ev_int("off", ai(2)); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, g); obs(h); free(d); }
        else if (is("seek")) { int h = hi(1); long long r = zpl_file_seek(&F[h], ai(2)); ev("seek"); ev_int("off", ai(2)); ev_int("ret", r); obs(h); }
        else if (is("skip")) { int h = hi(1); long long r = zpl_file_skip(&F[h], ai(2)); ev("skip"); ev_int("off", ai(2)); ev_int("ret", r); obs(h); }
        else if (is("end")) { int h = hi(1); long long r = zpl_file_seek_to_end(&F[h]); ev("end"); ev_int("ret", r); obs(h); }
        else if (is("trunc")) { int h = hi(1); limon(); int e = zpl_file_truncate(&F[h], ai(2)); limoff(); ev("trunc"); ev_int("n", ai(2)); ev_int("lim", lim); ev_int("err", e); obs(h); }
        else if (is("wcont")) { int n; unsigned char *d = args(2, &n); zpl_file_error e = 99; limon(); int ok = zpl_file_write_contents(nm(1), d, n, &e); limoff(); ev("wcont"); ev_name("p", nm(1)); ev_bytes("d", d, n); ev_int("lim", lim); ev_bool("ok", ok); ev_int("err", e); files(); ev_end(); free(d); }
        else if (is("rcont")) { int z = ai(2); zpl_file_contents c = zpl_file_read_contents(al, z, nm(1)); int zt = c.size == 0 || !z || ((char *)c.data)[c.size] == 0; ev("rcont"); ev_name("p", nm(1)); ev_bytes("got", c.data, c.size); ev_bool("zt", zt); files(); ev_end(); if (c.data) zpl_file_free_contents(&c); }
        else if (is("lines")) { char **L = 0; struct stat st; int n = stat(nm(1), &st) ? 0 : st.st_size; char *c = zpl_file_read_lines(al, &L, nm(1), ai(2)); ev("lines"); ev_name("p", nm(1)); ev_bool("strip", ai(2));
            /* the returned text is split in place: bytes 0 may stand for line ends */ unsigned char *o = malloc(n + 1); int fd = open(nm(1), O_RDONLY); if (fd >= 0) { read(fd, o, n); close(fd); } ev_bytes("got", o, n); free(o);
            ev_key("ls"); vp__puts("["); for (int i = 0; i < zpl_array_count(L); i++) { vp__puts(i ? ",[" : "["); for (int k = 0; L[i][k]; k++) { if (k) vp__puts(","); vp__int((unsigned char)L[i][k]); } vp__puts("]"); } vp__puts("]"); files(); ev_end(); zpl_array_free(L); free(c); }
        else if (is("pipe")) { pstd = ai(1); if (pipe2(pfd, O_NONBLOCK)) exit(3); fcntl(pfd[1], F_SETPIPE_SZ, 4096); memset(PF, 0, sizeof PF); if (pstd) { fflush(stdout); for (int i = 0; i < 2; i++) { psv[i] = dup(i); dup2(pfd[i], i); } } else for (int i = 0; i < 2; i++) zpl_file_connect_handle(&PF[i], (void *)(intptr_t)pfd[i]); ev("pipe"); files(); ev_end(); }
        else if (is("pwrite") || is("pfill")) { if (pfd[1] < 0) continue; int n; unsigned char *d; if (is("pfill")) { n = ai(1); d = malloc(n + 1); for (int i = 0; i < n; i++) d[i] = i * 7 % 200; } else d = args(1, &n); zpl_isize w = 0; int ok = zpl_file_write_at_check(pe(1), d, n, 0, &w); ev("pwrite"); ev_bytes("d", d, n); ev_bool("ok", ok); ev_int("n", w); files(); ev_end(); free(d); }
        else if (is("pput")) { if (pfd[1] < 0) continue; int n, fill = 0; unsigned char *d = args(1, &n); ioctl(pfd[1], FIONREAD, &fill); if (fill) { free(d); continue; } int ok = zpl_file_write(pe(1), d, n); ev("pwrite"); ev_bytes("d", d, n); ev_bool("ok", ok); ev_int("n", ok ? n : 0); files(); ev_end(); free(d); }
        else if (is("pread")) { if (pfd[0] < 0) continue; int n = ai(1); unsigned char *d = malloc(n + 1); memset(d, 0xEE, n + 1); zpl_isize g = 0; int ok = zpl_file_read_at_check(pe(0), d, n, 0, &g); for (int i = g; i < n; i++) if (d[i] != 0xEE) g = i + 1; ev("pread"); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, g); files(); ev_end(); free(d); }
        else if (is("pget")) { if (pfd[0] < 0) continue; int n = ai(1), g = 0; unsigned char *d = malloc(n + 1); memset(d, 0xEE, n + 1); int ok = zpl_file_read(pe(0), d, n); for (int i = 0; i < n; i++) if (d[i] != 0xEE) g = i + 1; ev("pread"); ev_int("n", n); ev_bool("ok", ok); ev_bytes("got", d, g); files(); ev_end(); free(d); }
        else if (is("pend")) { if (pfd[1] < 0) continue; pshut(1); ev("pend"); files(); ev_end(); }
        else vp_bad();
    }
    return 0;
}
