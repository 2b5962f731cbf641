#define _GNU_SOURCE
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <grp.h>
static void comp(const char *s, size_t n) { vp__puts("["); for (size_t i = 0; i < n; i++) { if (i) vp__puts(","); vp__int((unsigned char)s[i]); } vp__puts("]"); }
static void parr(const char *s, size_t n) { vp__puts("["); int f = 1; size_t i = 0; while (i < n) { size_t j = i; while (j < n && s[j] != '/') j++; if (j > i && !(j == i + 1 && s[i] == '.')) { if (!f) vp__puts(","); f = 0; comp(s + i, j - i); } i = j + 1; } vp__puts("]"); }
static int first;
static int dotdot(const char *s) { for (const char *p = s; p;) { const char *q = strchr(p, '/'); size_t n = q ? (size_t)(q - p) : strlen(p); if (n == 2 && p[0] == '.' && p[1] == '.') return 1; p = q ? q + 1 : 0; } return 0; }
static void walk(const char *dir) { DIR *d = opendir(dir); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[4096]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); struct stat st; if (lstat(p, &st)) continue;
        if (dir[1] == 0 && !strcmp(e->d_name, "ARCH")) continue;
        if (!first) vp__puts(","); first = 0; vp__puts("{\"p\":"); parr(p, strlen(p)); vp__puts(S_ISDIR(st.st_mode) ? ",\"t\":\"d\"" : ",\"t\":\"f\""); static unsigned char b[65536]; ssize_t n = 0; if (S_ISREG(st.st_mode)) { int fd = open(p, O_RDONLY); if (fd >= 0) { n = read(fd, b, sizeof b); close(fd); } } ev_bytes("c", b, n < 0 ? 0 : n); vp__puts("}");
        if (S_ISDIR(st.st_mode)) walk(p); } closedir(d); }
static void wipe(const char *dir) { DIR *d = opendir(dir); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[4096]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); struct stat st; if (lstat(p, &st)) continue; if (S_ISDIR(st.st_mode)) { wipe(p); rmdir(p); } else unlink(p); } closedir(d); }
static void obs(void) { ev_key("tree"); vp__puts("["); first = 1; walk("."); vp__puts("]"); ev_end(); }
static void mkup(char *p) { for (char *q = p + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(p, 0755); *q = '/'; } }
static unsigned char *A; static size_t An; static int disk;
static zpl_file F;
/* the archive: a memory stream, or the file ARCH */
static void aopen(int wr) { if (disk) { if (wr) { if (zpl_file_create(&F, "ARCH")) exit(3); } else { int fd = open("ARCH", O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < An) { ssize_t k = write(fd, A + o, An - o); if (k <= 0) exit(3); o += k; } close(fd); if (zpl_file_open(&F, "ARCH")) exit(3); } }
    else if (wr) zpl_file_stream_new(&F, zpl_heap_allocator()); else zpl_file_stream_open(&F, zpl_heap_allocator(), A, An, disk ? 0 : ZPL_FILE_STREAM_CLONE_WRITABLE); }
static void atake(void) { free(A); if (disk) { zpl_file_close(&F); struct stat st; stat("ARCH", &st); An = st.st_size; A = malloc(An + 1); int fd = open("ARCH", O_RDONLY); if (read(fd, A, An) != (ssize_t)An) exit(3); close(fd); } else { zpl_isize n; zpl_u8 *b = zpl_file_stream_buf(&F, &n); An = n; A = malloc(An + 1); memcpy(A, b, An); zpl_file_close(&F); } }
static int stop, calls;
static char *evbuf; static size_t evcap;
static ZPL_TAR_UNPACK_PROC(cb) { (void)user_data; calls++; if (calls > 200) return 1; if (calls > 1) vp__puts(","); vp__puts("{\"x\":0"); ev_str("path", file->path); ev_int("off", file->offset); ev_int("len", file->length > 2000000000 || file->length < -2000000000 ? -2 : file->length); ev_int("type", (unsigned char)file->type); ev_int("err", file->error);
    size_t n = 0; unsigned char *b = 0; if (!file->error && file->length >= 0 && file->length < 1000000) { n = file->length; b = malloc(n + 1); zpl_isize g = 0; if (!zpl_file_read_at_check(archive, b, n, file->offset, &g)) g = 0; n = g; } ev_bytes("data", b, n); free(b); vp__puts("}"); return calls == stop; }
int main(int argc, char **argv) {
    vp_open(argc, argv); signal(SIGXFSZ, SIG_IGN); umask(022);
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || !strstr(cwd, "/cwd_")) { fprintf(stderr, "not in a scratch directory\n"); return 3; }
    wipe("."); if (geteuid() == 0) { if (chown(".", 65534, 65534) || setgroups(0, 0) || setgid(65534) || setuid(65534)) { perror("drop privileges"); return 3; } }
    while (vp_next()) {
        if (is("seg")) { wipe("."); free(A); A = 0; An = 0; disk = 0; vp_seg(); }
        else if (is("disk")) disk = ai(1);
        else if (is("wr")) { char *p = as(1); if (*p == '/' || dotdot(p)) { fprintf(stderr, "bad path\n"); return 3; } mkup(p); size_t n; unsigned char *b = ab(2, &n); int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { if (write(fd, b, n) != (ssize_t)n) return 3; close(fd); } free(b); free(p); ev("wr"); obs(); }
        else if (is("dir")) { char *p = as(1); if (*p == '/' || dotdot(p)) return 3; mkup(p); mkdir(p, 0755); ev("wr"); obs(); free(p); }
        else if (is("pack")) { int n = vp_ntok - 2; char **ps = malloc(sizeof *ps * (n + 1)); for (int i = 0; i < n; i++) ps[i] = as(2 + i); long long lim = ai(1); struct rlimit r; aopen(1); if (lim >= 0) { getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &r); }
            int ret = zpl_tar_pack(&F, (char const **)ps, n); if (lim >= 0) { r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); } atake(); ev("pack"); ev_bool("lim", lim >= 0 && disk); ev_key("paths"); vp__puts("["); for (int i = 0; i < n; i++) { if (i) vp__puts(","); comp(ps[i], strlen(ps[i])); } vp__puts("]"); ev_int("ret", ret); ev_bytes("a", A, An); obs(); }
        else if (is("packdir")) { char *p = as(1); aopen(1); int ret = zpl_tar_pack_dir(&F, p, zpl_heap_allocator()); atake(); ev("packdir"); ev_str("dir", p); ev_int("ret", ret); ev_bytes("a", A, An); obs(); free(p); }
        else if (is("load")) { free(A); A = ab(1, &An); ev("load"); ev_bytes("a", A, An); ev_end(); }
        else if (is("loadabs")) { /* one file named by an absolute path into the scratch directory */ free(A); An = 2048; A = calloc(1, An); snprintf((char *)A, 100, "%s/%s", cwd, vp_tok[1]); strcpy((char *)A + 100, "664"); strcpy((char *)A + 124, "1"); strcpy((char *)A + 136, "0"); A[156] = '0'; unsigned s = 256; for (int i = 0; i < 512; i++) if (i < 148 || i > 155) s += A[i]; sprintf((char *)A + 148, "%o", s); A[512] = 'E'; ev("load"); ev_bytes("a", A, An); ev_end(); }
        else if (is("cut")) { size_t n = au(1); if (n < An) An = n; ev("load"); ev_bytes("a", A, An); ev_end(); }
        else if (is("unpack")) { stop = ai(1); calls = 0; aopen(0); ev("unpack"); ev_int("stop", stop); ev_key("evs"); vp__puts("["); int ret = zpl_tar_unpack(&F, cb, 0); vp__puts("]"); ev_int("ret", ret); ev_end(); zpl_file_close(&F); }
        else if (is("unpackdir")) { char *p = as(1); if (*p == '/' || dotdot(p)) return 3; aopen(0); int ret = zpl_tar_unpack_dir(&F, p); zpl_file_close(&F); ev("unpackdir"); ev_str("dest", p); ev_int("ret", ret); obs(); free(p); }
        else vp_bad();
    }
    wipe("."); return 0;
}
