#define _GNU_SOURCE
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
#include <grp.h>
static ZPL_ALLOCATOR_PROC(strict) { (void)allocator_data; (void)alignment; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { char *p = (char *)malloc(size + 32); memset(p, 0x3C, size + 32); return p + 32; } if (type == ZPL_ALLOCATION_FREE) { if (old_memory) free((char *)old_memory - 32); }
    if (type == ZPL_ALLOCATION_RESIZE) { char *p = (char *)malloc(size + 32); memset(p, 0x3C, size + 32); if (old_memory) { memcpy(p + 32, old_memory, old_size < size ? old_size : size); free((char *)old_memory - 32); } return p + 32; } return 0; }
/* a path of plain names: everything stays below the scratch directory */
static char *pa(int i) { if (i >= vp_ntok) { fprintf(stderr, "missing path\n"); exit(3); } char *s = vp_tok[i]; if (!strcmp(s, ".")) return s; if (*s == '/') { fprintf(stderr, "absolute\n"); exit(3); }
    for (char *p = s; p;) { char *q = strchr(p, '/'); size_t n = q ? (size_t)(q - p) : strlen(p); if ((n == 2 && p[0] == '.' && p[1] == '.')) { fprintf(stderr, "dotdot\n"); exit(3); } p = q ? q + 1 : 0; } return s; }
static void parr(const char *s, size_t n) { vp__puts("["); int f = 1; size_t i = 0; while (i < n) { size_t j = i; while (j < n && s[j] != '/') j++; if (j > i && !(j == i + 1 && s[i] == '.')) { vp__puts(f ? "\"" : ",\""); f = 0; vp__put(s + i, j - i); vp__puts("\""); } i = j + 1; } vp__puts("]"); }
static void ev_path(const char *k, const char *s) { ev_key(k); parr(s, strlen(s)); }
static int basefds, first;
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static void walk(const char *dir) { DIR *d = opendir(dir); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[4096]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); struct stat st; if (lstat(p, &st)) continue;
        if (!first) vp__puts(","); first = 0; vp__puts("{\"p\":"); parr(p, strlen(p)); vp__puts(S_ISDIR(st.st_mode) ? ",\"t\":\"d\"" : ",\"t\":\"f\""); static unsigned char b[65536]; ssize_t n = 0; if (S_ISREG(st.st_mode)) { int fd = open(p, O_RDONLY); if (fd >= 0) { n = read(fd, b, sizeof b); close(fd); } } ev_bytes("c", b, n < 0 ? 0 : n); vp__puts("}");
        if (S_ISDIR(st.st_mode)) walk(p); } closedir(d); }
static void wipe(const char *dir) { DIR *d = opendir(dir); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[4096]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); struct stat st; if (lstat(p, &st)) continue; if (S_ISDIR(st.st_mode)) { wipe(p); rmdir(p); } else unlink(p); } closedir(d); }
static void obs(void) { int k = fds() - basefds; ev_key("tree"); vp__puts("["); first = 1; walk("."); vp__puts("]"); ev_int("fds", k); ev_end(); }
static long long lim = -1;
static void setlim(int on) { if (lim >= 0) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = on ? (rlim_t)lim : r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); } }
static void dirinfo_items(const char *k, zpl_dir_info *d) { ev_key(k); vp__puts("["); for (int i = 0; i < zpl_array_count(d->entries); i++) { if (i) vp__puts(","); parr(d->entries[i].filename, strlen(d->entries[i].filename)); } vp__puts("]"); }
int main(int argc, char **argv) {
    vp_open(argc, argv); zpl_allocator al = { strict, 0 }; signal(SIGXFSZ, SIG_IGN); umask(022);
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || !strstr(cwd, "/cwd_")) { fprintf(stderr, "not in a scratch directory\n"); return 3; }
    wipe("."); if (geteuid() == 0) { if (chown(".", 65534, 65534) || setgroups(0, 0) || setgid(65534) || setuid(65534)) { perror("drop privileges"); return 3; } }
    basefds = fds();
    while (vp_next()) {
        if (is("seg")) { wipe("."); lim = -1; vp_seg(); }
        else if (is("limit")) lim = ai(1);
        else if (is("wr")) { int n = vp_ntok - 2; unsigned char b[4096]; for (int i = 0; i < n; i++) b[i] = ai(2 + i); zpl_file_error e; int ok = zpl_file_write_contents(pa(1), b, n, &e); if (!ok) continue; ev("wr"); ev_path("p", pa(1)); ev_bytes("d", b, n); obs(); }
        else if (is("mkdir")) { int e = zpl_path_mkdir(pa(1), 0755); ev("mkdir"); ev_path("p", pa(1)); ev_int("err", e); obs(); }
        else if (is("mkdirr")) { int e = zpl_path_mkdir_recursive(pa(1), 0755); ev("mkdirr"); ev_path("p", pa(1)); ev_bool("ok", e == 0); obs(); }
        else if (is("rmdir")) { int e = zpl_path_rmdir(pa(1)); ev("rmdir"); ev_path("p", pa(1)); ev_int("err", e); obs(); }
        else if (is("rm")) { int e = zpl_fs_remove(pa(1)); ev("rm"); ev_path("p", pa(1)); ev_bool("ok", e); obs(); }
        else if (is("cp")) { setlim(1); int e = zpl_fs_copy(pa(1), pa(2), ai(3)); setlim(0); ev("cp"); ev_path("p", pa(1)); ev_path("q", pa(2)); ev_bool("excl", ai(3)); ev_int("lim", lim); ev_bool("ok", e); obs(); }
        else if (is("mv")) { int e = zpl_fs_move(pa(1), pa(2)); ev("mv"); ev_path("p", pa(1)); ev_path("q", pa(2)); ev_bool("ok", e); obs(); }
        else if (is("exists")) { int e = zpl_fs_exists(pa(1)); ev("exists"); ev_path("p", pa(1)); ev_bool("ok", e); obs(); }
        else if (is("type")) { int e = zpl_fs_get_type(pa(1)); ev("type"); ev_path("p", pa(1)); ev_int("t", e); obs(); }
        else if (is("list")) { char *s = zpl_path_dirlist(al, pa(1), ai(2)); ev("list"); ev_path("p", pa(1)); ev_bool("rec", ai(2)); ev_key("items"); vp__puts("["); int f = 1; for (char *q = s; *q;) { char *e = strchr(q, '\n'); size_t n = e ? (size_t)(e - q) : strlen(q); if (!f) vp__puts(","); f = 0; parr(q, n); q += n + (e != 0); } vp__puts("]"); obs(); zpl_string_free(s); }
        else if (is("info")) { zpl_dir_info d; char *p = strdup(pa(1)); zpl_dirinfo_init(&d, p); free(p); ev("info"); ev_path("p", pa(1)); ev_key("ents"); vp__puts("["); for (int i = 0; i < zpl_array_count(d.entries); i++) { zpl_dir_entry *e = d.entries + i; if (i) vp__puts(","); vp__puts("{\"p\":"); parr(e->filename, strlen(e->filename)); ev_int("t", e->type);
                zpl_dirinfo_step(e); if (i % 2) zpl_dirinfo_step(e); dirinfo_items("sub", e->dir_info); vp__puts("}"); } vp__puts("]"); zpl_dirinfo_free(&d); obs(); }
        else if (is("refresh")) { zpl_file f; if (zpl_file_open(&f, pa(1))) continue; zpl_file_dirinfo_refresh(&f); if (ai(2)) zpl_file_dirinfo_refresh(&f); ev("refresh"); ev_path("p", pa(1)); dirinfo_items("items", f.dir->dir_info); zpl_file_close(&f); obs(); }
        else if (is("special")) { int ff = 0, so = 0; if (!mkfifo("ff", 0600)) { ff = zpl_fs_get_type("ff"); unlink("ff"); } int s = socket(AF_UNIX, SOCK_STREAM, 0); if (s >= 0) { struct sockaddr_un a = { AF_UNIX, "so" }; if (!bind(s, (void *)&a, sizeof a)) { so = zpl_fs_get_type("so"); unlink("so"); } close(s); } ev("special"); ev_int("fifo", ff); ev_int("sock", so); obs(); }
        else if (is("toolong")) { static char b[9000]; memset(b, 'z', 8999); int m = zpl_path_mkdir(b, 0755), r = zpl_path_rmdir(b), k = zpl_path_mkdir_recursive(b, 0755); ev("toolong"); ev_int("mk", m); ev_int("rm", r); ev_int("mkr", k); obs(); }
        else if (is("full")) { char *r = zpl_path_get_full_name(al, pa(1)); ev("full"); ev_path("p", pa(1)); size_t n = strlen(cwd); if (r[0] == '/' && !strncmp(r, cwd, n)) { ev_name("kind", "abs"); ev_path("got", r + n); } else { ev_name("kind", !strcmp(r, pa(1)) ? "same" : "other"); ev_path("got", r); } obs(); zpl_free(al, r); }
        else if (is("times")) { zpl_file f; struct stat st; int reg = !stat(pa(1), &st) && S_ISREG(st.st_mode) && !zpl_file_open(&f, pa(1)); long long lw[64]; int lk[128], n = 0; for (int i = 2; i < vp_ntok && n < 60; i++, n++) { struct timespec t[2] = { { ai(i), 0 }, { ai(i), 0 } }; utimensat(AT_FDCWD, pa(1), t, 0); lw[n] = zpl_fs_last_write_time(pa(1)); if (reg) { lk[2 * n] = zpl_file_has_changed(&f); lk[2 * n + 1] = zpl_file_has_changed(&f); } }
            if (reg) zpl_file_close(&f); ev("times"); ev_path("p", pa(1)); ev_arr("ts"); for (int i = 2; i < vp_ntok; i++) ev_item(ai(i)); ev_arrend(); ev_arr("lwt"); for (int i = 0; i < n; i++) ev_item(lw[i]); ev_arrend(); ev_key("looks"); vp__puts("["); for (int i = 0; reg && i < 2 * n; i++) { if (i) vp__puts(","); vp__puts(lk[i] ? "true" : "false"); } vp__puts("]"); obs(); }
        else if (is("path")) { char *s = as(1), *t = strdup(s); char const *b = zpl_path_base_name(s), *x = zpl_path_extension(s); ev("path"); ev_str("s", t); ev_str("base", b); ev_bool("has", x != 0); ev_str("ext", x ? x : ""); ev_bool("abs", zpl_path_is_absolute(s)); ev_bool("rel", zpl_path_is_relative(s)); ev_bool("root", zpl_path_is_root(s)); ev_end(); free(s); free(t); }
        else vp_bad();
    }
    wipe("."); return 0;
}
