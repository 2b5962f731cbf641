/* environment, commands, libraries. Commands are only ever `cat` of a file this program wrote into its scratch folder. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/wait.h>
#include <dlfcn.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "vp.h"
static char *copy[4096]; static int ncopy; static zpl_dll_handle H[2][64]; static int refs[2]; static char *path[2];
static int fds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static int left(int before) { int st; pid_t p = waitpid(-1, &st, WNOHANG); return p != -1 || fds() != before; }
static void output(char *cmd, size_t cap, unsigned char *b, size_t n, int code) {
    static int k; FILE *f = fopen("out.bin", "wb"); fwrite(b, 1, n, f); fclose(f); (void)k;
    snprintf(cmd, cap, code ? "cat out.bin; exit %d" : "cat out.bin", code); }
int main(int argc, char **argv) {
    path[0] = argv[3]; path[1] = argv[4]; vp_open(argc, argv);
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < 2; i++) { while (refs[i]) zpl_dll_unload(H[i][--refs[i]]); } for (int i = 0; i < ncopy; i++) if (copy[i]) zpl_mfree(copy[i]); ncopy = 0; clearenv(); setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); vp_seg(); }
        else if (is("set")) { size_t n, m; char *a = as(1), *v = as(2); free(ab(1, &n)); free(ab(2, &m)); ev("set"); ev_bytes("n", a, n); ev_bytes("v", v, m); zpl_set_env(a, v); memset(a, 'Z', n); memset(v, 'Z', m); free(a); free(v); ev_end(); }
        else if (is("unset")) { size_t n; char *a = as(1); free(ab(1, &n)); zpl_unset_env(a); ev("unset"); ev_bytes("n", a, n); ev_end(); free(a); }
        else if (is("get")) { size_t n; char *a = as(1); free(ab(1, &n)); const char *p = zpl_get_env(a), *q = zpl_get_env_buf(a); zpl_string s = zpl_get_env_str(a);
            ev("get"); ev_bytes("n", a, n); ev_bool("on", p != 0); ev_bytes("v", p ? p : "", p ? strlen(p) : 0); ev_bool("same", (!p && !q && !s) || (p && q && s && !strcmp(p, q) && !strcmp(p, s) && zpl_string_length(s) == (zpl_isize)strlen(s) && p != q)); ev_end();
            copy[ncopy++] = (char *)p; if (s) zpl_string_free(s); free(a); }
        else if (is("copies")) { ev("copies"); ev_key("c"); vp__puts("["); for (int i = 0; i < ncopy; i++) { vp__puts(i ? ",[" : "["); for (char *c = copy[i]; c && *c; c++) { if (c != copy[i]) vp__puts(","); vp__int((unsigned char)*c); } vp__puts("]"); if (copy[i]) zpl_mfree(copy[i]); } vp__puts("]"); ncopy = 0; ev_end(); }
        else if (is("command")) { size_t n, len = ai(2), cap = len + 8; unsigned char *b = ab(1, &n), *buf = malloc(cap); char cmd[64]; memset(buf, 171, cap); output(cmd, sizeof cmd, b, n, ai(3)); int f = fds(); zpl_u32 r = zpl_system_command(cmd, len, (char *)buf);
            ev("command"); ev_bytes("out", b, n); ev_int("len", len); ev_bytes("buf", buf, cap); ev_bool("ok", r == 1); ev_bool("left", left(f)); ev_end(); free(b); free(buf); }
        else if (is("commandstr")) { size_t n; unsigned char *b = ab(1, &n); char cmd[64]; output(cmd, sizeof cmd, b, n, ai(2)); int f = fds(); zpl_string s = zpl_system_command_str(cmd, zpl_heap());
            ev("commandstr"); ev_bytes("out", b, n); ev_bytes("str", s, zpl_string_length(s)); ev_bool("left", left(f) || s[zpl_string_length(s)]); ev_end(); zpl_string_free(s); free(b); }
        else if (is("load")) { int i = ai(1); zpl_dll_handle h = zpl_dll_load(path[i]); ev("load"); ev_int("i", i); ev_bool("ok", h != 0); ev_bool("one", !refs[i] || h == H[i][0]); ev_end(); if (h) H[i][refs[i]++] = h; }
        else if (is("call")) { int i = ai(1); if (!refs[i]) { ev("stop"); ev_end(); continue; } int (*f)(void) = (int (*)(void))zpl_dll_proc_address(H[i][refs[i] - 1], "host_next"); ev("call"); ev_int("i", i); ev_bool("ok", f != 0); ev_int("v", f ? f() : 0); ev_end(); }
        else if (is("nosym")) { int i = ai(1); if (!refs[i]) { ev("stop"); ev_end(); continue; } ev("nosym"); ev_bool("ok", zpl_dll_proc_address(H[i][0], vp_ntok > 2 ? vp_tok[2] : "host_prev") != 0); ev_end(); }
        else if (is("nolib")) { ev("nolib"); ev_bool("ok", zpl_dll_load("./none.so") != 0 || zpl_dll_load("/dev/null") != 0); ev_end(); }
        else if (is("unload")) { int i = ai(1); if (!refs[i]) { ev("stop"); ev_end(); continue; } zpl_dll_unload(H[i][--refs[i]]); void *p = dlopen(path[i], RTLD_NOLOAD | RTLD_LAZY); if (p) dlclose(p); ev("unload"); ev_int("i", i); ev_bool("there", p != 0); ev_end(); }
        else if (is("cores")) { zpl_affinity a; memset(&a, 7, sizeof a); zpl_affinity_init(&a); long s = 0; for (zpl_isize k = 0; k < a.core_count; k++) s += zpl_affinity_thread_count_for_core(&a, k); ev("cores"); ev_bool("ok", zpl_affinity_set(&a, 0, 0) && a.is_accurate); ev_int("cores", a.core_count); ev_int("online", sysconf(_SC_NPROCESSORS_ONLN)); ev_int("threads", a.thread_count); ev_int("sum", s); ev_end(); zpl_affinity_destroy(&a); zpl_yield(); }
        else vp_bad();
    }
    return 0;
}
