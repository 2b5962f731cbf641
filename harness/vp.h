/* Script reader and event writer shared by all harnesses. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

static FILE *vp_in; static int vp_out; static char *vp_buf; static size_t vp_len, vp_cap; static int vp_first;
static char *vp_line; static size_t vp_linecap; static char *vp_tok[4096]; static int vp_ntok;

static void vp__put(const char *s, size_t n) {
    if (vp_len + n + 1 > vp_cap) { vp_cap = (vp_len + n + 1) * 2; vp_buf = (char *)realloc(vp_buf, vp_cap); }
    memcpy(vp_buf + vp_len, s, n); vp_len += n; vp_buf[vp_len] = 0;
}
static void vp__puts(const char *s) { vp__put(s, strlen(s)); }
static void vp__int(long long v) { char b[32]; int n = 0, neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; char t[32]; int k = 0;
    do { t[k++] = '0' + u % 10; u /= 10; } while (u); if (neg) b[n++] = '-'; while (k) b[n++] = t[--k]; vp__put(b, n); }
static void ev(const char *op) { vp_len = 0; vp__puts("{\"op\":\""); vp__puts(op); vp__puts("\""); }
static void ev_key(const char *k) { vp__puts(",\""); vp__puts(k); vp__puts("\":"); }
static void ev_int(const char *k, long long v) { ev_key(k); vp__int(v); }
static void ev_bool(const char *k, int v) { ev_key(k); vp__puts(v ? "true" : "false"); }
static void ev_bytes(const char *k, const void *p, size_t n) { ev_key(k); vp__puts("["); for (size_t i = 0; i < n; i++) { if (i) vp__puts(","); vp__int(((const unsigned char *)p)[i]); } vp__puts("]"); }
static void ev_str(const char *k, const char *s) { ev_bytes(k, s, strlen(s)); }
static void ev_name(const char *k, const char *s) { ev_key(k); vp__puts("\""); vp__puts(s); vp__puts("\""); }
static void ev_arr(const char *k) { ev_key(k); vp__puts("["); vp_first = 1; }
static void ev_item(long long v) { if (!vp_first) vp__puts(","); vp_first = 0; vp__int(v); }
static void ev_arrend(void) { vp__puts("]"); }
/* 64-bit values as four 16-bit limbs, least significant first (TLC integers have 32 bits) */
static void vp__u64(uint64_t v) { vp__puts("["); for (int i = 0; i < 4; i++) { if (i) vp__puts(","); vp__int((v >> (16 * i)) & 0xffff); } vp__puts("]"); }
static void ev_u64(const char *k, uint64_t v) { ev_key(k); vp__u64(v); }
static void ev_u32(const char *k, uint32_t v) { ev_key(k); vp__puts("["); vp__int(v & 0xffff); vp__puts(","); vp__int(v >> 16); vp__puts("]"); }
static void ev_end(void) { vp__puts("}\n"); size_t o = 0; while (o < vp_len) { ssize_t n = write(vp_out, vp_buf + o, vp_len - o); if (n <= 0) _exit(3); o += n; } }

static void vp_open(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: %s SCRIPT OUT\n", argv[0]); exit(3); }
    vp_in = fopen(argv[1], "r"); vp_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    if (!vp_in || vp_out < 0) { perror("vp_open"); exit(3); }
}
/* a line that takes this long hangs */
static int vp_next(void) {
    static int limit; if (!limit) limit = getenv("VP_LINE") ? atoi(getenv("VP_LINE")) : 60;
    alarm(limit);
    ssize_t n = getline(&vp_line, &vp_linecap, vp_in);
    if (n < 0) return 0;
    vp_ntok = 0;
    char *p = vp_line;
    for (;;) { while (*p == ' ' || *p == '\n') p++; if (!*p) break; if (vp_ntok >= 4096) { fprintf(stderr, "too many tokens\n"); exit(3); } vp_tok[vp_ntok++] = p; while (*p && *p != ' ' && *p != '\n') p++; if (*p) *p++ = 0; }
    return 1;
}
static int is(const char *s) { return vp_ntok > 0 && !strcmp(vp_tok[0], s); }
static long long ai(int i) { if (i >= vp_ntok) { fprintf(stderr, "missing argument %d of %s\n", i, vp_tok[0]); exit(3); } return strtoll(vp_tok[i], 0, 0); }
static unsigned long long au(int i) { if (i >= vp_ntok) { fprintf(stderr, "missing argument %d of %s\n", i, vp_tok[0]); exit(3); } return strtoull(vp_tok[i], 0, 0); }
static double ad(int i) { if (i >= vp_ntok) { fprintf(stderr, "missing argument %d of %s\n", i, vp_tok[0]); exit(3); } return strtod(vp_tok[i], 0); }
/* xHEX -> freshly allocated exact-size buffer plus terminator handled by the caller's choice */
static unsigned char *ab(int i, size_t *n) {
    if (i >= vp_ntok || vp_tok[i][0] != 'x') { fprintf(stderr, "bad bytes argument %d of %s\n", i, vp_tok[0]); exit(3); }
    const char *h = vp_tok[i] + 1; size_t len = strlen(h) / 2; unsigned char *b = (unsigned char *)malloc(len ? len : 1);
    for (size_t k = 0; k < len; k++) { unsigned v; sscanf(h + 2 * k, "%2x", &v); b[k] = v; }
    *n = len; return b;
}
/* same, zero terminated, exactly len+1 bytes so that a sanitizer sees overreads */
static char *as(int i) { size_t n; unsigned char *b = ab(i, &n); char *s = (char *)malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s; }
static void vp_bad(void) { fprintf(stderr, "unknown command %s\n", vp_ntok ? vp_tok[0] : "(empty)"); exit(3); }
static int vp_seg(void) { if (!is("seg")) return 0; ev("seg"); ev_int("n", ai(1)); ev_end(); return 1; }
#endif
