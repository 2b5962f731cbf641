/* virtual memory: the system calls are made for real and recorded page by page in a table of what the library holds */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
static size_t PG; static struct { char *p; int id; } tab[1 << 16]; static int ntab, nextid, inlib, deny, denied, stray;
static int idof(char *p) { for (int i = 0; i < ntab; i++) if (tab[i].p == p) return tab[i].id; return 0; }
static void drop(char *p) { for (int i = 0; i < ntab; i++) if (tab[i].p == p) { tab[i] = tab[--ntab]; return; } }
static void put(char *p) { drop(p); tab[ntab].p = p; tab[ntab++].id = ++nextid; }
static size_t pages(size_t n) { return (n + PG - 1) / PG; }
static int no(int e) { if (!deny) return 0; denied++; errno = e; return 1; }
static void *vp_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { if (inlib && no(ENOMEM)) return MAP_FAILED; char *p = mmap(a, n, prot, fl, fd, o); if (inlib && p != MAP_FAILED) for (size_t k = 0; k < pages(n); k++) put(p + k * PG); return p; }
static int vp_munmap(void *a, size_t n) { if (inlib && no(EINVAL)) return -1;
    /* a call for pages the library does not hold would take them from somebody else: it is only recorded */
    if ((uintptr_t)a % PG || !n) { errno = EINVAL; return -1; }
    for (size_t k = 0; k < pages(n); k++) { char *p = (char *)a + k * PG; if (idof(p)) { drop(p); mprotect(p, PG, PROT_NONE); } else stray = 1; } return 0; }
static int vp_madvise(void *a, size_t n, int adv) { if (inlib && no(EINVAL)) return -1; for (size_t k = 0; k < pages(n); k++) if (!idof((char *)a + k * PG)) { stray = 1; errno = ENOMEM; return -1; } return madvise(a, n, adv); }
#define mmap(a, b, c, d, e, f) vp_mmap(a, b, c, d, e, f)
#define munmap(a, b) vp_munmap(a, b)
#define madvise(a, b, c) vp_madvise(a, b, c)
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#undef mmap
#undef munmap
#undef madvise
#include "vp.h"
#define N 6
static zpl_virtual_memory V[N]; static int on[N]; static size_t n[N]; /* pages the user asked for */
#define LIB(e) (inlib = 1, denied = 0, (e), inlib = 0, deny = 0)
static void world(void) { int ok = 1; ev_key("r"); vp__puts("[");
    for (int h = 0; h < N; h++) { vp__puts(h ? ",{\"on\":" : "{\"on\":"); vp__puts(on[h] ? "true" : "false"); ev_arr("ids"); for (size_t k = 0; on[h] && k < n[h]; k++) ev_item(idof((char *)V[h].data + k * PG)); ev_arrend();
        ev_arr("vals"); for (size_t k = 0; on[h] && k < n[h]; k++) { unsigned char *p = (unsigned char *)V[h].data + k * PG; int v = -1; if (idof((char *)p)) { v = p[0]; for (size_t i = 0; i < PG; i++) if (p[i] != v) { v = -2; break; } } ev_item(v); } ev_arrend(); vp__puts("}");
        if (on[h] && V[h].size != (zpl_isize)(n[h] * PG)) ok = 0; }
    vp__puts("]"); ev_arr("live"); for (int i = 0; i < ntab; i++) ev_item(tab[i].id); ev_arrend(); ev_bool("size", ok); ev_bool("stray", stray); stray = 0; }
int main(int argc, char **argv) {
    vp_open(argc, argv); PG = sysconf(_SC_PAGESIZE);
    while (vp_next()) {
        if (is("seg")) { for (int i = 0; i < ntab; i++) munmap(tab[i].p, PG); ntab = 0; nextid = 0; memset(on, 0, sizeof on); deny = 0; vp_seg(); }
        else if (is("deny")) deny = 1;
        else if (is("pagesize")) { zpl_isize a = -1, p = zpl_virtual_memory_page_size(&a), q = zpl_virtual_memory_page_size(0); ev("pagesize"); ev_bool("ok", p == (zpl_isize)PG && q == p && a >= p && a % p == 0); ev_end(); }
        else if (is("wrap")) { zpl_virtual_memory v = zpl_vm((void *)(uintptr_t)au(1), ai(2)); ev("wrap"); ev_bool("ok", v.data == (void *)(uintptr_t)au(1) && v.size == ai(2)); ev_end(); }
        else {
            int h = ai(1), p = 0, cnt = 0, val = 0, al = 1, d = deny; zpl_b32 ok = 0; char op[16]; snprintf(op, sizeof op, "%s", vp_tok[0]);
            if (is("alloc")) { if (on[h]) { ev("stop"); ev_end(); continue; } cnt = ai(2); char *want = vp_ntok > 3 && on[ai(3)] ? (char *)V[ai(3)].data + (vp_ntok > 4 ? ai(4) * (long)PG : 0) : 0; zpl_virtual_memory v; LIB(v = zpl_vm_alloc(want, cnt * (zpl_isize)PG)); ok = v.data != 0; if (ok) { V[h] = v; on[h] = 1; n[h] = cnt; al = (uintptr_t)v.data % PG == 0; } }
            else if (is("fill")) { p = ai(2); val = ai(3); if (!on[h] || p >= (int)n[h]) { ev("stop"); ev_end(); continue; } char *q = (char *)V[h].data + p * PG; if (idof(q)) memset(q, val, PG); }
            else if (is("trim")) { p = ai(2); cnt = ai(3); char *old = V[h].data; if (!on[h] || (size_t)(p + cnt) > n[h]) { ev("stop"); ev_end(); continue; } LIB(V[h] = zpl_vm_trim(V[h], p * (zpl_isize)PG, cnt * (zpl_isize)PG)); n[h] = cnt; ok = V[h].data == old + p * PG; }
            else if (is("purge")) { if (!on[h]) { ev("stop"); ev_end(); continue; } LIB(ok = zpl_vm_purge(V[h])); }
            else if (is("free")) { if (!on[h]) { ev("stop"); ev_end(); continue; } LIB(ok = zpl_vm_free(V[h])); if (ok) on[h] = 0; }
            else vp_bad();
            deny = 0; ev(op); ev_int("h", h); ev_int("p", p); ev_int("n", cnt); ev_int("v", val); ev_bool("ok", ok != 0); ev_bool("deny", d); ev_bool("aligned", al); world(); ev_end();
        }
    }
    return 0;
}
