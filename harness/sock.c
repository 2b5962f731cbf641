/* Sockets over loopback.  Handles are small numbers; ports appear as tokens. */
#define ZPL_IMPLEMENTATION
#define ZPL_ENABLE_SOCKET
#include "zpl.h"
#include "vp.h"
#include <pthread.h>
#include <dirent.h>
#include <time.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
static int H[10], NB[10], PROTO[10], base, fam; static zpl_socket_addr last; static int last_tok;
static struct { int proto, port; zpl_socket_addr a; } tok[256]; static int ntok;
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static int port_of(const void *a) { const struct sockaddr *s = (const struct sockaddr *)a; return s->sa_family == AF_INET ? ntohs(((const struct sockaddr_in *)a)->sin_port) : s->sa_family == AF_INET6 ? ntohs(((const struct sockaddr_in6 *)a)->sin6_port) : -1; }
static int token(int proto, int port, const void *a) { for (int i = 1; i <= ntok; i++) if (tok[i].proto == proto && tok[i].port == port) return i; if (port <= 0 || ntok > 250) return 0; ntok++; tok[ntok].proto = proto; tok[ntok].port = port; if (a) memcpy(&tok[ntok].a, a, sizeof tok[0].a); return ntok; }
static int same_host(const void *p, const void *q) { const struct sockaddr *a = (const struct sockaddr *)p, *b = (const struct sockaddr *)q; return a->sa_family == b->sa_family && (a->sa_family == AF_INET ? ((const struct sockaddr_in *)p)->sin_addr.s_addr == ((const struct sockaddr_in *)q)->sin_addr.s_addr || !((const struct sockaddr_in *)p)->sin_addr.s_addr : a->sa_family == AF_INET6 ? !memcmp(&((const struct sockaddr_in6 *)p)->sin6_addr, &((const struct sockaddr_in6 *)q)->sin6_addr, 16) : 1); }
/* the address one bind with no host has stands for every interface */
static int any_host(int fd) { zpl_socket_addr a; memset(&a, 0, sizeof a); socklen_t n = sizeof a; if (getsockname(fd, (struct sockaddr *)&a, &n)) return 0; for (int i = ((struct sockaddr *)&a)->sa_family == AF_INET ? 4 : 8, k = 0; k < (((struct sockaddr *)&a)->sa_family == AF_INET ? 4 : 16); k++) if (a.data[i + k]) return 0; return 1; }
/* a whole address as it was handed out */
static int known_addr(int proto, const zpl_socket_addr *a) { int port = port_of(a); for (int i = 1; i <= ntok; i++) if (tok[i].proto == proto && tok[i].port == port) return same_host(a, &tok[i].a) ? i : -5; return port <= 0 ? -1 : 0; }
static int mine(int fd, int proto) { zpl_socket_addr a; memset(&a, 0, sizeof a); socklen_t n = sizeof a; if (getsockname(fd, (struct sockaddr *)&a, &n)) return 0;
    if (fam == 2 && ((struct sockaddr *)&a)->sa_family == AF_INET && ((struct sockaddr_in *)&a)->sin_addr.s_addr == 0) ((struct sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); return token(proto, port_of(&a), &a); }
static void done(void) { ev_int("fds", nfds() - base); ev_end(); }
static long now_us(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
static void reset(void) { for (int i = 0; i < 10; i++) { if (H[i] > 0) close(H[i]); H[i] = -1; } ntok = 0; fam = 0; last_tok = 0; base = nfds(); }
struct bulk { int fd, n, chunk; unsigned seed; long done; unsigned sum; };
static unsigned byte_at(unsigned seed, long k) { return (unsigned char)(seed + k * 7 + (k >> 8) * 13 + (k >> 16)); }
static void *bulk_send(void *q) { struct bulk *b = (struct bulk *)q; char *buf = (char *)malloc(b->chunk); while (b->done < b->n) { int k = b->n - b->done < b->chunk ? (int)(b->n - b->done) : b->chunk; for (int i = 0; i < k; i++) buf[i] = (char)byte_at(b->seed, b->done + i); int r = zpl_socket_send(b->fd, buf, k); if (r <= 0) break; b->done += r; } free(buf); return 0; }
struct wake { int fd, r; char buf[256]; int n; };
static void *wake_recv(void *q) { struct wake *k = (struct wake *)q; k->r = 0; while (k->r < k->n) { int r = zpl_socket_receive(k->fd, k->buf + k->r, k->n - k->r); if (r <= 0) { k->r = r; break; } k->r += r; } return 0; }
static const char *bhost(void) { return fam == 0 ? "127.0.0.1" : fam == 1 ? "::1" : NULL; }
static const char *chost(void) { return fam == 1 ? "::1" : "127.0.0.1"; }
int main(int argc, char **argv) {
    vp_open(argc, argv); reset(); if (zpl_socket_init() != 0) return 4;
    while (vp_next()) {
        if (is("seg")) { reset(); vp_seg(); }
        else if (is("fam")) fam = (int)ai(1);
        else if (is("bind") || is("connect")) { /* proto id target flags(1 nonblocking, 2 no delay); bind: target handle whose port to take, -1 any; connect: target handle, -1 a port nobody listens on */
            int bind = is("bind"), udp = !strcmp(vp_tok[1], "udp"), i = (int)ai(2), t = (int)ai(3), fl = (int)ai(4), to = 0; char port[16] = "0";
            if (bind ? t >= 0 && t != i : t >= 0) { to = t >= 100 ? t - 100 : mine(H[t], PROTO[t]); snprintf(port, sizeof port, "%d", to ? tok[to].port : 1); } else if (!bind) strcpy(port, "1");
            char *pp = strdup(port), *hh = bind && !bhost() ? NULL : strdup(bind ? bhost() : chost());
            int s = zpl_socket_create(udp ? ZPL_SOCKET_UDP : ZPL_SOCKET_TCP, bind ? ZPL_SOCKET_BIND : ZPL_SOCKET_CONNECT, (char)fl, hh, pp); free(pp); free(hh);
            ev("create"); ev_int("i", i); ev_name("proto", udp ? "udp" : "tcp"); ev_name("mode", bind ? "bind" : "connect"); ev_bool("nb", fl & 1);
            int m = 0; if (s >= 0) { H[i] = s; NB[i] = fl & 1; PROTO[i] = udp; m = mine(s, udp); if (bind && fam == 2 && !any_host(s)) m = 0; int f = fcntl(s, F_GETFL); if (!!(f & O_NONBLOCK) != (fl & 1)) m = 0; if (!udp) { int nd = 0; socklen_t l = sizeof nd; getsockopt(s, IPPROTO_TCP, TCP_NODELAY, &nd, &l); if (!!nd != !!(fl & 2)) m = 0; } }
            ev_int("to", to); ev_bool("ok", s >= 0); ev_int("mine", m); done(); }
        else if (is("refuse")) { /* names nothing can resolve to */ int s = zpl_socket_create((int)ai(1), (int)ai(2), 0, ai(3) ? "127.0.0.1" : "a..b", ai(3) ? "no-such-service" : "80"); ev("refuse"); ev_bool("ok", s >= 0); done(); }
        else if (is("listen")) { int i = (int)ai(1), n = (int)ai(2); int r = zpl_socket_listen(H[i], n); ev("listen"); ev_int("i", i); ev_int("n", n); ev_int("r", r); done(); }
        else if (is("accept")) { int i = (int)ai(1), j = (int)ai(2); zpl_socket_addr a; memset(&a, 0, sizeof a); int s = zpl_socket_accept(H[i], ai(3) ? NULL : &a); ev("accept"); ev_int("i", i); ev_int("j", j); ev_bool("ok", s >= 0); if (s >= 0) { H[j] = s; NB[j] = 0; PROTO[j] = 0; } ev_int("from", s >= 0 && !ai(3) ? known_addr(0, &a) : -1); done(); }
        else if (is("address")) { /* and as text: what: 0 both, 1 host only, 2 service only */ int i = (int)ai(1), w = (int)ai(2); struct { zpl_socket_addr a; char g[64]; } b; memset(&b, 9, sizeof b); int r = zpl_socket_get_address(H[i], &b.a), m = r == 0 ? known_addr(PROTO[i], &b.a) : 0; for (int k = 0; k < 64; k++) if (b.g[k] != 9) m = -2;
            if (r == 0) { char host[100] = "", serv[64] = ""; r = zpl_socket_get_address_info(&b.a, w == 2 ? NULL : host, w == 2 ? 0 : sizeof host, w == 1 ? NULL : serv, w == 1 ? 0 : sizeof serv); if (r == EAI_AGAIN && w != 2) { /* no resolver here */ host[0] = '?'; r = zpl_socket_get_address_info(&b.a, NULL, 0, serv, sizeof serv); } if (r == 0 && w != 2 && !host[0]) r = 77; if (r == 0 && w != 1 && serv[0] >= '0' && serv[0] <= '9' && atoi(serv) != port_of(&b.a)) r = 78; }
            ev("address"); ev_int("i", i); ev_int("r", r); ev_int("mine", m); done(); }
        else if (is("send")) { int i = (int)ai(1); size_t n; unsigned char *d = ab(2, &n); int r = zpl_socket_send(H[i], (char *)d, (int)n); ev("send"); ev_int("i", i); ev_bytes("d", d, n); ev_int("r", r); done(); free(d); }
        else if (is("sendto") || is("reply")) { int i = (int)ai(1), rep = is("reply"), t = rep ? 0 : (int)ai(2); size_t n; unsigned char *d = ab(rep ? 2 : 3, &n); int to = rep ? last_tok : t >= 100 ? (t - 100 > ntok ? ntok : t - 100) : mine(H[t], 1); zpl_socket_addr a; if (rep) a = last; else a = tok[to].a; int r = zpl_socket_send_to(H[i], &a, (char *)d, (int)n); ev("sendto"); ev_int("i", i); ev_int("to", to); ev_bytes("d", d, n); ev_int("r", r); done(); free(d); }
        else if (is("recv") || is("recvfrom")) { int i = (int)ai(1), n = (int)ai(2), fr = is("recvfrom"), nul = fr && ai(3), want = !fr && vp_ntok > 3 ? (int)ai(3) : 0, all = 0, r; do { if (want) zpl_socket_select(H[i], 3); char *b = (char *)malloc(n); zpl_socket_addr a; memset(&a, 0, sizeof a); r = fr ? zpl_socket_receive_from(H[i], nul ? NULL : &a, b, n) : zpl_socket_receive(H[i], b, n);
            ev(vp_tok[0]); ev_int("i", i); ev_int("n", n); ev_int("r", r); ev_bytes("d", b, r > 0 ? r : 0); if (fr) { int k = r >= 0 && !nul ? known_addr(PROTO[i], &a) : -1; ev_int("from", r >= 0 && !nul && PROTO[i] == 1 && k <= 0 ? -9 : k); if (k > 0) { last = a; last_tok = k; } } done(); free(b); all += r; } while (want && r > 0 && all < want); }
        else if (is("select")) { static int missed; int ms = (int)ai(1); if (ms == 3000 && missed > 3) ms = 100; int n = vp_ntok - 2, s[16]; for (int k = 0; k < n; k++) s[k] = ai(2 + k) < 0 ? -1 : H[ai(2 + k)]; long t0 = now_us(); int r = n == 1 ? zpl_socket_select(s[0], ms / 1000.0) : zpl_socket_multi_select(s, n, ms / 1000.0); long el = (now_us() - t0) / 1000; if (r == 0 && ms == 3000) missed++; ev("select"); ev_int("ms", ms); ev_arr("s"); for (int k = 0; k < n; k++) ev_item(ai(2 + k)); ev_arrend(); ev_int("r", r); ev_int("el", el > 100000 ? 100000 : el); done(); }
        else if (is("close")) { int i = (int)ai(1); zpl_socket_close(H[i]); H[i] = -1; ev("close"); ev_int("i", i); done(); }
        else if (is("bulk")) { int i = (int)ai(1), j = (int)ai(2), n = (int)ai(3), cs = (int)ai(4), cr = (int)ai(5); struct bulk b = { H[i], n, cs, (unsigned)ai(6), 0, 0 }; pthread_t t; pthread_create(&t, 0, bulk_send, &b); long got = 0; int same = 1; char *buf = (char *)malloc(cr);
            while (got < n) { if (zpl_socket_select(H[j], 10) != 1) break; int r = zpl_socket_receive(H[j], buf, cr); if (r <= 0 || r > cr) break; for (int k = 0; k < r; k++) if ((unsigned char)buf[k] != byte_at(b.seed, got + k)) same = 0; got += r; }
            pthread_join(t, 0); free(buf); ev("bulk"); ev_int("i", i); ev_int("j", j); ev_int("n", n); ev_int("sent", b.done); ev_int("got", got); ev_bool("same", same); done(); }
        else if (is("wake")) { int i = (int)ai(1), j = (int)ai(2); size_t n; unsigned char *d = ab(3, &n); struct wake k; memset(&k, 0, sizeof k); k.fd = H[j]; k.n = (int)n; pthread_t t; pthread_create(&t, 0, wake_recv, &k); usleep((unsigned)ai(4)); size_t o = 0; while (o < n) { int r = zpl_socket_send(H[i], (char *)d + o, (int)(n - o)); if (r <= 0) break; o += r; } pthread_join(t, 0);
            ev("wake"); ev_int("i", i); ev_int("j", j); ev_bytes("d", d, n); ev_int("r", k.r); ev_bytes("e", k.buf, k.r > 0 ? k.r : 0); done(); free(d); }
        else vp_bad();
    }
    zpl_socket_terminate(); _exit(0);
}
