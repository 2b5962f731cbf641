/* clocks: the system's clocks and its sleep are a clock of the script's own */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
static struct timespec real_now, mono_now; static long cut[16]; static int ncut, icut, badreq; static long long total;
static void go(struct timespec *t, long long ns) { t->tv_sec += ns / 1000000000; t->tv_nsec += ns % 1000000000; if (t->tv_nsec >= 1000000000) { t->tv_sec++; t->tv_nsec -= 1000000000; } }
static int vp_clock_gettime(clockid_t c, struct timespec *t) { *t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? real_now : mono_now; return 0; }
static int vp_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = real_now.tv_sec; t->tv_usec = real_now.tv_nsec / 1000; return 0; }
static time_t vp_time(time_t *t) { if (t) *t = real_now.tv_sec; return real_now.tv_sec; }
static int vp_sleep_ns(long long ns, struct timespec *rem) {
    long long k = ns; int stop = 0; if (icut < ncut) { if (cut[icut] * 1000000ll < ns) { k = cut[icut] * 1000000ll; stop = 1; } icut++; }
    go(&real_now, k); go(&mono_now, k); total += k;
    if (stop) { if (rem) { rem->tv_sec = (ns - k) / 1000000000; rem->tv_nsec = (ns - k) % 1000000000; } errno = EINTR; return -1; } return 0; }
static int vp_nanosleep(const struct timespec *q, struct timespec *rem) { if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec > 999999999) { badreq = 1; errno = EINVAL; return -1; } return vp_sleep_ns(q->tv_sec * 1000000000ll + q->tv_nsec, rem); }
static int vp_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem) {
    if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec > 999999999) { badreq = 1; return EINVAL; }
    long long ns = q->tv_sec * 1000000000ll + q->tv_nsec; if (fl & TIMER_ABSTIME) { struct timespec t; vp_clock_gettime(c, &t); ns -= t.tv_sec * 1000000000ll + t.tv_nsec; if (ns <= 0) return 0; rem = 0; }
    return vp_sleep_ns(ns, rem) ? EINTR : 0; }
static int vp_usleep(useconds_t us) { return vp_sleep_ns(us * 1000ll, 0); }
#define clock_gettime vp_clock_gettime
#define gettimeofday vp_gettimeofday
#define time(t) vp_time(t)
#define nanosleep vp_nanosleep
#define clock_nanosleep vp_clock_nanosleep
#define usleep vp_usleep
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#undef time
#include "vp.h"
#define DAY 86400000ull
static void put(zpl_u64 v) { zpl_u64 d = v / DAY; ev_int("d", d > 100000000 ? -1 : (long)d); ev_int("ms", (long)(v % DAY)); }
static int same(double s, zpl_u64 ms) { return s * 1000 > (double)ms - .25 && s * 1000 < (double)ms + .25; }
static void set(struct timespec *t) { long long d = ai(1), ms = ai(2), ns = vp_ntok > 3 ? ai(3) : 0; t->tv_sec = d * 86400 + ms / 1000; t->tv_nsec = ms % 1000 * 1000000 + ns; }
#define START 5123
int main(int argc, char **argv) {
    vp_open(argc, argv);
    mono_now.tv_sec = START; mono_now.tv_nsec = 789 * 1000000; int first = zpl_time_rel_ms() == 0;
    while (vp_next()) {
        if (is("seg")) { memset(&real_now, 0, sizeof real_now); memset(&mono_now, 0, sizeof mono_now); setenv("TZ", "UTC0", 1); tzset(); vp_seg(); }
        else if (is("now")) { set(&real_now); ev("now"); ev_int("d", ai(1)); ev_int("ms", ai(2)); ev_end(); }
        else if (is("mono")) { set(&mono_now); ev("mono"); ev_int("d", ai(1)); ev_int("ms", ai(2)); ev_end(); }
        else if (is("zone")) { char *s = as(1); setenv("TZ", s, 1); tzset(); free(s); ev("zone"); ev_int("std", ai(2)); ev_int("dst", ai(3)); ev_bool("has", ai(4));
            for (int k = 0; k < 2; k++) { int b = 5 + 4 * k; ev_key(k ? "to" : "from"); vp__puts("{\"m\":"); vp__int(ai(b)); vp__puts(",\"w\":"); vp__int(ai(b + 1)); vp__puts(",\"wd\":"); vp__int(ai(b + 2)); vp__puts(",\"t\":"); vp__int(ai(b + 3)); vp__puts("}"); } ev_end(); }
        else if (is("utc")) { zpl_u64 v = zpl_time_utc_ms(); ev("utc"); put(v); ev_bool("ok", same(zpl_time_utc(), v) && same(zpl_utc_time_now(), v)); ev_end(); }
        else if (is("tz")) { zpl_u64 v = zpl_time_tz_ms(); ev("tz"); put(v); ev_bool("ok", same(zpl_time_tz(), v)); ev_end(); }
        else if (is("rel")) { zpl_u64 v = zpl_time_rel_ms(); ev("rel"); put(v); ev_int("sd", 0); ev_int("sms", START * 1000 + 789); ev_bool("ok", first && same(zpl_time_rel(), v) && same(zpl_time_now(), v)); ev_end(); }
        else if (is("win")) { zpl_u64 u = ai(1) * DAY + ai(2), w = zpl_time_unix_to_win32(u); ev("win"); put(u); ev_int("rd", (long)(w / DAY)); ev_int("rms", (long)(w % DAY)); ev_bool("ok", zpl_time_win32_to_unix(w) == u); ev_end(); }
        else if (is("sleep") || is("sleepf")) { zpl_u64 ms = au(1); total = 0; badreq = icut = ncut = 0; for (int k = 2; k < vp_ntok; k++) cut[ncut++] = ai(k);
            if (is("sleep")) zpl_sleep_ms((zpl_u32)ms); else zpl_sleep((zpl_f32)ms / 1000);
            ev("sleep"); put(total / 1000000); ev_int("wd", (long)(ms / DAY)); ev_int("wms", (long)(ms % DAY)); ev_bool("ok", !badreq && icut >= 0); ev_end(); }
        else vp_bad();
    }
    return 0;
}
