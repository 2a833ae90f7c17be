/* Wall-clock shim: interposes the realtime clock so that the harness can freeze and advance it.
   Inactive (passes through) until vt_set() is called. CLOCK_MONOTONIC is never touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static volatile int64_t vt_now = -1;
void vt_set(int64_t ns) { vt_now = ns; }
void vt_advance(int64_t ns) { if (vt_now >= 0) vt_now += ns; }
int64_t vt_get(void) { return vt_now; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (vt_now >= 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = vt_now / 1000000000LL; ts->tv_nsec = vt_now % 1000000000LL; return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
