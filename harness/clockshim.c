/* Another date for the code under test: LD_PRELOAD, then vp_clock(seconds) shifts the wall clock of this process only. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static long long shift;
void vp_clock(long long s) { shift = s; }
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (r == 0 && id == CLOCK_REALTIME) t->tv_sec += shift;
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
