/* Preloaded into one command: the wall clock is VH_CLOCK seconds off. For C28. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long shift;

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("VH_CLOCK");
    shift = s ? atol(s) : 0;
    unsetenv("LD_PRELOAD");
    unsetenv("VH_CLOCK");
}

int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) t->tv_sec += shift;
    return r;
}

int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    (void)z;
    if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    if (t != 0) {
        t->tv_sec = s.tv_sec;
        t->tv_usec = s.tv_nsec / 1000;
    }
    return 0;
}

time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
