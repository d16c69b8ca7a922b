/* Preloaded: the real-time clock stands at WB_TIME (seconds since 1970), or
 * goes on by WB_STEP seconds every time it is read. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static int fixed(long long *t) {
    const char *s = getenv("WB_TIME");
    if (!s) return 0;
    static long long reads;
    const char *step = getenv("WB_STEP");
    *t = atoll(s) + (step ? atoll(step) * __atomic_fetch_add(&reads, 1, __ATOMIC_RELAXED) : 0);
    return 1;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    long long t;
    if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && fixed(&t)) {
        ts->tv_sec = t;
        ts->tv_nsec = 987654321;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    long long t;
    (void)tz;
    if (fixed(&t)) {
        tv->tv_sec = t;
        tv->tv_usec = 987654;
        return 0;
    }
    return (int)syscall(SYS_gettimeofday, tv, NULL);
}

time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
