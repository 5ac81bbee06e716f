/* Preset clock for mjdnow. */
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long long now(void) { const char *s = getenv("FAKE_TIME"); return s ? atoll(s) : 0; }
time_t time(time_t *t) { time_t n = (time_t)now(); if (t) *t = n; return n; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; tv->tv_sec = now(); tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
