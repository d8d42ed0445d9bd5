/* Preloaded: the system clock says VK_CLOCK (seconds and nanoseconds). */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include <sys/timeb.h>

static void now(long long *s, long *ns)
{
  const char *e = getenv("VK_CLOCK");
  *s = 0; *ns = 0;
  if (e) sscanf(e, "%lld.%ld", s, ns);
}
time_t time(time_t *t) { long long s; long n; now(&s, &n); if (t) *t = s; return s; }
int gettimeofday(struct timeval *restrict tv, void *restrict z) { long long s; long n; now(&s, &n); if (tv) { tv->tv_sec = s; tv->tv_usec = n / 1000; } return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { long long s; long n; now(&s, &n); ts->tv_sec = s; ts->tv_nsec = n; return 0; }
int timespec_get(struct timespec *ts, int base) { long long s; long n; now(&s, &n); ts->tv_sec = s; ts->tv_nsec = n; return base; }
int ftime(struct timeb *b) { long long s; long n; now(&s, &n); b->time = s; b->millitm = n / 1000000; b->timezone = b->dstflag = 0; return 0; }
