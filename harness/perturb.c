/* LD_PRELOAD: everything a deterministic program must not look at answers differently */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <string.h>
#include <stdint.h>
#include <dlfcn.h>
#include <stdio.h>
static unsigned long k(void) { static unsigned long s = 0; if(!s) { char *e = getenv("PERTURB"); s = e ? strtoul(e, NULL, 10) : 77; } return s = s * 6364136223846793005ul + 1442695040888963407ul; }
time_t time(time_t *t) { time_t v = (time_t) (k() >> 34); if(t) *t = v; return v; }
clock_t clock(void) { return (clock_t) (k() >> 40); }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = k() >> 34; tv->tv_usec = k() % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = k() >> 34; ts->tv_nsec = k() % 1000000000; return 0; }
int rand(void) { return (int) (k() >> 33); }
long random(void) { return (long) (k() >> 33); }
double drand48(void) { return (k() >> 11) * 0x1.0p-53; }
long lrand48(void) { return (long) (k() >> 33); }
pid_t getpid(void) { return (pid_t) (k() >> 50); }
pid_t getppid(void) { return (pid_t) (k() >> 50); }
/* fresh memory has arbitrary content, and lies somewhere else */
void *malloc(size_t n)
{
    static void *(*real)(size_t) = NULL;
    if(!real) real = (void *(*)(size_t)) dlsym(RTLD_NEXT, "malloc");
    char *p = real(n + 64);
    if(p) memset(p, (int) (k() >> 56), n);
    return p;
}
