/* C19: the network server on the loopback network: every datagram taken and every timer tick is recorded in the order in which
   it reaches the reasoner; overlapping access, lost commands and hanging stops are reported; delays widen the races. */
#define _GNU_SOURCE
#include "hx.h"
#include "NetworkNAR/UDPNAR.h"
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <signal.h>
void hx_viol(const char *prop, const char *key, const char *fmt, ...);
void hx_count(const char *name, long n);
extern int usleep(unsigned);
static char ip[32]; static int port, delay_us = 0, spurious = 0;
static volatile int serving = 0;
static int inside = 0;          /* threads in the reasoner now (atomic) */
static long processed = 0, ticks = 0, sent = 0; /* atomic */
static __thread int in_line = 0;
static __thread unsigned long seed = 0;
static unsigned rnd(void)
{
    if(!seed) seed = (unsigned long) &seed ^ (unsigned long) getpid() * 2654435761ul;
    seed = seed * 6364136223846793005ul + 1442695040888963407ul;
    return (unsigned) (seed >> 33);
}
static void wobble(void) { if(delay_us && rnd() % 3 == 0) usleep(rnd() % delay_us); }
static long now_ns(void) { struct timespec t; clock_gettime(1, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
static void enter(const char *what)
{
    if(__atomic_add_fetch(&inside, 1, __ATOMIC_SEQ_CST) != 1) { char m[200]; snprintf(m, 200, "\n@@{\"k\":\"v\",\"p\":\"C19\",\"key\":\"overlap\",\"msg\":\"%s while another thread was in the reasoner\"}\n", what); fflush(stdout); if(write(1, m, strlen(m))) {} }
    wobble();
}
static void leave(void) { wobble(); __atomic_sub_fetch(&inside, 1, __ATOMIC_SEQ_CST); }

void __real_NAR_Cycles(int n);
void __wrap_NAR_Cycles(int n)
{
    if(!serving || in_line) { __real_NAR_Cycles(n); return; }
    enter("a timer cycle");
    printf("@@{\"k\":\"tick\",\"n\":%d,\"at\":%ld}\n", n, now_ns());
    __real_NAR_Cycles(n);
    printf("@@{\"k\":\"tock\",\"at\":%ld}\n", now_ns());
    leave();
    __atomic_add_fetch(&ticks, 1, __ATOMIC_SEQ_CST);
}
int __real_Shell_ProcessInput(char *line);
int __wrap_Shell_ProcessInput(char *line)
{
    if(!serving) return __real_Shell_ProcessInput(line);
    enter("a command");
    in_line = 1;
    printf("@@{\"k\":\"in\",\"line\":\"");
    for(const unsigned char *s = (unsigned char*) line; *s; s++) if(*s == '"' || *s == '\\') printf("\\%c", *s); else if(*s < 32 || *s > 126) printf("\\u%04x", *s); else putchar(*s);
    printf("\"}\n");
    int r = __real_Shell_ProcessInput(line);
    printf("@@{\"k\":\"done\"}\n");
    in_line = 0;
    leave();
    __atomic_add_fetch(&processed, 1, __ATOMIC_SEQ_CST);
    return r;
}
void __real_Shell_NARInit();
void __wrap_Shell_NARInit()
{
    if(!serving) { __real_Shell_NARInit(); return; }
    enter("a reset");
    printf("@@{\"k\":\"init\"}\n");
    in_line++;
    __real_Shell_NARInit();
    in_line--;
    leave();
}
void __real_UDP_ReceiveData(int fd, char *b, int n);
void __wrap_UDP_ReceiveData(int fd, char *b, int n)
{
    wobble();
    __real_UDP_ReceiveData(fd, b, n);
    wobble();
}
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if(spurious && rnd() % 2) { hx_count("spurious_wakeups", 1); pthread_mutex_unlock(m); pthread_mutex_lock(m); return 0; } /* POSIX allows it */
    return __real_pthread_cond_wait(c, m);
}
static void stuck(int s)
{
    static const char m[] = "\n@@{\"k\":\"v\",\"p\":\"C19\",\"key\":\"stop-hangs\",\"msg\":\"UDPNAR_Start or UDPNAR_Stop did not return\"}\n";
    if(write(1, m, sizeof(m) - 1)) {}
    _exit(3);
}
static void watch(int secs) { signal(SIGALRM, stuck); struct itimerval v = {{0, 0}, {secs, 0}}; setitimer(ITIMER_REAL, &v, NULL); }
static int socks[4], lost = 0;
int hx_command(char **f, int n)
{
    if(strcmp(f[0], "udp") || n < 2) return 0;
    if(!strcmp(f[1], "start") && n > 5)     /* timestep delay spurious volume */
    {
        snprintf(ip, 32, "127.%d.%d.1", 1 + getpid() % 250, 1 + (getpid() / 250) % 250);
        port = 20000 + getpid() % 20000;
        delay_us = atoi(f[3]); spurious = atoi(f[4]);
        PRINT_DERIVATIONS = atoi(f[5]);
        for(int i=0; i<4; i++) if(!socks[i]) socks[i] = UDP_INIT_Sender();
        printf("@@{\"k\":\"start\",\"pd\":%d}\n", PRINT_DERIVATIONS);
        fflush(stdout);
        sent = processed = ticks = 0;
        serving = 1;
        watch(40);
        UDPNAR_Start(ip, port, atol(f[2]));
        watch(0);
    }
    else if(!strcmp(f[1], "send") && n > 3)
    {
        sent++;
        UDP_SendData(socks[atoi(f[2])], ip, port, f[3], strlen(f[3]) + (n > 4 && atoi(f[4])));
    }
    else if(!strcmp(f[1], "long") && n > 3)   /* a comment of this many characters */
    {
        static char big[70000];
        int len = atoi(f[3]);
        memset(big, 'a' + len % 26, len);
        big[0] = big[1] = '/';
        sent++;
        UDP_SendData(socks[atoi(f[2])], ip, port, big, len);
    }
    else if(!strcmp(f[1], "pause") && n > 2) usleep(atoi(f[2]));
    else if(!strcmp(f[1], "wait"))
    {
        long last = -1;
        for(int i=0; i<15000 && !lost && __atomic_load_n(&processed, __ATOMIC_SEQ_CST) < sent; i++)
        {
            long p = __atomic_load_n(&processed, __ATOMIC_SEQ_CST);
            if(p != last) { last = p; i = 0; }
            usleep(1000);
            if(i == 14999) lost = 1; /* the check finds it in the record */
        }
    }
    else if(!strcmp(f[1], "idle") && n > 2)
    {
        long t = __atomic_load_n(&ticks, __ATOMIC_SEQ_CST) + atoi(f[2]);
        int i;
        for(i=0; i<30000 && __atomic_load_n(&ticks, __ATOMIC_SEQ_CST) < t; i++) usleep(1000);
        if(i == 30000) stuck(0);
    }
    else if(!strcmp(f[1], "stop"))
    {
        watch(40);
        UDPNAR_Stop();
        watch(0);
        serving = 0;
        long a = __atomic_load_n(&processed, __ATOMIC_SEQ_CST), b = __atomic_load_n(&ticks, __ATOMIC_SEQ_CST);
        usleep(3000);
        if(a != __atomic_load_n(&processed, __ATOMIC_SEQ_CST) || b != __atomic_load_n(&ticks, __ATOMIC_SEQ_CST) || __atomic_load_n(&inside, __ATOMIC_SEQ_CST))
            hx_viol("C19", "runs-on", "the server was still working after it was stopped");
        printf("@@{\"k\":\"stop\",\"sent\":%ld}\n", sent);
    }
    /* the recorded order again, on one thread */
    else if(!strcmp(f[1], "again") && n > 2) { __real_Shell_NARInit(); PRINT_DERIVATIONS = atoi(f[2]); }
    else if(!strcmp(f[1], "tick")) __real_NAR_Cycles(1);
    else return 0;
    return 1;
}
