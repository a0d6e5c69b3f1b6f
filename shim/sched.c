/* Schedule perturbation for a multi-threaded program (LD_PRELOAD).
 *  - a ticker thread picks threads at random and makes them sleep wherever they are (signal handler)
 *  - futex calls, thread starts and file opens are delayed at random
 * SCHED_SEED, SCHED_PERIOD_US (mean time between preemptions), SCHED_SLEEP_US (longest sleep), SCHED_CPU (run on this processor only), SCHED_LOG (file the event counts are written to)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256
static _Atomic int tids[MAXT];
static _Atomic int ntids;
static _Atomic unsigned long rstate;
static _Atomic long n_preempt, n_futex, n_start, n_open;
static long period = 150, longest = 1500;
static char logname[512];
static int active;
static long (*real_syscall)(long, ...);

static unsigned long rnd(void) {
    unsigned long x = atomic_fetch_add(&rstate, 0x9e3779b97f4a7c15UL) + 0x9e3779b97f4a7c15UL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9UL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebUL;
    return x ^ (x >> 31);
}

static void nap(long us) {
    int e = errno;
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    nanosleep(&t, 0);
    errno = e;
}

static __thread long not_before;
static long now_us(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
/* a thread runs for at least as long as it was made to sleep, so everything progresses */
static void handler(int sig) {
    (void)sig;
    long t = now_us();
    if (t < not_before) return;
    atomic_fetch_add(&n_preempt, 1);
    long d = rnd() % longest;
    nap(d);
    not_before = now_us() + d;
}

static void add_self(void) {
    int i = atomic_fetch_add(&ntids, 1);
    if (i < MAXT) tids[i] = (int)real_syscall(SYS_gettid);
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
struct start { void *(*f)(void *); void *a; };
static void *starter(void *p) {
    struct start s = *(struct start *)p;
    free(p);
    add_self();
    atomic_fetch_add(&n_start, 1);
    nap(rnd() % longest);
    return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!active) return real_create(t, at, f, a);
    struct start *s = malloc(sizeof *s);
    s->f = f; s->a = a;
    return real_create(t, at, starter, s);
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!real_syscall) real_syscall = dlsym(RTLD_NEXT, "syscall");
    if (active && n == SYS_futex && rnd() % 3 == 0) { atomic_fetch_add(&n_futex, 1); nap(rnd() % (longest / 4 + 1)); }
    return real_syscall(n, a, b, c, d, e, f);
}

int open64(const char *p, int fl, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    if (active) { atomic_fetch_add(&n_open, 1); nap(rnd() % longest); }
    return real(p, fl, m);
}

static void *ticker(void *p) {
    (void)p;
    sigset_t s;
    sigfillset(&s);
    pthread_sigmask(SIG_BLOCK, &s, 0);
    int pid = getpid();
    for (;;) {
        nap(rnd() % (2 * period) + 1);
        int n = ntids > MAXT ? MAXT : ntids;
        int t = tids[rnd() % n];
        if (t) real_syscall(SYS_tgkill, pid, t, SIGUSR1);
    }
    return 0;
}

__attribute__((constructor)) static void init(void) {
    unsetenv("LD_PRELOAD");
    real_syscall = dlsym(RTLD_NEXT, "syscall");
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    char *s = getenv("SCHED_SEED");
    rstate = s ? strtoul(s, 0, 10) : 1;
    if ((s = getenv("SCHED_PERIOD_US"))) period = atol(s) + 1;
    if ((s = getenv("SCHED_SLEEP_US"))) longest = atol(s) + 1;
    if ((s = getenv("SCHED_LOG"))) strncpy(logname, s, sizeof logname - 1);
    if ((s = getenv("SCHED_CPU"))) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(atoi(s), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = handler;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGUSR1, &sa, 0);
    add_self();
    pthread_t t;
    real_create(&t, 0, ticker, 0);
    pthread_detach(t);
    active = 1;
}

__attribute__((destructor)) static void done(void) {
    if (!logname[0]) return;
    FILE *f = fopen(logname, "w");
    if (!f) return;
    fprintf(f, "%ld %ld %ld %ld\n", (long)n_preempt, (long)n_futex, (long)n_start, (long)n_open);
    fclose(f);
}
