// sched HARNESS VALUES: runs a harness natively, on real threads, in exactly the schedule that the file gives.
//
// The code is the module that the executor ran, compiled to machine code, with a call of sched_point before every
// atomic operation (see tools/sched.py). One thread runs at a time; a line "#sched A N B" says that thread A, having
// executed N synchronisation operations, makes way for thread B.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { RUNNABLE, FUTEX, JOIN, DONE };
enum { MAX = 8, FAILED = 101, ASSUMPTION = 77, DIVERGED = 78 };
static struct {
    int status, granted;
    unsigned long points;
    uintptr_t on;
    void (*f)(uintptr_t);
    uintptr_t arg;
} T[MAX];
static int count = 1, cur;
static __thread int me;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t moved = PTHREAD_COND_INITIALIZER;

static unsigned *values, nvalues, value_at;
static struct { int from, to; unsigned long n; } *sched;
static unsigned nsched, sched_at;
static unsigned trace[1 << 16], ntrace;

static void end(int rc, const char *why, const char *s, size_t n) {
    printf("%s %.*s\n", why, (int)n, s);
    fflush(stdout);
    _exit(rc);
}
static void wait_turn(void) {
    pthread_mutex_lock(&lock);
    while (cur != me) pthread_cond_wait(&moved, &lock);
    pthread_mutex_unlock(&lock);
}
static void hand_over(int t) {
    pthread_mutex_lock(&lock);
    T[t].granted = 1;
    cur = t;
    pthread_cond_broadcast(&moved);
    pthread_mutex_unlock(&lock);
}
static int due(void) {
    return sched_at < nsched && sched[sched_at].from == me && sched[sched_at].n == T[me].points;
}
static void follow(void) {
    int t = sched[sched_at++].to;
    if (t >= count || T[t].status != RUNNABLE) end(DIVERGED, "DIVERGED", "", 0);
    hand_over(t);
}
// The thread cannot or need not go on.
static void switch_away(void) {
    if (due()) {
        follow();
    } else {
        if (T[me].status == RUNNABLE) return;
        int t;
        for (t = 0; t < count && T[t].status != RUNNABLE; t++) {}
        if (t == count) end(FAILED, "FAILED", "deadlock", 8);
        hand_over(t);
    }
    if (T[me].status != DONE) wait_turn();
}
void sched_point(void) {
    if (count < 2) return;
    if (T[me].granted) {
        T[me].granted = 0;
    } else if (due()) {
        follow();
        wait_turn();
        T[me].granted = 0;
    }
    T[me].points++;
}
void sched_pause(void) {
    if (count > 1) switch_away();
}
int sched_yield(void) {
    switch_away();
    return 0;
}
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr != SYS_futex) {
        static long (*real)(long, ...);
        if (!real) real = dlsym(RTLD_NEXT, "syscall");
        return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    int op = a[1] & 0x7f;
    sched_point();
    if (op == 0 || op == 9) {
        if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) {
            errno = EAGAIN;
            return -1;
        }
        T[me].status = FUTEX;
        T[me].on = a[0];
        switch_away();
        return 0;
    }
    long k = 0, n = (uint32_t)a[2];
    for (int t = 0; t < count && k < n; t++)
        if (T[t].status == FUTEX && T[t].on == (uintptr_t)a[0]) {
            T[t].status = RUNNABLE;
            k++;
        }
    return k;
}
static void *start(void *p) {
    me = (int)(intptr_t)p;
    wait_turn();
    T[me].f(T[me].arg);
    T[me].status = DONE;
    for (int t = 0; t < count; t++)
        if (T[t].status == JOIN && T[t].on == (uintptr_t)me) T[t].status = RUNNABLE;
    switch_away();
    // never ends by itself: what the thread keeps for itself stays as it is, as in the executor
    for (;;) pause();
}
uint32_t sym_spawn(void (*f)(uintptr_t), uintptr_t arg) {
    pthread_t h;
    int t = count;
    if (t == MAX) abort();
    T[t].f = f;
    T[t].arg = arg;
    count++;
    if (pthread_create(&h, NULL, start, (void *)(intptr_t)t)) abort();
    return t;
}
void sym_join(uint32_t t) {
    if (T[t].status == DONE) return;
    T[me].status = JOIN;
    T[me].on = t;
    switch_away();
}

uint32_t sym_u32(uint32_t tag) {
    (void)tag;
    return value_at < nvalues ? values[value_at++] : 0;
}
void sym_assume(_Bool c) {
    if (!c) end(ASSUMPTION, "ASSUMPTION", "", 0);
}
uint32_t sym_below(uint32_t n) {
    uint32_t v = sym_u32(0);
    sym_assume(v < n);
    return v;
}
uint32_t sym_pick(uint32_t n) { return sym_below(n); }
void sym_assert(_Bool c, const char *p, size_t n) {
    if (!c) end(FAILED, "FAILED", p, n);
}
void sym_cover(_Bool c, const char *p, size_t n) { (void)c, (void)p, (void)n; }
void sym_trace(uint32_t v) {
    if (ntrace < sizeof trace / sizeof *trace) trace[ntrace++] = v;
}
void sym_on_panic(void *f, uintptr_t arg) { (void)f, (void)arg; }

int main(int argc, char **argv) {
    if (argc != 3) return 2;
    void (*h)(void) = dlsym(RTLD_DEFAULT, argv[1]);
    FILE *f = fopen(argv[2], "r");
    if (!h || !f) return 2;
    static char line[4096];
    values = malloc(sizeof *values << 16);
    sched = malloc(sizeof *sched << 16);
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "#sched %d %lu %d", &sched[nsched].from, &sched[nsched].n, &sched[nsched].to) == 3) {
            if (++nsched == 1 << 16) return 2;
        } else if (line[0] != '#') {
            for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n")) {
                if (nvalues == 1 << 16) return 2;
                values[nvalues++] = (unsigned)strtoul(p, NULL, 10);
            }
        }
    }
    fclose(f);
    h();
    if (sched_at != nsched) end(DIVERGED, "DIVERGED", "", 0);
    printf("TRACE [");
    for (unsigned i = 0; i < ntrace; i++) printf("%s%u", i ? ", " : "", trace[i]);
    printf("]\n");
    fflush(stdout);
    _exit(0);
}
