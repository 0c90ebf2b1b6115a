/* Controlled scheduler: one thread of the process runs at a time, and which one is decided at
 * every mutex, condition variable, thread and atomic operation of the library.
 *
 * The library is compiled with clang's thread-sanitizer instrumentation of atomic operations, but
 * linked with the entry points below instead of the sanitizer's runtime; pthread functions are
 * intercepted with ld --wrap.  A schedule is a function of (strategy, seed) alone.
 *
 * No runnable thread left = deadlock; more steps than allowed = no progress.  Both end the process. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);

enum { RUN, LOCK, WAIT, JOIN, DONE };
typedef struct Th {
    int id, st;
    const void *obj;
    int go;                     /* futex: 1 = this thread has the baton */
    uint32_t prio;
    pthread_t tid;
    void *(*fn)(void *);
    void *arg;
    long steps;
} Th;
#define MAXT 300
static Th th[MAXT];
static int nth;
static __thread Th *me;
static volatile int on;
static uint64_t rs;
static char strat;
static int spurious;
static long steps, maxsteps, switches, nsig, lostsig, nspur;
static long change[64];
static int nchange, victim;
static uint32_t lowprio;

#define MAXO 8192
static struct { const void *p; Th *owner; } mx[MAXO];
static int nmx;

static uint32_t rnd(void) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (uint32_t)((rs * 0x2545F4914F6CDD1Dull) >> 32);
}

static void fwait(Th *t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void fwake(Th *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static void stuck(const char *what) {
    fprintf(stderr, "%s after %ld steps:", what, steps);
    for (int i = 0; i < nth; i++) {
        static const char *const nm[] = { "runnable", "wants mutex", "waits on condition", "joins thread", "finished" };
        if (th[i].st != DONE) fprintf(stderr, " thread %d %s;", i, nm[th[i].st]);
    }
    fprintf(stderr, "\n");
    fflush(stderr);
    _exit(strcmp(what, "deadlock") ? 96 : 97);
}

static Th *pick(void) {
    Th *c[MAXT]; int n = 0;
    if (spurious && !(rnd() & 127)) { /* POSIX allows a condition wait to return at any time */
        int k = 0; Th *w[MAXT];
        for (int i = 0; i < nth; i++) if (th[i].st == WAIT) w[k++] = &th[i];
        if (k) { w[rnd() % k]->st = RUN; nspur++; }
    }
    for (int i = 0; i < nth; i++) if (th[i].st == RUN) c[n++] = &th[i];
    if (!n) return NULL;
    const int mine = me && me->st == RUN;
    switch (strat) {
    default:
    case 'r': return c[rnd() % n];
    case 'w': return mine && (rnd() & 7) ? me : c[rnd() % n];
    case 'l': return mine && (rnd() & 63) ? me : c[rnd() % n];
    case 's': { /* one thread hardly ever runs */
        if (mine && me->id != victim && (rnd() & 7)) return me;
        Th *t = c[rnd() % n];
        if (t->id == victim && n > 1 && (rnd() & 255)) { do t = c[rnd() % n]; while (t->id == victim); }
        return t; }
    case 'p': {
        for (int i = 0; i < nchange; i++)
            if (steps == change[i] && mine) me->prio = --lowprio;
        Th *b = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
        return b; }
    }
}

/* hand the baton on; returns when this thread has it again */
static void yield_(void) {
    Th *const self = me;
    if (++steps > maxsteps) stuck("no progress");
    Th *t = pick();
    if (!t) stuck("deadlock");
    if (t == self) return;
    switches++;
    fwake(t);
    if (self->st != DONE) fwait(self);
}
static inline void point(void) { if (on && me) yield_(); }

static int mfind(const void *p) {
    for (int i = nmx - 1; i >= 0; i--) if (mx[i].p == p) return i;
    if (nmx == MAXO) { fprintf(stderr, "scheduler: too many mutexes\n"); _exit(95); }
    mx[nmx].p = p; mx[nmx].owner = NULL;
    return nmx++;
}
static void mforget(const void *p) {
    for (int i = 0; i < nmx; i++) if (mx[i].p == p) { mx[i] = mx[--nmx]; return; }
}
static void lock_(const void *m) {
    int k;
    while (mx[k = mfind(m)].owner) {
        if (mx[k].owner == me) { me->st = LOCK; me->obj = m; }   /* locked twice */
        me->st = LOCK; me->obj = m;
        yield_();
    }
    mx[k].owner = me;
}
static void unlock_(const void *m) {
    mx[mfind(m)].owner = NULL;
    for (int i = 0; i < nth; i++) if (th[i].st == LOCK && th[i].obj == m) th[i].st = RUN;
}

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (on) mforget(m); return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (on) mforget(m); return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if (on) for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].obj == c) stuck("condition destroyed in use");
    return on ? 0 : __real_pthread_cond_destroy(c);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on || !me) return __real_pthread_mutex_lock(m);
    point();
    lock_(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on || !me) return __real_pthread_mutex_unlock(m);
    if (mx[mfind(m)].owner != me) stuck("mutex unlocked by another thread");
    unlock_(m);
    point();
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on || !me) return __real_pthread_cond_wait(c, m);
    if (mx[mfind(m)].owner != me) stuck("condition wait without the mutex");
    unlock_(m);
    me->st = WAIT; me->obj = c;
    yield_();
    lock_(m);
    return 0;
}
static void wake_(const void *c, int all) {
    Th *w[MAXT]; int n = 0;
    for (int i = 0; i < nth; i++) if (th[i].st == WAIT && th[i].obj == c) w[n++] = &th[i];
    nsig++;
    if (!n) { lostsig++; return; }
    if (all) for (int i = 0; i < n; i++) w[i]->st = RUN;
    else w[rnd() % n]->st = RUN;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!on || !me) return __real_pthread_cond_signal(c);
    point();
    wake_(c, 0);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!on || !me) return __real_pthread_cond_broadcast(c);
    point();
    wake_(c, 1);
    return 0;
}

static void *start(void *a) {
    Th *const t = a;
    me = t;
    fwait(t);
    void *const r = t->fn(t->arg);
    t->st = DONE;
    for (int i = 0; i < nth; i++) if (th[i].st == JOIN && th[i].obj == t) th[i].st = RUN;
    yield_();
    me = NULL;
    return r;
}
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!on || !me) return __real_pthread_create(p, a, fn, arg);
    if (nth == MAXT) return EAGAIN;
    Th *const t = &th[nth];
    memset(t, 0, sizeof *t);
    t->id = nth; t->fn = fn; t->arg = arg; t->st = RUN; t->prio = (rnd() >> 1) | 0x40000000u;
    const int r = __real_pthread_create(&t->tid, a, start, t);
    if (r) return r;
    nth++;
    *p = t->tid;
    point();
    return 0;
}
int __wrap_pthread_join(pthread_t p, void **r) {
    if (!on || !me) return __real_pthread_join(p, r);
    point();
    for (int i = 0; i < nth; i++)
        if (pthread_equal(th[i].tid, p) && i) {
            while (th[i].st != DONE) { me->st = JOIN; me->obj = &th[i]; yield_(); }
            break;
        }
    return __real_pthread_join(p, r);
}

void sched_enable(uint64_t seed, const char *strategy, long max) {
    rs = (seed + 1) * 0x9E3779B97F4A7C15ull; if (!rs) rs = 1;
    for (int i = 0; i < 8; i++) rnd();
    strat = strategy[0];
    spurious = strchr(strategy, 'x') != NULL;
    maxsteps = max;
    nth = 1;
    memset(&th[0], 0, sizeof th[0]);
    th[0].tid = pthread_self(); th[0].st = RUN; th[0].prio = (rnd() >> 1) | 0x40000000u;
    me = &th[0];
    lowprio = 0x3fffffff;
    nchange = strat == 'p' ? 1 + rnd() % 24 : 0;
    static const int span[] = { 300, 2000, 8000, 40000 };
    const int sp = span[rnd() % 4];
    for (int i = 0; i < nchange; i++) change[i] = 1 + rnd() % sp;
    victim = rnd() % 4;
    on = 1;
}
void sched_disable(void) { on = 0; me = NULL; }
void sched_stats(char *b, size_t n) {
    snprintf(b, n, "{\"steps\":%ld,\"switches\":%ld,\"threads\":%d,\"signals\":%ld,\"unheard\":%ld,\"spurious\":%ld}", steps, switches, nth, nsig, lostsig, nspur);
}

/* ---------------------------------------------------------------- atomics */
#define ATOMICS(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int mo) { (void)mo; point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { (void)mo; point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); point(); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; point(); const T o = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); point(); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
