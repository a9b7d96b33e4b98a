#define _GNU_SOURCE
#include "simsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <limits.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <sanitizer/common_interface_defs.h>

void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

sim_thread *sim_cur = NULL;
int64_t sim_now = 0;
uint64_t sim_seed = 1;
bool sim_active = false;
int64_t sim_limit = 0; // virtual time limit
void (*sim_on_fatal)(void) = NULL;
static sim_thread *threads[MAXT];
static int nthreads = 0;
static uint64_t rng = 88172645463325252ull;
static int trace_fd = -1;
static long steps = 0;
static long events = 0;

// strategy
static int strat = 0;          // 0 random walk, 1 pct, 2 sticky
static unsigned switch_den = 4;
static long preempt_in = 1L << 60;
static long preempt_mean = 0;
static int64_t bb_since_sched = 0;
static bool early_timers = false;

uint64_t sim_rand(void) {
    rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t sim_rand_n(uint64_t n) { return n == 0 ? 0 : sim_rand() % n; }
bool sim_chance(unsigned num, unsigned den) { return sim_rand_n(den) < num; }
long sim_steps(void) { return steps; }

void sim_open_trace(const char *path) {
    trace_fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (trace_fd < 0) { perror("trace"); _exit(3); }
}
static void out(const char *b, size_t n) {
    while (n > 0) {
        ssize_t w = syscall(SYS_write, trace_fd, b, n);
        if (w <= 0) return;
        b += w; n -= (size_t) w;
    }
}
void ev(const char *fmt, ...) {
    char buf[8192];
    int n = snprintf(buf, sizeof buf, "{\"t\":%lld,", (long long) (sim_now > 2000000000 ? 2000000000 : sim_now));
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(buf + n, sizeof buf - (size_t) n - 4, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof buf - 4) n = sizeof buf - 4;
    buf[n++] = '}';
    buf[n++] = '\n';
    out(buf, (size_t) n);
    if (++events > 200000) { out("{\"t\":0,\"ev\":\"anomaly\",\"kind\":\"events\"}\n", 40); _exit(0); }
}
void sim_fatal(const char *kind, const char *fmt, ...) {
    char msg[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    ev("\"ev\":\"anomaly\",\"kind\":\"%s\",\"msg\":\"%s\"", kind, msg);
    fprintf(stderr, "SIMFATAL %s %s\n", kind, msg);
    for (int i = 0; i < nthreads; i++) {
        sim_thread *t = threads[i];
        if (t->state != 2)
            fprintf(stderr, "  thread %d %s state=%d deadline=%lld\n", t->id, t->name, t->state, (long long) t->deadline);
    }
    if (sim_on_fatal) sim_on_fatal();
    _exit(0);
}
static void on_death(void) {
    if (!sim_active && sim_cur == NULL) return;
    ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"\"");
    _exit(0);
}
static void on_signal(int sig) {
    ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"signal %d\"", sig);
    _exit(0);
}
static void on_alarm(int sig) {
    (void) sig;
    ev("\"ev\":\"anomaly\",\"kind\":\"spin\",\"msg\":\"cpu\"");
    _exit(0);
}

const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=8";
}

static void fut_wait(int *f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fut_post(int *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

void sim_cpu_limit(int seconds) {
    struct itimerval it = {{0, 0}, {seconds, 0}};
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}
void sim_init(uint64_t seed, const char *strategy) {
    sim_seed = seed;
    rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 4; i++) sim_rand();
    __sanitizer_set_death_callback(on_death);
    // dispositions and the mask are inherited from the parent (nohup ignores SIGHUP)
    int own[] = {SIGHUP, SIGINT, SIGTERM, SIGPIPE, SIGQUIT, SIGUSR1, SIGUSR2, SIGALRM};
    for (unsigned i = 0; i < sizeof own / sizeof own[0]; i++) signal(own[i], SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, NULL);
    signal(SIGFPE, on_signal);
    signal(SIGABRT, on_signal);
    signal(SIGVTALRM, on_alarm);
    // a run takes milliseconds; this is cpu time, not wall clock
    sim_cpu_limit(12);
    if (strcmp(strategy, "rr") == 0) {
        strat = 2;
    } else if (strcmp(strategy, "mix") == 0) {
        strat = (int) sim_rand_n(3);
    } else if (strcmp(strategy, "pct") == 0) {
        strat = 1;
    }
    switch_den = 2 + (unsigned) sim_rand_n(6);
    preempt_mean = (long[]){0, 20, 200, 2000}[sim_rand_n(4)];
    if (strat == 2) preempt_mean = 0;
    if (preempt_mean) preempt_in = 1 + (long) sim_rand_n((uint64_t) preempt_mean * 2);
    early_timers = strat != 2 && sim_chance(1, 3);
    sim_thread *t = __real_calloc(1, sizeof *t);
    t->id = 0;
    t->real = pthread_self();
    t->deadline = -1;
    t->prio = 1000;
    snprintf(t->name, sizeof t->name, "main");
    threads[nthreads++] = t;
    sim_cur = t;
    sim_active = true;
}

// signals are delivered to the main thread, like the kernel does
static unsigned pending_signals = 0;
bool sim_signals_enabled = false;
static bool deliverable(sim_thread *t) { return t->id == 0 && pending_signals != 0 && sim_signals_enabled; }
static void deliver(void) {
    while (deliverable(sim_cur)) {
        int sig = __builtin_ctz(pending_signals);
        pending_signals &= ~(1u << sig);
        int saved = errno;
        raise(sig);
        errno = saved;
    }
}
void sim_signal_main(int sig) { pending_signals |= 1u << sig; }

static bool is_ready(sim_thread *t) {
    if (t->state == 0) return true;
    if (deliverable(t)) return true;
    if (t->state == 1 && t->ready && t->ready(t->arg)) return true;
    return false;
}

static void switch_to(sim_thread *n) {
    sim_thread *me = sim_cur;
    bb_since_sched = 0;
    if (n == me) return;
    sim_cur = n;
    fut_post(&n->futex);
    if (me->state == 2) return;
    fut_wait(&me->futex);
}

static int timers_idle = 0;
// picks next thread to run; may advance the clock
static sim_thread *pick(bool voluntary) {
    if (++steps > 3000000) sim_fatal("spin", "too many scheduling steps");
    for (;;) {
        sim_thread *cand[MAXT];
        int n = 0;
        int64_t min = -1;
        for (int i = 0; i < nthreads; i++) {
            sim_thread *t = threads[i];
            if (t->state == 2) continue;
            if (is_ready(t)) {
                cand[n++] = t;
            } else if (t->deadline >= 0 && (min < 0 || t->deadline < min)) {
                min = t->deadline;
            }
        }
        bool fire = n == 0;
        if (!fire && early_timers && min >= 0 && min <= sim_now + 200 && sim_chance(1, 400)) fire = true;
        if (fire) {
            if (min < 0) sim_fatal("deadlock", "no runnable thread and no timer");
            if (min > sim_now) sim_now = min;
            if (sim_limit > 0 && sim_now > sim_limit) sim_fatal("hang", "virtual time limit");
            for (int i = 0; i < nthreads; i++) {
                sim_thread *t = threads[i];
                if (t->state == 1 && t->deadline >= 0 && t->deadline <= sim_now && !is_ready(t)) {
                    t->timed_out = true;
                    t->state = 0;
                    t->deadline = -1;
                }
            }
            if (++timers_idle > 2000000) sim_fatal("hang", "timers only");
            continue;
        }
        sim_thread *best = NULL;
        switch (strat) {
            case 0:
                if (voluntary && sim_cur->state == 0 && !sim_chance(1, switch_den)) return sim_cur;
                return cand[sim_rand_n((uint64_t) n)];
            case 1:
                for (int i = 0; i < n; i++)
                    if (best == NULL || cand[i]->prio > best->prio) best = cand[i];
                // change points
                if (sim_chance(1, 40)) {
                    best->prio = -(long) steps;
                    best = NULL;
                    for (int i = 0; i < n; i++)
                        if (best == NULL || cand[i]->prio > best->prio) best = cand[i];
                }
                // do not starve actors polling the others
                if (sim_chance(1, 200)) best = cand[sim_rand_n((uint64_t) n)];
                return best;
            default:
                if (voluntary && sim_cur->state == 0 && !sim_chance(1, 16)) return sim_cur;
                return cand[sim_rand_n((uint64_t) n)];
        }
    }
}

void sim_yield(void) {
    if (!sim_active) return;
    sim_thread *n = pick(true);
    if (n->state == 1) { n->state = 0; n->deadline = -1; n->timed_out = false; }
    switch_to(n);
    if (deliverable(sim_cur)) deliver();
}

bool sim_block(bool (*ready)(void *), void *arg, int64_t deadline) {
    sim_thread *me = sim_cur;
    if (ready != NULL && ready(arg)) return true;
    for (;;) {
        me->state = 1;
        me->ready = ready;
        me->arg = arg;
        me->deadline = deadline;
        me->timed_out = false;
        sim_thread *n = pick(false);
        if (n->state == 1) { n->state = 0; n->deadline = -1; n->timed_out = false; }
        switch_to(n);
        me->ready = NULL;
        if (!deliverable(me)) return !me->timed_out;
        bool to = me->timed_out;
        deliver();
        if (to) return false;
        if (ready != NULL && ready(arg)) return true;
        if (deadline >= 0 && sim_now >= deadline) return false;
    }
}

void sim_sleep(int64_t ms) { sim_block(NULL, NULL, sim_now + (ms < 0 ? 0 : ms)); }

// basic block granularity preemption of the code under test
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    for (uint32_t *p = start; p < stop; p++) *p = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    (void) guard;
    if (!sim_active) return;
    if (++bb_since_sched > 400000000) sim_fatal("spin", "no progress");
    if (preempt_mean && --preempt_in <= 0) {
        preempt_in = 1 + (long) sim_rand_n((uint64_t) preempt_mean * 2);
        int saved = errno;
        sim_yield();
        errno = saved;
    }
}

static void *trampoline(void *arg) {
    sim_thread *t = arg;
    fut_wait(&t->futex);
    t->ret = t->fn(t->fnarg);
    t->state = 2;
    sim_thread *n = pick(false);
    if (n->state == 1) { n->state = 0; n->deadline = -1; n->timed_out = false; }
    switch_to(n);
    return t->ret;
}

sim_thread *sim_spawn(const char *name, void *(*fn)(void *), void *arg, bool server) {
    if (nthreads >= MAXT) sim_fatal("threads", "too many threads");
    sim_thread *t = __real_calloc(1, sizeof *t);
    t->id = nthreads;
    t->fn = fn;
    t->fnarg = arg;
    t->deadline = -1;
    t->server = server;
    t->prio = (long) sim_rand_n(1000000);
    snprintf(t->name, sizeof t->name, "%s", name);
    if (__real_pthread_create(&t->real, NULL, trampoline, t) != 0) { fprintf(stderr, "pthread_create\n"); _exit(3); }
    threads[nthreads++] = t;
    return t;
}
static bool thread_done(void *a) { return ((sim_thread *) a)->state == 2; }
void sim_join(sim_thread *t) { sim_block(thread_done, t, -1); }

sim_thread *sim_find_thread(pthread_t h) {
    // the newest one: handles can be re-used after join
    for (int i = nthreads - 1; i >= 0; i--)
        if (pthread_equal(threads[i]->real, h)) return threads[i];
    return NULL;
}
int sim_threads_alive_server(void) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) n += threads[i]->server && threads[i]->state != 2;
    return n;
}
int sim_threads_unjoined_server(void) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) n += threads[i]->server && !threads[i]->joined && !threads[i]->detached;
    return n;
}

// ---------------------------------------------------------------- pthread wrappers
struct vmutex { void *addr; sim_thread *owner; int depth; };
static struct vmutex *mx = NULL;
static int nmx = 0, capmx = 0;
int sim_leaked_mutexes = 0;
static struct vmutex *mutex_get(void *a) {
    for (int i = 0; i < nmx; i++) if (mx[i].addr == a) return &mx[i];
    if (nmx == capmx) { capmx = capmx ? capmx * 2 : 64; mx = __real_realloc(mx, sizeof *mx * (size_t) capmx); }
    mx[nmx] = (struct vmutex){a, NULL, 0};
    return &mx[nmx++];
}
static void touch(const void *p) { volatile char c = *(volatile const char *) p; (void) c; }
static bool mutex_free(void *a) { return mutex_get(a)->owner == NULL; }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sim_active) return __real_pthread_mutex_lock(m);
    touch(m);
    sim_yield();
    touch(m);
    while (mutex_get(m)->owner != NULL) {
        sim_block(mutex_free, m, -1);
        touch(m);
    }
    mutex_get(m)->owner = sim_cur;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    touch(m);
    sim_yield();
    if (mutex_get(m)->owner != NULL) return EBUSY;
    mutex_get(m)->owner = sim_cur;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!sim_active) return __real_pthread_mutex_unlock(m);
    touch(m);
    struct vmutex *v = mutex_get(m);
    if (v->owner != sim_cur) ev("\"ev\":\"anomaly\",\"kind\":\"badunlock\",\"msg\":\"\"");
    v->owner = NULL;
    sim_yield();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    (void) a;
    memset(m, 0, sizeof *m);
    mutex_get(m)->owner = NULL;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    touch(m);
    mutex_get(m)->owner = NULL;
    return 0;
}
// memory is being freed: forget objects living there
void sim_forget_range(void *p, size_t n) {
    for (int i = 0; i < nmx; i++) {
        if ((char *) mx[i].addr >= (char *) p && (char *) mx[i].addr < (char *) p + n) {
            if (mx[i].owner != NULL) sim_leaked_mutexes++;
            mx[i] = mx[--nmx];
            i--;
        }
    }
}

struct cwaiter { void *cond; sim_thread *t; struct cwaiter *next; };
static struct cwaiter *cws = NULL;
static bool cw_ready(void *a) { return ((sim_thread *) a)->signaled; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
    touch(c);
    touch(m);
    struct vmutex *v = mutex_get(m);
    if (v->owner != sim_cur) ev("\"ev\":\"anomaly\",\"kind\":\"badunlock\",\"msg\":\"cond\"");
    struct cwaiter w = {c, sim_cur, cws};
    cws = &w;
    sim_cur->signaled = false;
    v->owner = NULL;
    bool ok = true;
    if (sim_chance(1, 60)) {
        sim_yield(); // spurious wakeup
    } else {
        ok = sim_block(cw_ready, sim_cur, deadline);
    }
    for (struct cwaiter **p = &cws; *p; p = &(*p)->next) if (*p == &w) { *p = w.next; break; }
    touch(m);
    while (mutex_get(m)->owner != NULL) { sim_block(mutex_free, m, -1); touch(m); }
    mutex_get(m)->owner = sim_cur;
    return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    int64_t d = (ts->tv_sec - now.tv_sec) * 1000 + (ts->tv_nsec - now.tv_nsec) / 1000000;
    return cond_wait(c, m, sim_now + (d < 0 ? 0 : d));
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    touch(c);
    for (struct cwaiter *w = cws; w; w = w->next) if (w->cond == c) w->t->signaled = true;
    sim_yield();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    touch(c);
    struct cwaiter *sel = NULL;
    int n = 0;
    for (struct cwaiter *w = cws; w; w = w->next)
        if (w->cond == c && !w->t->signaled && sim_rand_n((uint64_t) ++n) == 0) sel = w;
    if (sel) sel->t->signaled = true;
    sim_yield();
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { touch(c); return 0; }

int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void) a;
    sim_yield();
    if (fault_hit("pthread_create")) return EAGAIN;
    sim_thread *s = sim_spawn("srv", fn, arg, true);
    *t = s->real;
    sim_yield();
    return 0;
}
int __wrap_pthread_join(pthread_t h, void **ret) {
    sim_thread *t = h ? sim_find_thread(h) : NULL;
    if (t == NULL || t->joined || t->detached || !t->server) {
        ev("\"ev\":\"anomaly\",\"kind\":\"badjoin\",\"msg\":\"\"");
        return ESRCH;
    }
    t->joined = true;
    sim_join(t);
    if (ret) *ret = t->ret;
    return __real_pthread_join(h, NULL);
}
int __wrap_pthread_detach(pthread_t h) {
    sim_thread *t = sim_find_thread(h);
    if (t) t->detached = true;
    return 0;
}
// wall clock: virtual as well when the driver sets the date
int64_t sim_epoch = 0;
time_t __real_time(time_t *t);
int __real_gettimeofday(struct timeval *tv, void *tz);
int __real_clock_gettime(clockid_t c, struct timespec *ts);
time_t __wrap_time(time_t *t) {
    if (sim_epoch == 0) return __real_time(t);
    time_t r = (time_t) (sim_epoch + sim_now / 1000);
    if (t) *t = r;
    return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    if (sim_epoch == 0) return __real_gettimeofday(tv, tz);
    tv->tv_sec = sim_epoch + sim_now / 1000, tv->tv_usec = sim_now % 1000 * 1000;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (sim_epoch == 0 || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts);
    ts->tv_sec = sim_epoch + sim_now / 1000, ts->tv_nsec = sim_now % 1000 * 1000000;
    return 0;
}
int __wrap_usleep(unsigned us) { sim_sleep((us + 999) / 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep((int64_t) s * 1000); return 0; }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) {
    (void) rem;
    sim_sleep(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000);
    return 0;
}
int __wrap_sched_yield(void) { sim_yield(); return 0; }

// ---------------------------------------------------------------- faults
static struct { char name[40]; int nth; int count; int seen; } faults[64];
static int nfaults = 0;
void fault_reset(void) { nfaults = 0; }
void fault_add(const char *name, int nth, int count) {
    snprintf(faults[nfaults].name, sizeof faults[0].name, "%s", name);
    faults[nfaults].seen = 0;
    faults[nfaults].nth = nth;
    faults[nfaults].count = count;
    nfaults++;
}
bool fault_hit(const char *name) {
    bool hit = false;
    for (int i = 0; i < nfaults; i++) {
        if (strcmp(faults[i].name, name) != 0) continue;
        int k = ++faults[i].seen;
        if (k >= faults[i].nth && k < faults[i].nth + faults[i].count) hit = true;
    }
    if (hit) ev("\"ev\":\"fault\",\"what\":\"%s\"", name);
    return hit;
}
