// Controlled scheduler: exactly one managed thread runs at a time; every wrapped
// blocking call is a scheduling point; time is virtual.
#ifndef SIM_SCHED_H
#define SIM_SCHED_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <pthread.h>

#define MAXT 512
typedef struct sim_thread {
    int id;
    pthread_t real;
    int futex;
    int state; // 0 runnable 1 blocked 2 done
    bool (*ready)(void *);
    void *arg;
    int64_t deadline; // virtual ms, -1 none
    bool timed_out;
    bool server;      // created by the code under test
    bool joined, detached;
    void *(*fn)(void *);
    void *fnarg;
    void *ret;
    long prio;
    bool signaled;
    char name[32];
} sim_thread;

extern sim_thread *sim_cur;
extern int64_t sim_now;      // virtual ms
extern uint64_t sim_seed;
extern bool sim_active;
extern int sim_leaked_mutexes;

// user cpu time until the run is reported as spinning
void sim_cpu_limit(int seconds);
void sim_init(uint64_t seed, const char *strategy);
sim_thread *sim_spawn(const char *name, void *(*fn)(void *), void *arg, bool server);
void sim_yield(void);
// blocks the current thread until ready(arg) is true or deadline. true if ready
bool sim_block(bool (*ready)(void *), void *arg, int64_t deadline);
void sim_sleep(int64_t ms);
// delivers the signal to the main thread as soon as it is scheduled
void sim_signal_main(int sig);
extern bool sim_signals_enabled;
void sim_join(sim_thread *t);
uint64_t sim_rand(void);
uint64_t sim_rand_n(uint64_t n);
bool sim_chance(unsigned num, unsigned den);
sim_thread *sim_find_thread(pthread_t t);
int sim_threads_alive_server(void);
int sim_threads_unjoined_server(void);
long sim_steps(void);

// trace
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_fatal(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_open_trace(const char *path);
extern void (*sim_on_fatal)(void);

// faults: named counters
bool fault_hit(const char *name);
void fault_add(const char *name, int nth, int count);
#endif
