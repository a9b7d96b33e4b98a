// queue: history of calls and returns
#define _GNU_SOURCE
#include "comp.h"
#include "queue.h"
#include <complex.h>

static queue *q;
static long nextv;
static uint32_t bufsize;
struct th { const char *name; char *ops[512]; int n; };

static void *runner(void *arg) {
    struct th *t = arg;
    float complex *taken = NULL, *src = __real_malloc(sizeof(float complex) * (bufsize + 8));
    long tv = 0;
    size_t tn = 0;
    for (int i = 0; i < t->n; i++) {
        char *op = t->ops[i];
        long a = strchr(op, ':') ? atol(strchr(op, ':') + 1) : 0;
        if (strncmp(op, "put", 3) == 0 || strncmp(op, "null", 4) == 0) {
            long v = ++nextv;
            bool null = op[0] == 'n';
            for (long k = 0; k < a && k < (long) bufsize + 8; k++) src[k] = (float) (v * 100 + k) + I * (float) v;
            ev("\"ev\":\"call\",\"th\":\"%s\",\"op\":\"put\",\"v\":%ld,\"n\":%ld", t->name, v, null ? 0 : a);
            int r = queue_put(null ? NULL : src, (size_t) a, q);
            // the caller is free to use its buffer
            for (long k = 0; k < a && k < (long) bufsize + 8; k++) src[k] = -1;
            ev("\"ev\":\"ret\",\"th\":\"%s\",\"r\":%d,\"n\":0", t->name, r == 0 ? 0 : -1);
        } else if (strcmp(op, "take") == 0 || strcmp(op, "drain") == 0) {
            do {
                taken = (float complex *) t;
                tn = 0;
                ev("\"ev\":\"call\",\"th\":\"%s\",\"op\":\"take\",\"v\":0,\"n\":0", t->name);
                take_buffer_for_processing(&taken, &tn, q);
                tv = 0;
                if (taken != NULL) {
                    tv = tn > 0 ? (long) cimagf(taken[0]) : -1;
                    for (size_t k = 0; k < tn; k++) if (taken[k] != (float) (tv * 100 + (long) k) + I * (float) tv) tv = -1;
                }
                ev("\"ev\":\"ret\",\"th\":\"%s\",\"r\":%ld,\"n\":%zu", t->name, tv, taken ? tn : 0);
                if (op[0] == 't' || taken == NULL) break;
                for (int y = (int) sim_rand_n(sim_chance(1, 4) ? 40 : 4); y > 0; y--) sim_yield();
                op = "drain";
                goto complete;
            again:;
            } while (true);
            continue;
        } else if (strcmp(op, "comp") == 0) {
        complete:;
            bool intact = true;
            for (size_t k = 0; k < tn && taken; k++) if (taken[k] != (float) (tv * 100 + (long) k) + I * (float) tv) intact = false;
            ev("\"ev\":\"call\",\"th\":\"%s\",\"op\":\"comp\",\"v\":%d,\"n\":0", t->name, intact ? 1 : 0);
            complete_buffer_processing(q);
            ev("\"ev\":\"ret\",\"th\":\"%s\",\"r\":0,\"n\":0", t->name);
            if (op[0] == 'd') goto again;
        } else if (strcmp(op, "int") == 0) {
            ev("\"ev\":\"call\",\"th\":\"%s\",\"op\":\"int\",\"v\":0,\"n\":0", t->name);
            interrupt_waiting_the_data(q);
            ev("\"ev\":\"ret\",\"th\":\"%s\",\"r\":0,\"n\":0", t->name);
        } else if (op[0] == 'y') {
            for (; a > 0; a--) sim_yield();
        } else if (op[0] == 's') {
            sim_sleep(a);
        }
    }
    __real_free(src);
    return NULL;
}
void run_queue(char **l, int n) {
    char *w[520];
    unsigned size = 0;
    int blocking = 0;
    sscanf(l[0], "queue %u %u %d", &bufsize, &size, &blocking);
    nextv = 0;
    q = NULL;
    int code = create_queue(bufsize, (uint16_t) size, blocking != 0, &q);
    ev("\"ev\":\"created\",\"r\":%d", code == 0 ? 0 : -1);
    if (code != 0) return;
    static struct th ths[8];
    sim_thread *st[8];
    int k = 0;
    for (int i = 1; i < n && k < 8; i++) {
        int c = words(l[i], w, 512);
        if (c < 1) continue;
        ths[k].name = w[0];
        ths[k].n = c - 1;
        memcpy(ths[k].ops, w + 1, sizeof(char *) * (size_t) (c - 1));
        k++;
    }
    if (k == 1) {
        runner(&ths[0]);
    } else {
        for (int i = 0; i < k; i++) st[i] = sim_spawn(ths[i].name, runner, &ths[i], false);
        for (int i = 0; i < k; i++) sim_join(st[i]);
    }
    destroy_queue(q);
}
