// PlutoSDR device against the mock of libiio
#define _GNU_SOURCE
#include "comp.h"
#include "sdr/plutosdr.h"
#include <complex.h>

extern int iio_short;
extern bool iio_emit;
iio_lib *iio_mock_lib(void);
static iio_lib *lib;
static sdr_device *devs[8];
static long txk[8];
static int bufs[8]; // capture of the tx device
static char buf[400000];
struct th { char *ops[256]; int n; };

// values outside of [-1;1] are limited
static long dac(long k) { return (k * 7919) % 72001 - 36000; }
static struct stream_cfg *parse(const char *t, char *json, int *ok) {
    unsigned long long f, r;
    int mode;
    long gain;
    strcpy(json, "[]");
    if (sscanf(t, "%llu,%llu,%d,%ld", &f, &r, &mode, &gain) < 4) return NULL;
    struct stream_cfg *c = malloc(sizeof *c);
    memset(c, 0, sizeof *c);
    c->center_freq = f;
    c->sampling_freq = r;
    c->gain_control_mode = (uint8_t) mode;
    c->manual_gain = (double) gain / 4;
    // frequency is 2 numbers because of 32 bits in TLC
    sprintf(json, "[%llu,%llu,%llu,%llu,%d,%ld]", f / 1000000, f % 1000000, r / 1000000, r % 1000000, mode, gain * 25);
    *ok = 1;
    return c;
}
static void *runner(void *arg) {
    struct th *t = arg;
    for (int i = 0; i < t->n; i++) {
        char *op = t->ops[i];
        long s = 0, a = 0;
        char rx[100], tx[100], jr[200], jt[200];
        int only, ok;
        unsigned timeout, max;
        if (sscanf(op, "cr:%ld:%d:%99[^:]:%99[^:]:%u:%u", &s, &only, rx, tx, &timeout, &max) == 6) {
            if (devs[s]) continue;
            struct stream_cfg *r = parse(rx, jr, &ok), *x = parse(tx, jt, &ok);
            ev("\"ev\":\"create\",\"id\":%ld,\"only\":%s,\"rx\":%s,\"tx\":%s,\"timeout\":%u,\"max\":%u", s, only ? "true" : "false", jr, jt, timeout, max);
            sdr_device *d = NULL;
            int res = plutosdr_create((uint32_t) s, only, r, x, timeout, max, lib, &d);
            // nothing was stored when there is no configuration
            devs[s] = res == 0 ? d : NULL;
            txk[s] = 0;
            bufs[s] = niiocaps - 1;
            ev("\"ev\":\"created\",\"id\":%ld,\"r\":%d,\"chn\":%d", s, res == 0 ? 0 : -1, iio_chn_live);
        } else if (sscanf(op, "de:%ld", &s) == 1) {
            if (!devs[s]) continue;
            ev("\"ev\":\"destroy\",\"id\":%ld", s);
            devs[s]->destroy(devs[s]->plugin);
            free(devs[s]);
            devs[s] = NULL;
            ev("\"ev\":\"destroyed\",\"id\":%ld,\"chn\":%d", s, iio_chn_live);
        } else if (sscanf(op, "tx:%ld:%ld", &s, &a) == 2) {
            if (!devs[s]) continue;
            float complex *in = __real_malloc(sizeof(float complex) * (size_t) (a + 1));
            for (long k = 0; k < a; k++) in[k] = (float) dac(2 * (txk[s] + k)) / 32768.0f + I * ((float) dac(2 * (txk[s] + k) + 1) / 32768.0f);
            struct iiocap *c = niiocaps && bufs[s] >= 0 ? &iiocaps[bufs[s]] : NULL;
            size_t from = c ? c->n : 0;
            ev("\"ev\":\"txcall\",\"id\":%ld", s);
            int r = devs[s]->sdr_process_tx(in, (size_t) a, devs[s]->plugin);
            size_t k = 0;
            buf[0] = 0;
            for (size_t q = from; c && q < c->n; q++) k += (size_t) sprintf(buf + k, "%s%d", q > from ? "," : "", c->p[q]);
            ev("\"ev\":\"tx\",\"id\":%ld,\"r\":%d,\"n\":%ld,\"from\":%ld,\"s\":[%s]", s, r == 0 ? 0 : -1, a, txk[s], buf);
            txk[s] += a;
            __real_free(in);
        } else if (sscanf(op, "rx:%ld", &s) == 1) {
            if (!devs[s]) continue;
            float complex *o = (float complex *) buf;
            size_t n = 12345;
            ev("\"ev\":\"rxcall\",\"id\":%ld", s);
            int r = devs[s]->sdr_process_rx(&o, &n, devs[s]->plugin);
            bool isnull = o == NULL;
            buf[0] = 0;
            if (r == 0 && o && n < 10000) scaled(buf, sizeof buf, (float *) o, 2 * n, 2048.0 * 64);
            ev("\"ev\":\"rx\",\"id\":%ld,\"r\":%d,\"n\":%zu,\"null\":%s,\"s\":[%s]", s, r == 0 ? 0 : -1, n, isnull ? "true" : "false", buf);
        } else if (sscanf(op, "st:%ld", &s) == 1) {
            if (!devs[s]) continue;
            ev("\"ev\":\"stop\",\"id\":%ld", s);
            devs[s]->stop_rx(devs[s]->plugin);
        } else if (sscanf(op, "y:%ld", &a) == 1) { for (; a > 0; a--) sim_yield(); }
    }
    return NULL;
}
void run_pluto(char **l, int n) {
    char *w[260];
    // pluto <every n-th refill is short> <samples in the device>
    if (sscanf(l[0], "pluto %d %ld", &iio_short, &iio_rx_total) < 2) return;
    iio_emit = true;
    lib = iio_mock_lib();
    memset(devs, 0, sizeof devs);
    for (int i = 0; i < niiocaps; i++) { __real_free(iiocaps[i].p); iiocaps[i] = (struct iiocap) {0}; }
    niiocaps = 0;
    for (int i = 1; i < n; i++) {
        char nm[64];
        int nth = 1, count = 1;
        if (sscanf(l[i], "fault %63s %d %d", nm, &nth, &count) >= 1) fault_add(nm, nth, count);
    }
    static struct th ths[5];
    sim_thread *st[5];
    int k = 0;
    for (int i = 1; i < n && k < 5; i++) {
        if (strncmp(l[i], "t ", 2) != 0) continue;
        int c = words(l[i], w, 256);
        ths[k].n = c - 1;
        memcpy(ths[k].ops, w + 1, sizeof(char *) * (size_t) (c - 1));
        k++;
    }
    if (k == 1) runner(&ths[0]);
    else {
        for (int i = 0; i < k; i++) st[i] = sim_spawn("p", runner, &ths[i], false);
        for (int i = 0; i < k; i++) sim_join(st[i]);
    }
    for (long s = 0; s < 8; s++) {
        if (!devs[s]) continue;
        ev("\"ev\":\"destroy\",\"id\":%ld", s);
        devs[s]->destroy(devs[s]->plugin);
        free(devs[s]);
        devs[s] = NULL;
        ev("\"ev\":\"destroyed\",\"id\":%ld,\"chn\":%d", s, iio_chn_live);
    }
    __real_free(lib);
}
