// file device: calls, results, content of the files. Samples of a file are different points with small integer coordinates
#define _GNU_SOURCE
#include "comp.h"
#include "sdr/file_source.h"
#include <complex.h>
#include <math.h>

#define SCALE 16
static sdr_device *dev;
static long rate, offset, maxlen;
static bool exact;
static long rot; // samples that went through the device
static long txk;

static float complex sample(long k) { return (float) (k % 97 + 1) + I * (float) (-(k % 89) - 1); }
// the phase of the shift is removed unless it is a multiple of the quarter of the turn: the specification does it itself
static void print(char *o, size_t max, const float complex *p, size_t n, long first) {
    float *f = __real_malloc(sizeof(float) * 2 * (n + 1));
    for (size_t i = 0; i < n; i++) {
        double complex v = p[i];
        if (!exact) v *= cexp(-I * 2 * M_PI * fmod((double) offset / (double) rate * (double) (first + (long) i), 1.0));
        f[2 * i] = (float) creal(v);
        f[2 * i + 1] = (float) cimag(v);
    }
    scaled(o, max, f, 2 * n, SCALE);
    __real_free(f);
}
static char buf[400000];
static bool rx_once(void) {
    float complex *out = (float complex *) buf;
    size_t n = 12345;
    ev("\"ev\":\"rxcall\"");
    int r = dev->sdr_process_rx(&out, &n, dev->plugin);
    buf[0] = 0;
    bool isnull = out == NULL;
    if (r == 0 && out != NULL) print(buf, sizeof buf, out, n, rot);
    ev("\"ev\":\"rx\",\"r\":%d,\"n\":%zu,\"null\":%s,\"s\":[%s]", r == 0 ? 0 : -1, n, isnull ? "true" : "false", buf);
    if (r == 0) rot += (long) n;
    return r == 0;
}
struct th { char *ops[256]; int n; };
static void *runner(void *arg) {
    struct th *t = arg;
    for (int i = 0; i < t->n; i++) {
        char *op = t->ops[i];
        long a = strchr(op, ':') ? atol(strchr(op, ':') + 1) : 0;
        if (strcmp(op, "rx") == 0) rx_once();
        else if (strcmp(op, "drain") == 0) { while (rx_once()) sim_yield(); }
        else if (strcmp(op, "stop") == 0) { ev("\"ev\":\"stop\""); dev->stop_rx(dev->plugin); }
        else if (strncmp(op, "tx:", 3) == 0) {
            float complex *in = __real_malloc(sizeof(float complex) * (size_t) (a + 1));
            for (long k = 0; k < a; k++) in[k] = sample(txk + k);
            int r = dev->sdr_process_tx(in, (size_t) a, dev->plugin);
            bool same = true;
            for (long k = 0; k < a; k++) same = same && in[k] == sample(txk + k);
            ev("\"ev\":\"tx\",\"r\":%d,\"n\":%ld,\"same\":%s", r == 0 ? 0 : -1, a, same ? "true" : "false");
            // data of the failed call is sent again
            if (r == 0) { txk += a; rot += a; }
            __real_free(in);
        } else if (op[0] == 'y') { for (; a > 0; a--) sim_yield(); }
        else if (op[0] == 's') sim_sleep(a);
    }
    return NULL;
}
void run_file(char **l, int n) {
    char *w[260], rxp[700], txp[700];
    dev = NULL;
    rot = txk = 0;
    long rxbytes = -1;
    bool tx = false;
    char rxn[64], txn[64];
    if (sscanf(l[0], "file %63s %63s %ld %ld %ld %ld", rxn, txn, &rate, &offset, &maxlen, &rxbytes) < 5) return;
    exact = offset * 4 % rate == 0;
    snprintf(rxp, sizeof rxp, "%s/%s", comp_dir, rxn);
    snprintf(txp, sizeof txp, "%s/%s", comp_dir, txn);
    tx = strcmp(txn, "-") != 0;
    sim_active = false;
    remove(rxp);
    remove(txp);
    // reading from a directory fails
    if (rxbytes == -2) snprintf(rxp, sizeof rxp, "%s", comp_dir);
    if (rxbytes >= 0) {
        FILE *f = fopen(rxp, "wb");
        for (long k = 0; k * 8 < rxbytes; k++) {
            float complex v = sample(k);
            fwrite(&v, 1, (size_t) (rxbytes - k * 8 < 8 ? rxbytes - k * 8 : 8), f);
        }
        fclose(f);
    }
    sim_active = true;
    for (int i = 1; i < n; i++) {
        char nm[64];
        int nth = 1, count = 1;
        if (sscanf(l[i], "fault %63s %d %d", nm, &nth, &count) >= 1) fault_add(nm, nth, count);
    }
    int r = file_source_create(7, strcmp(rxn, "-") ? rxp : NULL, tx ? txp : NULL, (uint64_t) rate, offset, (uint32_t) maxlen, &dev);
    ev("\"ev\":\"created\",\"r\":%d", r == 0 ? 0 : -1);
    if (r == 0) {
        static struct th ths[4];
        sim_thread *st[4];
        int k = 0;
        for (int i = 1; i < n && k < 4; i++) {
            if (strncmp(l[i], "t ", 2) != 0) continue;
            int c = words(l[i], w, 256);
            ths[k].n = c - 1;
            memcpy(ths[k].ops, w + 1, sizeof(char *) * (size_t) (c - 1));
            k++;
        }
        if (k == 1) runner(&ths[0]);
        else {
            for (int i = 0; i < k; i++) st[i] = sim_spawn("f", runner, &ths[i], false);
            for (int i = 0; i < k; i++) sim_join(st[i]);
        }
        dev->destroy(dev->plugin);
        // allocated by the device
        free(dev);
    }
    sim_active = false;
    if (tx && r == 0) {
        FILE *f = fopen(txp, "rb");
        float complex *p = __real_malloc(8 * 20000);
        size_t bytes = f ? fread(p, 1, 8 * 19999, f) : 0;
        if (f) fclose(f);
        print(buf, sizeof buf, p, bytes / 8, 0);
        ev("\"ev\":\"txfile\",\"exists\":%s,\"bytes\":%zu,\"s\":[%s]", f ? "true" : "false", bytes, buf);
        __real_free(p);
    }
    if (rxbytes >= 0) remove(rxp);
    remove(txp);
    sim_active = true;
}
