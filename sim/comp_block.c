// Signal processing blocks.
//   block <kind> <max> <parameters>
//   taps ...        integers (fir, interp)
//   x ...           integers, the stream
//   ref             the whole stream by another block in one call (float kinds)
//   c <n> [freq]    next n items of the stream
//   null | empty | long <n>
#define _GNU_SOURCE
#include "comp.h"
#include <complex.h>
#include <math.h>
#include "dsp/fir_filter.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/dc_blocker.h"
#include "dsp/quadrature_demod.h"
#include "dsp/frequency_modulator.h"
#include "dsp/gfsk_mod.h"
#include "dsp/fsk_demod.h"
#include "dsp/sig_source.h"
#include "dsp/lpf.h"
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/gaussian_taps.h"
#include <volk/volk.h>

#define MAXX 40000
struct blk {
    char kind[16];
    unsigned max;
    double p[8];
    int np;
    float *taps;
    size_t taps_len;
    void *b;
    bool complex_in, complex_out, bytes_in, bytes_out;
    double scale;  // of the output
    double in_div; // of the input
};
static bool is(struct blk *k, const char *s) { return strcmp(k->kind, s) == 0; }
static int create(struct blk *k, unsigned max) {
    k->scale = 1, k->in_div = 1;
    k->b = NULL;
    float *taps = NULL;
    if (k->taps_len > 0 || is(k, "fir") || is(k, "cfir") || is(k, "interp")) {
        taps = malloc(sizeof(float) * (k->taps_len ? k->taps_len : 1));
        memcpy(taps, k->taps, sizeof(float) * k->taps_len);
    }
    int r = -100;
    if (is(k, "fir") || is(k, "cfir")) {
        k->complex_in = k->complex_out = is(k, "cfir");
        r = fir_filter_create((uint8_t) k->p[0], taps, k->taps_len, max, k->complex_in ? sizeof(float complex) : sizeof(float), (fir_filter **) &k->b);
        // taps belong to the caller if the filter was not created and filter_destroy was not called for them
        taps = NULL;
    } else if (is(k, "interp")) {
        r = interp_fir_filter_create(taps, k->taps_len, (uint8_t) k->p[0], max, (interp_fir_filter **) &k->b);
        if (r != 0) free(taps);
    } else if (is(k, "dc")) {
        k->scale = 1000;
        r = dc_blocker_create((int) k->p[0], (dc_blocker **) &k->b);
    } else if (is(k, "quad")) {
        k->complex_in = true, k->scale = 100, k->in_div = 0;
        r = quadrature_demod_create((float) (4 / M_PI * k->p[0]), max, (quadrature_demod **) &k->b);
    } else if (is(k, "fm")) {
        k->complex_out = true, k->scale = 1000;
        r = frequency_modulator_create((float) (M_PI / 4), max, (frequency_modulator **) &k->b);
    } else if (is(k, "sig") || is(k, "mix")) {
        k->complex_out = true, k->complex_in = is(k, "mix"), k->scale = 1000;
        r = sig_source_create((float) k->p[0], (uint64_t) k->p[1], max, (sig_source **) &k->b);
    } else if (is(k, "clock")) {
        k->scale = 1000, k->in_div = 1000;
        r = clock_mm_create((float) k->p[0], (float) k->p[1], (float) k->p[2], (float) k->p[3], (float) k->p[4], max, (clock_mm **) &k->b);
    } else if (is(k, "gfsk")) {
        k->complex_out = true, k->bytes_in = true, k->scale = 1000;
        r = gfsk_mod_create((float) k->p[0], (float) k->p[1], (float) k->p[2], max, (gfsk_mod **) &k->b);
    } else if (is(k, "fsk")) {
        k->complex_in = true, k->bytes_out = true, k->in_div = 1000;
        r = fsk_demod_create((uint64_t) k->p[0], (uint32_t) k->p[1], (int64_t) k->p[2], (uint8_t) k->p[3], (uint32_t) k->p[4], k->p[5] != 0, max, (fsk_demod **) &k->b);
    } else if (is(k, "lpf") || is(k, "clpf")) {
        k->complex_in = k->complex_out = is(k, "clpf"), k->scale = 1000, k->in_div = 1000;
        r = lpf_create((uint8_t) k->p[0], (uint64_t) k->p[1], (uint64_t) k->p[2], (uint32_t) k->p[3], max, k->complex_in ? sizeof(float complex) : sizeof(float), (lpf **) &k->b);
    }
    return r;
}
static void destroy(struct blk *k) {
    if (k->b == NULL) return;
    if (is(k, "fir") || is(k, "cfir")) fir_filter_destroy(k->b);
    else if (is(k, "interp")) interp_fir_filter_destroy(k->b);
    else if (is(k, "dc")) dc_blocker_destroy(k->b);
    else if (is(k, "quad")) quadrature_demod_destroy(k->b);
    else if (is(k, "fm")) frequency_modulator_destroy(k->b);
    else if (is(k, "sig") || is(k, "mix")) sig_source_destroy(k->b);
    else if (is(k, "clock")) clock_mm_destroy(k->b);
    else if (is(k, "gfsk")) gfsk_mod_destroy(k->b);
    else if (is(k, "fsk")) fsk_demod_destroy(k->b);
    else lpf_destroy(k->b);
    k->b = NULL;
}
static void *process(struct blk *k, void *in, size_t n, long freq, size_t *len) {
    void *out = (void *) 1;
    *len = 77777;
    if (is(k, "fir") || is(k, "cfir")) fir_filter_process(in, n, &out, len, k->b);
    else if (is(k, "interp")) interp_fir_filter_process(in, n, (float **) &out, len, k->b);
    else if (is(k, "dc")) dc_blocker_process(in, n, (float **) &out, len, k->b);
    else if (is(k, "quad")) quadrature_demod_process(in, n, (float **) &out, len, k->b);
    else if (is(k, "fm")) frequency_modulator_process(in, n, (float complex **) &out, len, k->b);
    else if (is(k, "sig")) sig_source_process(freq * (long) k->p[1] / 8, n, (float complex **) &out, len, k->b);
    else if (is(k, "mix")) sig_source_multiply(freq * (long) k->p[1] / 8, in, n, (float complex **) &out, len, k->b);
    else if (is(k, "clock")) clock_mm_process(in, n, (float **) &out, len, k->b);
    else if (is(k, "gfsk")) gfsk_mod_process(in, n, (float complex **) &out, len, k->b);
    else if (is(k, "fsk")) fsk_demod_process(in, n, (int8_t **) &out, len, k->b);
    else lpf_process(in, n, &out, len, k->b);
    return out;
}
// the input of one call is allocated exactly, each access outside of it is visible
static void *input_of(struct blk *k, const double *x, size_t n, size_t *bytes) {
    size_t item = k->bytes_in ? 1 : k->complex_in ? sizeof(float complex) : sizeof(float);
    *bytes = item * n;
    char *r = malloc(item * n ? item * n : 1);
    for (size_t i = 0; i < n; i++) {
        if (x == NULL) memset(r + i * item, 0, item);
        else if (k->bytes_in) ((uint8_t *) r)[i] = (uint8_t) x[i];
        else if (is(k, "quad")) ((float complex *) r)[i] = (float) cos(x[i] * M_PI / 4) * (1 + (float) (i % 3)) + (float) sin(x[i] * M_PI / 4) * (1 + (float) (i % 3)) * I;
        else if (k->complex_in) ((float complex *) r)[i] = (float) (x[2 * i] / k->in_div) + (float) (x[2 * i + 1] / k->in_div) * I;
        else ((float *) r)[i] = (float) (x[i] / k->in_div);
    }
    return r;
}
static void emit(struct blk *k, const char *name, const char *head, const void *out, size_t len) {
    // long outputs are divided, the last part is marked
    size_t from = 0, part = k->complex_out ? 400 : 800;
    do {
        size_t n = len - from < part ? len - from : part;
        char b[7600] = "";
        if (k->bytes_out) {
            size_t q = 0;
            for (size_t i = 0; i < n; i++) q += (size_t) snprintf(b + q, sizeof b - q, "%s%d", i ? "," : "", ((const int8_t *) out)[from + i]);
        } else {
            size_t m = k->complex_out ? 2 : 1;
            scaled(b, sizeof b, (const float *) out + from * m, n * m, k->scale);
        }
        from += n;
        ev("\"ev\":\"%s\",%s,\"last\":%s,\"y\":[%s]", name, head, from >= len ? "true" : "false", b);
    } while (from < len);
}
static double *numbers(const char *s, size_t *n) {
    double *r = __real_malloc(sizeof(double) * MAXX);
    *n = 0;
    char *e;
    for (;;) {
        double v = strtod(s, &e);
        if (e == s || *n >= MAXX) break;
        r[(*n)++] = v;
        s = e;
    }
    return r;
}
void run_block(char **l, int n) {
    struct blk k = {0};
    double *x = NULL;
    size_t xn = 0, pos = 0;
    if (n < 1 || sscanf(l[0], "block %15s %u %lf %lf %lf %lf %lf %lf", k.kind, &k.max, &k.p[0], &k.p[1], &k.p[2], &k.p[3], &k.p[4], &k.p[5]) < 2) return;
    float *taps = NULL;
    bool created = false;
    for (int i = 1; i < n; i++) {
        if (strncmp(l[i], "taps ", 5) == 0) {
            double *t = numbers(l[i] + 5, &k.taps_len);
            k.taps = taps = __real_malloc(sizeof(float) * (k.taps_len + 1));
            for (size_t j = 0; j < k.taps_len; j++) taps[j] = (float) t[j];
            __real_free(t);
            continue;
        }
        if (strncmp(l[i], "x ", 2) == 0) { x = numbers(l[i] + 2, &xn); continue; }
        size_t item = 0;
        if (!created) {
            int r = create(&k, k.max);
            ev("\"ev\":\"created\",\"r\":%d", r);
            if (r != 0) break;
            created = true;
        }
        item = k.complex_in && !is(&k, "quad") ? 2 : 1;
        size_t have = xn / item;
        char op[16];
        long cnt = 0, freq = 0;
        if (sscanf(l[i], "%15s %ld %ld", op, &cnt, &freq) < 1) continue;
        size_t bytes = 0, len = 0;
        if (strcmp(op, "ref") == 0) {
            struct blk other = k;
            if (create(&other, (unsigned) have) != 0) continue;
            void *in = input_of(&other, x, have, &bytes);
            void *out = process(&other, in, have, freq, &len);
            emit(&other, "ref", "\"n\":0", out, len);
            free(in);
            destroy(&other);
            continue;
        }
        bool bad = strcmp(op, "c") != 0;
        size_t m = strcmp(op, "empty") == 0 || strcmp(op, "null") == 0 ? 0 : (size_t) cnt;
        if (!bad && pos + m > have && !is(&k, "sig")) m = have - pos;
        double *zero = NULL;
        if (strcmp(op, "long") == 0) { zero = __real_malloc(sizeof(double) * (2 * m + 2)); for (size_t j = 0; j < 2 * m; j++) zero[j] = 1; }
        void *in = input_of(&k, zero ? zero : x ? x + pos * item : NULL, m, &bytes);
        void *copy = __real_malloc(bytes + 1);
        memcpy(copy, in, bytes);
        void *out = process(&k, strcmp(op, "null") == 0 ? NULL : in, m, freq, &len);
        char head[200];
        snprintf(head, sizeof head, "\"op\":\"%s\",\"n\":%zu,\"freq\":%ld,\"len\":%zu,\"same\":%s", op, m, freq, len, is(&k, "dc") || memcmp(in, copy, bytes) == 0 ? "true" : "false");
        emit(&k, "call", head, out, bad ? 0 : len);
        if (!bad) pos += m;
        free(in);
        __real_free(copy);
        if (zero) __real_free(zero);
    }
    destroy(&k);
    if (taps) __real_free(taps);
    if (x) __real_free(x);
}

// mmse <samples x1000> : interpolated values for the list of positions (1/1000)
static void run_mmse(char **l, int n) {
    size_t xn = 0;
    double *x = numbers(l[0] + 5, &xn);
    mmse_fir_interpolator *m = NULL;
    int r = mmse_fir_interpolator_create(&m);
    ev("\"ev\":\"created\",\"r\":%d,\"taps\":%d", r, r == 0 ? mmse_fir_interpolator_taps(m) : 0);
    if (r == 0) {
        // neighbours of the samples should not be used
        float *b = NULL;
        for (int i = 1; i < n; i++) {
            int at = 0, mu = 0, shift = 0;
            if (sscanf(l[i], "m %d %d %d", &at, &mu, &shift) != 3 || at + 8 > (int) xn) continue;
            // the filter is allowed to read aligned data around, they are multiplied by zero
            b = volk_malloc(sizeof(float) * 64, 64);
            for (int j = 0; j < 64; j++) b[j] = 1e6F;
            for (int j = 0; j < 8; j++) b[16 + shift + j] = (float) (x[at + j] / 1000);
            float y = mmse_fir_interpolator_process(b + 16 + shift, (float) (mu / 1000.0), m);
            ev("\"ev\":\"mmse\",\"at\":%d,\"mu\":%d,\"y\":%ld", at, mu, lround(y * 1000));
            volk_free(b);
        }
        mmse_fir_interpolator_destroy(m);
    }
    __real_free(x);
}

// loop <fs> <baud> <dev> <dec> <tw> <dc> <max tx, bytes> <max rx, samples> <noise> <gain> <freq offset> <seed> <delay>
// b <bytes>    modulated, passed through the channel, demodulated
static uint64_t lrnd;
static double uni(void) {
    lrnd ^= lrnd << 13, lrnd ^= lrnd >> 7, lrnd ^= lrnd << 17;
    return (double) (lrnd >> 11) / 9007199254740992.0;
}
static void run_loop(char **l, int n) {
    double p[13] = {0};
    if (n < 2 || sscanf(l[0], "loop %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf", p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8, p + 9, p + 10, p + 11, p + 12) != 13) return;
    gfsk_mod *mod = NULL;
    fsk_demod *dem = NULL;
    size_t bn = 0;
    double *b = numbers(l[1] + 2, &bn);
    unsigned mt = (unsigned) p[6], mr = (unsigned) p[7];
    lrnd = (uint64_t) p[11] * 0x9E3779B97F4A7C15ull + 1;
    int r = gfsk_mod_create((float) (p[0] / p[1]), (float) (2 * M_PI * p[2] / p[0]), 0.5F, mt, &mod);
    int r2 = fsk_demod_create((uint64_t) p[0], (uint32_t) p[1], (int64_t) p[2], (uint8_t) p[3], (uint32_t) p[4], p[5] != 0, mr, &dem);
    ev("\"ev\":\"created\",\"r\":%d", r != 0 ? r : r2);
    if (r == 0 && r2 == 0) {
        size_t cap = (size_t) (bn * 8 * (size_t) (p[0] / p[1]) + (size_t) p[12] + 16), have = 0;
        float complex *air = __real_malloc(sizeof(float complex) * cap);
        for (; have < (size_t) p[12]; have++) air[have] = 0;
        for (size_t i = 0; i < bn;) {
            size_t m = 1 + (size_t) (uni() * mt);
            if (m > mt) m = mt;
            if (m > bn - i) m = bn - i;
            uint8_t *in = malloc(m);
            for (size_t j = 0; j < m; j++) in[j] = (uint8_t) b[i + j];
            float complex *out = NULL;
            size_t len = 0;
            gfsk_mod_process(in, m, &out, &len, mod);
            for (size_t j = 0; j < len && have < cap; j++) air[have++] = out[j];
            free(in);
            i += m;
        }
        double ph = uni() * 6.28;
        for (size_t i = 0; i < have; i++) {
            double g = p[9] / 1000, no = p[8] / 1000 * g;
            double n1 = (uni() + uni() + uni() - 1.5) * 2 * no, n2 = (uni() + uni() + uni() - 1.5) * 2 * no;
            float complex rot = (float) cos(ph) + (float) sin(ph) * I;
            air[i] = air[i] * rot * (float) g + (float) n1 + (float) n2 * I;
            ph += 2 * M_PI * p[10] / p[0];
        }
        char buf[7600] = "";
        size_t q = 0, total = 0;
        for (size_t i = 0; i < have;) {
            size_t m = 1 + (size_t) (uni() * mr);
            if (m > mr) m = mr;
            if (m > have - i) m = have - i;
            float complex *in = malloc(sizeof(float complex) * m);
            memcpy(in, air + i, sizeof(float complex) * m);
            int8_t *out = NULL;
            size_t len = 0;
            fsk_demod_process(in, m, &out, &len, dem);
            for (size_t j = 0; j < len; j++) {
                q += (size_t) snprintf(buf + q, sizeof buf - q, "%s%d", q ? "," : "", out[j] >= 0);
                total++;
                if (q > 7000) { ev("\"ev\":\"sym\",\"y\":[%s]", buf); q = 0; buf[0] = 0; }
            }
            free(in);
            i += m;
        }
        ev("\"ev\":\"sym\",\"y\":[%s]", buf);
        ev("\"ev\":\"done\",\"samples\":%zu,\"total\":%zu", have, total);
        __real_free(air);
    }
    if (mod) gfsk_mod_destroy(mod);
    if (dem) fsk_demod_destroy(dem);
    __real_free(b);
}
// tone <complex> <dec> <fs> <cutoff> <tw> <freq> <max>: amplitude of the tone after the filter
static void run_tone(char **l) {
    double p[7];
    if (sscanf(l[0], "tone %lf %lf %lf %lf %lf %lf %lf", p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6) != 7) return;
    lpf *f = NULL;
    bool cx = p[0] != 0;
    unsigned mx = (unsigned) p[6];
    int r = lpf_create((uint8_t) p[1], (uint64_t) p[2], (uint64_t) p[3], (uint32_t) p[4], mx, cx ? sizeof(float complex) : sizeof(float), &f);
    ev("\"ev\":\"created\",\"r\":%d", r);
    if (r != 0) return;
    // the filter is shorter than that
    size_t taps = (size_t) (3 * p[2] / p[4]) + 3, n = 2 * taps + 400 * (size_t) p[1];
    double sum = 0, peak = 0;
    size_t cnt = 0, pos = 0, outs = 0;
    while (pos < n) {
        size_t m = mx < n - pos ? mx : n - pos;
        void *in = malloc(m * (cx ? sizeof(float complex) : sizeof(float)));
        for (size_t j = 0; j < m; j++) {
            double ph = 2 * M_PI * fmod(p[5] / p[2] * (double) (pos + j), 1.0);
            if (cx) ((float complex *) in)[j] = (float) cos(ph) + (float) sin(ph) * I; else ((float *) in)[j] = (float) (cos(ph) * M_SQRT2);
        }
        void *out = NULL;
        size_t len = 0;
        lpf_process(in, m, &out, &len, f);
        for (size_t j = 0; j < len; j++, outs++) {
            double a = cx ? cabsf(((float complex *) out)[j]) : fabsf(((float *) out)[j]);
            if (outs * (size_t) p[1] < taps) continue;
            sum += a * a, cnt++;
            if (a > peak) peak = a;
        }
        free(in);
        pos += m;
    }
    ev("\"ev\":\"tone\",\"rms\":%ld,\"peak\":%ld,\"n\":%zu", cnt ? lround(sqrt(sum / (double) cnt) * 1000) : -1, lround(peak * 1000), cnt);
    lpf_destroy(f);
}
void run_blocks(char **l, int n) {
    if (n > 0 && strncmp(l[0], "mmse ", 5) == 0) run_mmse(l, n);
    else if (n > 0 && strncmp(l[0], "loop ", 5) == 0) run_loop(l, n);
    else if (n > 0 && strncmp(l[0], "tone ", 5) == 0) run_tone(l);
    else run_block(l, n);
}
