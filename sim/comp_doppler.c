// Doppler correction. Frequency of the correction is measured for every sample.
//   doppler <rx|tx> <lat> <lon> <alt> <rate> <center> <offset> <start> <max>
//   tle <line>   (three of them)
//   p <n> | s <ms> | null | empty | long
// Reference shifts are calculated here: time, observer and range rate independently of the
// code under test, position of the satellite by its SGP4/SDP4 (see lib/doppler_gold.json).
#define _GNU_SOURCE
#include "comp.h"
#include <complex.h>
#include <math.h>
#include <time.h>
#include <sys/time.h>
#include "dsp/doppler.h"
#include "sgpsdp/sgp4sdp4.h"
#undef printf

extern int64_t sim_epoch;

static double jd_of(time_t t) { return 2440587.5 + (double) t / 86400.0; }
// days since 1970-01-01
static long days(int y, int m, int d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned) (y - era * 400), doy = (unsigned) ((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
    return era * 146097 + (long) (yoe * 365 + yoe / 4 - yoe / 100 + doy) - 719468;
}
struct ref { sat_t sat; double epoch; double lat, lon, alt; };
static void ref_init(struct ref *r, char tle[3][80], double lat, double lon, double alt) {
    memset(r, 0, sizeof *r);
    Get_Next_Tle_Set(tle, &r->sat.tle);
    select_ephemeris(&r->sat);
    char b[20] = {0};
    memcpy(b, tle[1] + 18, 2);
    int y = atoi(b);
    y += y < 57 ? 2000 : 1900;
    memcpy(b, tle[1] + 20, 12);
    b[12] = 0;
    r->epoch = 2440587.5 + (double) days(y, 1, 1) + atof(b) - 1.0;
    r->sat.jul_epoch = r->epoch;
    r->lat = lat * M_PI / 180, r->lon = lon * M_PI / 180, r->alt = alt;
}
// range rate, km/s
static double ref_rate(struct ref *r, double jd) {
    double ts = (jd - r->epoch) * 1440.0;
    r->sat.jul_utc = jd;
    if (r->sat.flags & DEEP_SPACE_EPHEM_FLAG) SDP4(&r->sat, ts); else SGP4(&r->sat, ts);
    // units of SGP4: earth radii and earth radii per minute
    const double er = 6378.135;
    double p[3] = {r->sat.pos.x * er, r->sat.pos.y * er, r->sat.pos.z * er};
    double v[3] = {r->sat.vel.x * er / 60.0, r->sat.vel.y * er / 60.0, r->sat.vel.z * er / 60.0};
    double t = (jd - 2451545.0) / 36525.0;
    double gmst = fmod(280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * t * t, 360.0) * M_PI / 180;
    double th = gmst + r->lon, f = 1 / 298.26, om = 7.2921159e-5;
    double c = 1 / sqrt(1 + f * (f - 2) * sin(r->lat) * sin(r->lat)), s = (1 - f) * (1 - f) * c;
    double o[3] = {(er * c + r->alt) * cos(r->lat) * cos(th), (er * c + r->alt) * cos(r->lat) * sin(th), (er * s + r->alt) * sin(r->lat)};
    double ov[3] = {-om * o[1], om * o[0], 0};
    double d = 0, n = 0;
    for (int k = 0; k < 3; k++) d += (p[k] - o[k]) * (v[k] - ov[k]), n += (p[k] - o[k]) * (p[k] - o[k]);
    return d / sqrt(n);
}
#define MAXREF 60
static void emit_ref(struct ref *r, time_t start, double fc, int n) {
    char b[1200] = "";
    size_t k = 0;
    for (int j = 0; j < n; j++) {
        double d = fc * ref_rate(r, jd_of(start) + j / 86400.0) / 2.99792458E5;
        k += (size_t) snprintf(b + k, sizeof b - k, "%s%ld", j ? "," : "", lround(d * 10));
    }
    ev("\"ev\":\"ref\",\"d\":[%s]", b);
}
void run_doppler(char **l, int n) {
    char dir[8] = "";
    double lat = 0, lon = 0, alt = 0;
    unsigned long fs = 1, fc = 0;
    long off = 0, start = 0;
    unsigned max = 1;
    char tle[3][80];
    int nt = 0;
    memset(tle, 0, sizeof tle);
    if (n < 4 || sscanf(l[0], "doppler %7s %lf %lf %lf %lu %lu %ld %ld %u", dir, &lat, &lon, &alt, &fs, &fc, &off, &start, &max) < 9) return;
    size_t total = 0;
    for (int i = 1; i < n; i++) {
        if (strncmp(l[i], "tle ", 4) == 0 && nt < 3) snprintf(tle[nt++], 80, "%s", l[i] + 4);
        else if (l[i][0] == 'p') total += (size_t) atol(l[i] + 2);
    }
    bool tx = strcmp(dir, "tx") == 0;
    int secs = (int) (total / fs) + 3;
    if (secs > MAXREF) secs = MAXREF;
    doppler *d = NULL;
    char tle2[3][80];
    memcpy(tle2, tle, sizeof tle);
    int64_t saved = sim_epoch;
    sim_epoch = 1583840000;
    int r = doppler_create(lat, lon, alt, fs, fc, off, start, max, tle2, &d);
    // the caller does not keep it
    memset(tle2, 'x', sizeof tle2);
    ev("\"ev\":\"created\",\"r\":%d", r);
    if (r != 0) { sim_epoch = saved; return; }
    struct ref ref;
    ref_init(&ref, tle, lat, lon, alt);
    bool first = true, have = false;
    size_t pos = 0;
    float complex last = 0;
    uint64_t rnd = 88172645463325252ull;
    for (int i = 1; i < n; i++) {
        long v = 0;
        char op[16];
        if (sscanf(l[i], "%15s %ld", op, &v) < 1 || strcmp(op, "tle") == 0) continue;
        if (strcmp(op, "s") == 0) { sim_sleep(v); continue; }
        float complex *out = (float complex *) 1;
        size_t out_len = 77;
        bool bad = op[0] != 'p';
        size_t cnt = strcmp(op, "long") == 0 ? (size_t) max + (v > 0 ? (size_t) v : 1) : strcmp(op, "empty") == 0 ? 0 : strcmp(op, "null") == 0 ? 5 : (size_t) v;
        float complex *in = malloc(sizeof(float complex) * (cnt ? cnt : 1)), *copy = malloc(sizeof(float complex) * (cnt ? cnt : 1));
        for (size_t k = 0; k < cnt; k++) {
            rnd ^= rnd << 13, rnd ^= rnd >> 7, rnd ^= rnd << 17;
            double ph = (double) (rnd % 1000) * 2 * M_PI / 1000, a = 1.0 + (double) ((pos + k) % 97) / 97;
            in[k] = (float) (a * cos(ph)) + (float) (a * sin(ph)) * I;
        }
        memcpy(copy, in, sizeof(float complex) * cnt);
        if (!bad && first) {
            // time of the first sample
            emit_ref(&ref, start == 0 ? (time_t) (sim_epoch + sim_now / 1000) : (time_t) start, (double) fc, secs);
            first = false;
        }
        float complex *arg = strcmp(op, "null") == 0 ? NULL : in;
        if (tx) doppler_process_tx(arg, cnt, &out, &out_len, d); else doppler_process_rx(arg, cnt, &out, &out_len, d);
        char runs[7000] = "[]";
        size_t unit = 0, nr = 0;
        if (!bad && out != NULL && out_len == cnt) {
            size_t b = 0;
            double sum = 0, num = 0;
            size_t from = 0;
            bool open = false;
            for (size_t k = 0; k <= cnt; k++) {
                double f = 0;
                bool ok = false;
                if (k < cnt) {
                    float complex o = out[k] / copy[k];
                    float m = cabsf(o);
                    if (m > 0.999F && m < 1.001F) unit++;
                    if (have) f = cargf(o * conjf(last)) * (double) fs / 2 / M_PI, ok = true;
                    last = o, have = true;
                }
                // f is the frequency of the sample pos + k - 1
                if (open && (!ok || fabs(f - sum / num) > 0.35)) {
                    if (nr < 200) b += (size_t) snprintf(runs + b, sizeof runs - b, "%s[%zu,%zu,%ld]", b ? "," : "", from, (size_t) num, lround(sum / num * 10));
                    nr++;
                    open = false;
                }
                if (ok && !open) open = true, from = pos + k - 1, sum = num = 0;
                if (ok) sum += f, num++;
            }
            if (b == 0) runs[0] = 0; 
        } else runs[0] = 0;
        ev("\"ev\":\"call\",\"op\":\"%s\",\"n\":%zu,\"len\":%zu,\"null\":%s,\"unit\":%zu,\"same\":%s,\"nruns\":%zu,\"runs\":[%s]", op, cnt, out_len, out == NULL ? "true" : "false", unit,
           memcmp(in, copy, sizeof(float complex) * cnt) == 0 ? "true" : "false", nr, runs);
        if (!bad) pos += cnt;
        free(in), free(copy);
    }
    doppler_destroy(d);
    sim_epoch = saved;
}
