#define _GNU_SOURCE
#include "net.h"
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include "sdr/iio_lib.h"

struct iio_context { int id; };
struct iio_device { char name[40]; };
struct iio_channel { struct iio_device *dev; char name[32]; bool out; int enabled; };
struct iio_buffer { const struct iio_device *dev; size_t n; int16_t *p; size_t got; int cap; bool tx; int inst, refills; long k; bool eof; };
struct iio_scan_context { int x; };
struct iio_context_info { int x; };

int iio_ctx_live = 0, iio_buf_live = 0, iio_lib_live = 0, iio_chn_live = 0;
static int scan_live = 0, list_live = 0;
long iio_rx_total = 512;
struct iiocap iiocaps[64];
int niiocaps = 0;
static long tx_freq = 0, rx_freq = 0;
static int rx_inst = 0;
// every iio_short-th refill returns a half. raw samples are printed
int iio_short = 0;
bool iio_emit = false;
static char emitbuf[200000];

static struct iio_channel *chns[64];
static int nchns = 0;
static struct iio_device *devs[8];
static int ndevs = 0;

static void need_ctx(const char *what) {
    if (iio_ctx_live <= 0) ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"iio %s without context\"", what);
}
static void need(const void *p, const char *what) {
    if (p == NULL) { ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"iio %s of NULL\"", what); _exit(0); }
}
static void *m_end(const struct iio_buffer *b) { return b->p + b->got * 2; }
static void *m_first(const struct iio_buffer *b, const struct iio_channel *c) { (void) c; return b->p; }
static ssize_t m_push(struct iio_buffer *b, size_t n) {
    sim_yield();
    if (fault_hit("iio_push")) return -ETIMEDOUT;
    if (n > b->n) { ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"push more than buffer\""); return -EINVAL; }
    struct iiocap *c = &iiocaps[b->cap];
    if (c->n + n * 2 > c->cap) { c->cap = (c->n + n * 2) * 2; c->p = __real_realloc(c->p, c->cap * sizeof(int16_t)); }
    memcpy(c->p + c->n, b->p, n * 2 * sizeof(int16_t));
    c->n += n * 2;
    ev("\"ev\":\"txput\",\"c\":%ld,\"n\":%zu", c->freq % 100000, n);
    return (ssize_t) (n * 4);
}
static ssize_t m_refill(struct iio_buffer *b) {
    sim_sleep(5);
    bool fault = fault_hit("iio_refill");
    if (fault || b->k >= iio_rx_total) {
        // no data. blocks until timeout
        if (!fault) sim_sleep(500);
        if (!b->eof) ev("\"ev\":\"sdreof\",\"s\":%d", 2000 + b->inst);
        b->eof = true;
        return -ETIMEDOUT;
    }
    b->got = b->n;
    if (iio_short > 0 && ++b->refills % iio_short == 0) b->got = b->n / 2;
    for (size_t i = 0; i < b->got; i++) {
        uint32_t h = (uint32_t) (b->k * 2654435761u) ^ (uint32_t) (b->inst * 40503u);
        int16_t I = (int16_t) (((b->k * 1103) & 0xfff) - 2048);
        int16_t Q = (int16_t) ((int) (((unsigned) b->inst & 15) << 12 | ((h >> 8) & 0xfff)) - 32768);
        b->p[2 * i] = I;
        b->p[2 * i + 1] = Q;
        float o[2] = {I / 2048.0f, Q / 2048.0f};
        sample_add(o, 2000 + b->inst, b->k);
        b->k++;
    }
    if (iio_emit) {
        size_t k = 0;
        emitbuf[0] = 0;
        for (size_t i = 0; i < 2 * b->got; i++) k += (size_t) sprintf(emitbuf + k, "%s%d", i ? "," : "", b->p[i]);
        ev("\"ev\":\"refill\",\"s\":[%s]", emitbuf);
    } else ev("\"ev\":\"push\",\"s\":%d,\"n\":%ld", 2000 + b->inst, b->k);
    return (ssize_t) (b->got * 4);
}
static struct iio_device *m_finddev(const struct iio_context *c, const char *name) {
    need_ctx("find_device");
    volatile int x = c->id; (void) x;
    sim_yield();
    char fn[64];
    // the device is missing: every attempt fails
    snprintf(fn, sizeof fn, "iio_no:%s", name);
    if (fault_hit(fn)) return NULL;
    for (int i = 0; i < ndevs; i++) if (strcmp(devs[i]->name, name) == 0) return devs[i];
    struct iio_device *d = __real_calloc(1, sizeof *d);
    snprintf(d->name, sizeof d->name, "%s", name);
    devs[ndevs++] = d;
    return d;
}
static struct iio_channel *m_findchn(const struct iio_device *d, const char *name, bool out) {
    sim_yield();
    need(d, "find_channel");
    if (fault_hit("iio_findchn")) return NULL;
    for (int i = 0; i < nchns; i++) if (chns[i]->dev == d && chns[i]->out == out && strcmp(chns[i]->name, name) == 0) return chns[i];
    struct iio_channel *c = __real_calloc(1, sizeof *c);
    c->dev = (struct iio_device *) d;
    c->out = out;
    snprintf(c->name, sizeof c->name, "%s", name);
    chns[nchns++] = c;
    return c;
}
static void m_strerror(int e, char *d, size_t n) { snprintf(d, n, "error %d", e); }
static ssize_t m_attr(const struct iio_channel *c, const char *a, const char *s) {
    if (fault_hit("iio_attr")) return -EINVAL;
    ev("\"ev\":\"iiostr\",\"d\":\"%s\",\"ch\":\"%s\",\"out\":%s,\"a\":\"%s\",\"v\":\"%s\"", c->dev->name, c->name, c->out ? "true" : "false", a, s);
    return (ssize_t) strlen(s);
}
static int m_attrll(const struct iio_channel *c, const char *a, long long v) {
    sim_yield();
    need_ctx("attr");
    if (fault_hit("iio_attr")) return -EINVAL;
    if (strcmp(c->name, "altvoltage1") == 0 && strcmp(a, "frequency") == 0) tx_freq = (long) v;
    if (strcmp(c->name, "altvoltage0") == 0 && strcmp(a, "frequency") == 0) rx_freq = (long) v;
    ev("\"ev\":\"iioll\",\"d\":\"%s\",\"ch\":\"%s\",\"out\":%s,\"a\":\"%s\",\"k\":%lld,\"u\":%lld", c->dev->name, c->name, c->out ? "true" : "false", a, v / 1000000 > 2000000000 ? 2000000000 : v / 1000000, v % 1000000);
    return 0;
}
static int m_devbool(const struct iio_device *d, const char *a, bool v) {
    need(d, "attr");
    if (fault_hit("iio_attr")) return -EINVAL;
    ev("\"ev\":\"iiodevbool\",\"d\":\"%s\",\"a\":\"%s\",\"v\":%s", d->name, a, v ? "true" : "false");
    return 0;
}
static int m_chnbool(const struct iio_channel *c, const char *a, bool v) {
    need(c, "attr");
    if (fault_hit("iio_attr")) return -EINVAL;
    ev("\"ev\":\"iiobool\",\"d\":\"%s\",\"ch\":\"%s\",\"out\":%s,\"a\":\"%s\",\"v\":%s", c->dev->name, c->name, c->out ? "true" : "false", a, v ? "true" : "false");
    return 0;
}
static int m_attrd(const struct iio_channel *c, const char *a, double v) {
    if (fault_hit("iio_attr")) return -EINVAL;
    ev("\"ev\":\"iiod\",\"d\":\"%s\",\"ch\":\"%s\",\"out\":%s,\"a\":\"%s\",\"v\":%d", c->dev->name, c->name, c->out ? "true" : "false", a, (int) (v * 100));
    return 0;
}
static ssize_t m_raw(const struct iio_device *d, const char *a, const void *s, size_t n) {
    need(d, "attr");
    if (fault_hit("iio_raw")) return -EINVAL;
    // number of lines and the header
    const char *c = s;
    int lines = 0, rxdec = 0, txint = 0;
    char tmp[64];
    for (size_t i = 0; i < n; i++) lines += c[i] == '\n';
    char *buf = __real_malloc(n + 1);
    memcpy(buf, s, n);
    buf[n] = 0;
    char *p = strstr(buf, "DEC ");
    if (p) rxdec = atoi(p + 4);
    p = strstr(buf, "INT ");
    if (p) txint = atoi(p + 4);
    (void) tmp;
    // sums of coefficients
    long taps = 0, ts = 0, tw = 0, rs = 0, rw = 0;
    for (char *q = buf; q && *q; q = strchr(q, '\n') ? strchr(q, '\n') + 1 : NULL) {
        int t, r;
        if (sscanf(q, "%d,%d", &t, &r) != 2) continue;
        taps++;
        ts += t;
        tw += t * taps;
        rs += r;
        rw += r * taps;
    }
    ev("\"ev\":\"iioraw\",\"d\":\"%s\",\"a\":\"%s\",\"dec\":%d,\"int\":%d,\"taps\":%ld,\"tx\":[%ld,%ld],\"rx\":[%ld,%ld]", d->name, a, rxdec, txint, taps, ts, tw, rs, rw);
    __real_free(buf);
    return (ssize_t) n;
}
static struct iio_scan_context *m_scan(const char *b, unsigned f) {
    (void) b; (void) f;
    sim_yield();
    if (fault_hit("iio_scan")) return NULL;
    scan_live++;
    return __real_calloc(1, sizeof(struct iio_scan_context));
}
static ssize_t m_list(struct iio_scan_context *s, struct iio_context_info ***info) {
    (void) s;
    if (fault_hit("iio_list")) return -EIO;
    if (fault_hit("iio_list0")) return 0;
    list_live++;
    *info = __real_calloc(2, sizeof **info);
    (*info)[0] = __real_calloc(1, sizeof ***info);
    return 1;
}
static void m_scandestroy(struct iio_scan_context *s) { scan_live--; __real_free(s); }
static const char *m_uri(const struct iio_context_info *i) { volatile int x = i->x; (void) x; return "usb:1.2.3"; }
static struct iio_context *m_ctx(const char *u) {
    (void) u;
    sim_yield();
    if (fault_hit("iio_ctx")) return NULL;
    iio_ctx_live++;
    ev("\"ev\":\"ctxopen\"");
    return __real_calloc(1, sizeof(struct iio_context));
}
static void m_listfree(struct iio_context_info **i) { list_live--; __real_free(i[0]); __real_free(i); }
static int m_timeout(struct iio_context *c, unsigned ms) {
    volatile int x = c->id; (void) x;
    need_ctx("timeout");
    if (fault_hit("iio_timeout")) return -EINVAL;
    ev("\"ev\":\"iiotimeout\",\"v\":%u", ms > 2000000000 ? 2000000000 : ms);
    return 0;
}
static void m_enable(struct iio_channel *c) { if (!c->enabled) iio_chn_live++; c->enabled = 1; }
static void m_disable(struct iio_channel *c) {
    need_ctx("disable");
    if (c->enabled > 0) { iio_chn_live--; c->enabled = 0; }
}
static struct iio_buffer *m_buf(const struct iio_device *d, size_t n, bool cyclic) {
    (void) cyclic;
    sim_yield();
    if (fault_hit("iio_buf")) return NULL;
    struct iio_buffer *b = __real_calloc(1, sizeof *b);
    b->dev = d;
    b->n = b->got = n;
    b->p = __real_calloc(n * 2, sizeof(int16_t));
    b->tx = strstr(d->name, "dds") != NULL;
    iio_buf_live++;
    if (b->tx) {
        b->cap = niiocaps++;
        iiocaps[b->cap].freq = tx_freq;
        ev("\"ev\":\"txopen\",\"c\":%ld", tx_freq % 100000);
    } else {
        b->inst = rx_inst++;
        b->cap = (int) (rx_freq % 100000);
        ev("\"ev\":\"rxopen\",\"c\":%d,\"s\":%d", b->cap, 2000 + b->inst);
    }
    return b;
}
static void m_bufdestroy(struct iio_buffer *b) {
    sim_yield();
    need_ctx("buffer_destroy");
    iio_buf_live--;
    if (b->tx) ev("\"ev\":\"txclose\",\"c\":%ld", iiocaps[b->cap].freq % 100000);
    else ev("\"ev\":\"rxclose\",\"c\":%d", b->cap);
    __real_free(b->p);
    __real_free(b);
}
static void m_ctxdestroy(struct iio_context *c) {
    sim_yield();
    iio_ctx_live--;
    ev("\"ev\":\"ctxclose\"");
    if (iio_buf_live > 0) ev("\"ev\":\"anomaly\",\"kind\":\"crash\",\"msg\":\"context destroyed under a buffer\"");
    __real_free(c);
}
iio_lib *iio_mock_lib(void) {
    struct iio_lib_t *l = __real_calloc(1, sizeof *l);
    l->iio_buffer_end = m_end;
    l->iio_buffer_first = m_first;
    l->iio_buffer_push_partial = m_push;
    l->iio_buffer_refill = m_refill;
    l->iio_context_find_device = m_finddev;
    l->iio_device_find_channel = m_findchn;
    l->iio_strerror = m_strerror;
    l->iio_channel_attr_write = m_attr;
    l->iio_channel_attr_write_longlong = m_attrll;
    l->iio_device_attr_write_bool = m_devbool;
    l->iio_channel_attr_write_bool = m_chnbool;
    l->iio_channel_attr_write_double = m_attrd;
    l->iio_device_attr_write_raw = m_raw;
    l->iio_create_scan_context = m_scan;
    l->iio_scan_context_get_info_list = m_list;
    l->iio_scan_context_destroy = m_scandestroy;
    l->iio_context_info_get_uri = m_uri;
    l->iio_create_context_from_uri = m_ctx;
    l->iio_context_info_list_free = m_listfree;
    l->iio_context_set_timeout = m_timeout;
    l->iio_channel_enable = m_enable;
    l->iio_device_create_buffer = m_buf;
    l->iio_buffer_destroy = m_bufdestroy;
    l->iio_channel_disable = m_disable;
    l->iio_context_destroy = m_ctxdestroy;
    return l;
}
int __wrap_iio_lib_create(iio_lib **lib) {
    if (fault_hit("iio_lib")) return -1;
    iio_lib_live++;
    *lib = iio_mock_lib();
    return 0;
}
void __wrap_iio_lib_destroy(iio_lib *lib) {
    if (lib == NULL) return;
    iio_lib_live--;
    __real_free(lib);
}
int iio_leaks(void) { return iio_ctx_live + iio_buf_live + iio_lib_live + scan_live + list_live; }
