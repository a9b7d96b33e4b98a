// client of sdr-server against a scripted server
#define _GNU_SOURCE
#include "comp.h"
#include "sdr/sdr_server_client.h"
#include <complex.h>
#include <signal.h>

static sdr_device *dev;
static sock *lst;
static char buf[600000];
static long sent_bytes;
struct th { char *ops[256]; int n; };

static void stream_byte(long from, uint8_t *o, size_t n) {
    for (size_t i = 0; i < n; i++) {
        long b = from + (long) i, k = b / 8;
        float v = b % 8 < 4 ? (float) (k % 97 + 1) : (float) (-(k % 89) - 1);
        o[i] = ((uint8_t *) &v)[b % 4];
    }
}
static void hexes(char *o, const uint8_t *p, size_t n) {
    o[0] = 0;
    for (size_t i = 0; i < n; i++) sprintf(o + strlen(o), "%s%d", i ? "," : "", p[i]);
}
static void *server(void *arg) {
    struct th *t = arg;
    sock *c = net_accept(lst);
    if (c == NULL) return NULL;
    ev("\"ev\":\"connected\"");
    bool closed = false, alive = true, waited = false, own = true;
    for (int i = 0; i < t->n && alive; i++) {
        char *op = t->ops[i];
        char *a = strchr(op, ':');
        long n = a ? atol(a + 1) : 0;
        if (strcmp(op, "req") == 0) {
            uint8_t r[64];
            size_t d = 0;
            while (d < 15) {
                ssize_t k = net_recv(c, r + d, 15 - d, 20000, NULL);
                if (k <= 0) { alive = own = false; break; }
                d += (size_t) k;
            }
            hexes(buf, r, d);
            ev("\"ev\":\"request\",\"b\":[%s]", buf);
        } else if (strncmp(op, "ans:", 4) == 0) {
            uint8_t r[64];
            size_t k = 0;
            for (char *h = a + 1; h[0] && h[1] && k < 64; h += 2) { unsigned x; sscanf(h, "%2x", &x); r[k++] = (uint8_t) x; }
            hexes(buf, r, k);
            ev("\"ev\":\"answer\",\"b\":[%s]", buf);
            if (net_send(c, r, k, 0) != (ssize_t) k) alive = own = false;
        } else if (strncmp(op, "b:", 2) == 0) {
            uint8_t *p = __real_malloc((size_t) n + 1);
            stream_byte(sent_bytes, p, (size_t) n);
            sent_bytes += n;
            ev("\"ev\":\"sending\",\"n\":%ld", sent_bytes);
            if (net_send(c, p, (size_t) n, 0) != n) alive = own = false;
            else ev("\"ev\":\"sent\",\"n\":%ld", sent_bytes);
            __real_free(p);
        } else if (strncmp(op, "s:", 2) == 0) {
            sim_sleep(n);
        } else if (strcmp(op, "fin") == 0 || strcmp(op, "rst") == 0) {
            ev("\"ev\":\"fin\",\"waited\":false,\"own\":true,\"rst\":%s", op[0] == 'r' ? "true" : "false");
            net_close(c, op[0] == 'r');
            closed = true;
            alive = false;
        } else if (strcmp(op, "shut") == 0) {
            ev("\"ev\":\"fin\",\"waited\":false,\"own\":true,\"rst\":false");
            net_shut_wr(c);
        } else if (strcmp(op, "wait") == 0 || strcmp(op, "bye") == 0) {
            // reads everything from the client. bye - closes as soon as shutdown is received
            while (true) {
                uint8_t r[16];
                ssize_t k = net_recv(c, r, sizeof r, 0, NULL);
                if (k <= 0) { waited = true; own = false; break; }
                hexes(buf, r, (size_t) k);
                ev("\"ev\":\"got\",\"b\":[%s]", buf);
                if (op[0] == 'b') break;
            }
        }
    }
    // the client has closed the connection or the script is over
    if (!closed) {
        ev("\"ev\":\"fin\",\"waited\":%s,\"own\":%s,\"rst\":false", waited ? "true" : "false", own ? "true" : "false");
        net_close(c, false);
    }
    return NULL;
}
static long maxlen;
static bool rx_once(void) {
    float complex *out = NULL;
    size_t n = 12345;
    int64_t t = sim_now;
    ev("\"ev\":\"rxcall\"");
    int r = dev->sdr_process_rx(&out, &n, dev->plugin);
    buf[0] = 0;
    if (n > 0 && n <= (size_t) maxlen && out != NULL) scaled(buf, sizeof buf, (float *) out, 2 * n, 1);
    ev("\"ev\":\"rx\",\"r\":\"%s\",\"n\":%zu,\"ms\":%ld,\"s\":[%s]", r == 0 ? "ok" : r == -1 ? "end" : "timeout", n, (long) (sim_now - t), buf);
    // the same rule as in the worker
    return !(r == -1 && n == 0);
}
static void *runner(void *arg) {
    struct th *t = arg;
    for (int i = 0; i < t->n; i++) {
        char *op = t->ops[i];
        long a = strchr(op, ':') ? atol(strchr(op, ':') + 1) : 0;
        if (strcmp(op, "rx") == 0) rx_once();
        else if (strcmp(op, "drain") == 0) { while (rx_once()) sim_yield(); }
        else if (strcmp(op, "stop") == 0) {
            int64_t b = sim_now;
            ev("\"ev\":\"stop\"");
            dev->stop_rx(dev->plugin);
            ev("\"ev\":\"stopped\",\"ms\":%ld", (long) (sim_now - b));
        }
        else if (op[0] == 'y') { for (; a > 0; a--) sim_yield(); }
        else if (op[0] == 's') sim_sleep(a);
    }
    return NULL;
}
void run_sdr(char **l, int n) {
    char *w[260];
    dev = NULL;
    // as in main
    signal(SIGPIPE, SIG_IGN);
    sent_bytes = 0;
    unsigned long cf, sf;
    long off, timeout, cap;
    int listening;
    if (sscanf(l[0], "sdr %lu %ld %lu %ld %ld %ld %d", &cf, &off, &sf, &timeout, &maxlen, &cap, &listening) < 7) return;
    net_cap = (size_t) cap;
    if (lst == NULL) lst = net_listen(net_sdr_port);
    for (int i = 1; i < n; i++) {
        char nm[64];
        int nth = 1, count = 1;
        if (sscanf(l[i], "fault %63s %d %d", nm, &nth, &count) >= 1) fault_add(nm, nth, count);
    }
    static struct th ths[5];
    sim_thread *st[5], *srv = NULL;
    int k = 1;
    bool faulty = false;
    for (int i = 1; i < n && k < 5; i++) {
        if (strncmp(l[i], "fault", 5) == 0) faulty = true;
        if (strncmp(l[i], "t ", 2) != 0 && strncmp(l[i], "s ", 2) != 0) continue;
        struct th *x = l[i][0] == 's' ? &ths[0] : &ths[k++];
        int c = words(l[i], w, 256);
        x->n = c - 1;
        memcpy(x->ops, w + 1, sizeof(char *) * (size_t) (c - 1));
    }
    if (listening && !faulty) srv = sim_spawn("server", server, &ths[0], false);
    struct sdr_rx rx = {.rx_center_freq = cf, .rx_sampling_freq = sf, .rx_offset = off};
    int64_t b = sim_now;
    char addr[] = "127.0.0.1";
    int r = sdr_server_client_create(3, &rx, addr, listening ? net_sdr_port : net_sdr_port + 1, (int) timeout, (uint32_t) maxlen, &dev);
    ev("\"ev\":\"created\",\"r\":%d,\"ms\":%ld", r == 0 ? 0 : -1, (long) (sim_now - b));
    if (r == 0) {
        if (k == 2) runner(&ths[1]);
        else {
            for (int i = 1; i < k; i++) st[i] = sim_spawn("c", runner, &ths[i], false);
            for (int i = 1; i < k; i++) sim_join(st[i]);
        }
        ev("\"ev\":\"destroying\"");
        dev->destroy(dev->plugin);
        free(dev);
    }
    ev("\"ev\":\"closed\"");
    if (srv) sim_join(srv);
}
