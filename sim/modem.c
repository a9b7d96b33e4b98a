// Runs the real modem (its main) against scripted clients and a scripted sdr-server.
#define _GNU_SOURCE
#include "net.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <complex.h>
#include <math.h>
#include <arpa/inet.h>
#include "dsp/fsk_demod.h"
#include "dsp/gfsk_mod.h"
#include "dsp/sig_source.h"
#include "dsp/doppler.h"

int sdr_modem_main(int argc, char **argv);
extern int64_t sim_limit;
int iio_leaks(void);

#define MAXCONN 4096
struct conn {
    bool used;
    sock *s;
    struct bytes got;
    size_t pos;         // parsed
    int nresp;
    bool eof, connected;
    struct bytes payload; // tx data sent
    // reference parameters
    bool rxp, txp;
    long fs, baud, dev, dec, tw, dc, buf, off;
    int dump, dest;
    char txfile[600];
    // state when the server closed the socket
    bool sclosed;
    long dump_at_close, demod_at_close, tx_at_close, txdump_at_close;
    size_t rawstart;
    bool israw;
    // doppler correction: center frequency and start time. Sizes of buffers read from the file, sizes of messages
    bool dopp;
    long cf, start, rxoff;
    struct bytes chunks, msgs;
};
static struct conn conns[MAXCONN];
static char flags[64][32];
static int nflags = 0;
static char base[400] = "/nonexistent";
static bool has_flag(const char *f) {
    for (int i = 0; i < nflags; i++) if (strcmp(flags[i], f) == 0) return true;
    return false;
}
static bool flag_ready(void *a) { return has_flag(a); }
static void set_flag(const char *f) { if (!has_flag(f) && nflags < 64) snprintf(flags[nflags++], 32, "%s", f); }

struct actor { char kind[16]; char name[32]; char **lines; int n, cap; sim_thread *t; bool done; };
static struct actor actors[128];
static int nactors = 0;

static size_t unhex(const char *h, uint8_t *o, size_t max) {
    size_t n = 0;
    if (strcmp(h, "-") == 0) return 0;
    for (; h[0] && h[1] && n < max; h += 2) {
        unsigned v;
        if (sscanf(h, "%2x", &v) != 1) break;
        o[n++] = (uint8_t) v;
    }
    return n;
}

// ---------------------------------------------------------------- client side
static void client_parse(struct conn *c) {
    while (!c->israw && c->got.len - c->pos >= 6) {
        uint8_t *p = c->got.p + c->pos;
        uint32_t len = (uint32_t) p[2] << 24 | (uint32_t) p[3] << 16 | (uint32_t) p[4] << 8 | p[5];
        if (c->got.len - c->pos < 6 + (size_t) len) break;
        c->pos += 6 + len;
        c->nresp++;
        if (c->rxp) { c->israw = true; c->rawstart = c->pos; }
    }
}
// false on eof
static bool client_read(struct conn *c, int64_t timeout, bool *to) {
    uint8_t tmp[4096];
    if (c->s == NULL) return false;
    ssize_t r = net_recv(c->s, tmp, sizeof tmp, timeout, to);
    if (r < 0 && to && *to) return true;
    if (r <= 0) {
        if (!c->eof) ev("\"ev\":\"ceof\",\"c\":%d", (int) (c - conns));
        c->eof = true;
        return false;
    }
    bytes_add(&c->got, tmp, (size_t) r);
    client_parse(c);
    return true;
}
static bool sclosed_ready(void *a) { return net_server_closed((int) (intptr_t) a); }

static bool in_main = false;
static int idof(int c) { return conn_modem_id[c]; }
void on_server_close(int conn) {
    struct conn *c = &conns[conn];
    c->sclosed = true;
    char p[700];
    c->dump_at_close = c->demod_at_close = c->tx_at_close = c->txdump_at_close = -1;
    if (idof(conn) >= 0) {
        snprintf(p, sizeof p, "%s/rx.sdr2demod.%d.cf32", base, idof(conn));
        c->dump_at_close = files_disk_size(p);
        snprintf(p, sizeof p, "%s/rx.demod2client.%d.s8", base, idof(conn));
        c->demod_at_close = files_disk_size(p);
        snprintf(p, sizeof p, "%s/tx.mod2sdr.%d.cf32", base, idof(conn));
        c->txdump_at_close = files_disk_size(p);
    }
    if (c->txfile[0]) c->tx_at_close = files_disk_size(c->txfile);
    ev("\"ev\":\"sclose\",\"c\":%d", conn);
}
void on_tx_file_write(struct tfile *t, size_t n) {
    const char *b = strrchr(t->path, '/');
    b = b ? b + 1 : t->path;
    if (strncmp(b, "txd", 3) == 0) ev("\"ev\":\"txput\",\"c\":%d,\"n\":%zu", atoi(b + 3), n / 8);
}
static int dev_file(struct tfile *t, const char *prefix) {
    const char *b = strrchr(t->path, '/');
    b = b ? b + 1 : t->path;
    if (strncmp(b, prefix, 3) != 0) return -1;
    return atoi(b + 3);
}
void on_file_open(struct tfile *t) {
    int c = t->mode == 'w' ? dev_file(t, "txd") : -1;
    if (c >= 0) ev("\"ev\":\"txopen\",\"c\":%d", c);
    c = t->mode == 'r' ? dev_file(t, "rxd") : -1;
    if (c >= 0) ev("\"ev\":\"rxopen\",\"c\":%d,\"s\":%d", c, 1000 + c);
}
void on_file_close(struct tfile *t) {
    int c = t->mode == 'w' ? dev_file(t, "txd") : -1;
    if (c >= 0) ev("\"ev\":\"txclose\",\"c\":%d", c);
    c = t->mode == 'r' ? dev_file(t, "rxd") : -1;
    if (c >= 0) ev("\"ev\":\"rxclose\",\"c\":%d", c);
}
void on_file_read(struct tfile *t, size_t n) {
    int c = dev_file(t, "rxd");
    if (c < 0) return;
    t->written += (long) n;
    size_t smp = n / 8;
    if (smp > 0 && c < MAXCONN) bytes_add(&conns[c].chunks, &smp, sizeof smp);
    ev("\"ev\":\"push\",\"s\":%d,\"n\":%ld", 1000 + c, t->written / 8);
}
static void do_send(struct conn *c, const uint8_t *p, size_t n, int pieces, int64_t gap) {
    size_t off = 0;
    for (int i = 0; i < pieces && off < n; i++) {
        size_t k = i == pieces - 1 ? n - off : 1 + sim_rand_n(n - off);
        ssize_t r = 0;
        size_t d = 0;
        while (d < k) {
            r = net_send(c->s, p + off + d, k - d, 60000);
            if (r <= 0) return;
            d += (size_t) r;
        }
        off += k;
        if (gap > 0 && off < n) sim_sleep((int64_t) sim_rand_n((uint64_t) gap) + 1);
    }
}
static bool all_clients_done(void *a) {
    (void) a;
    for (int i = 0; i < nactors; i++) if (strcmp(actors[i].kind, "client") == 0 && !actors[i].done) return false;
    return true;
}
static bool handler_ready(void *a) {
    struct sigaction sa;
    return !in_main || (sigaction((int) (intptr_t) a, NULL, &sa) == 0 && sa.sa_handler != SIG_DFL);
}
static void *actor_main(void *arg) {
    struct actor *a = arg;
    struct conn *c = NULL;
    int cid = 0;
    uint8_t *buf = __real_malloc(1 << 17);
    for (int i = 0; i < a->n; i++) {
        char *line = a->lines[i];
        char cmd[32];
        int off = 0;
        if (sscanf(line, "%31s %n", cmd, &off) < 1) continue;
        char *rest = line + off;
        if (strcmp(cmd, "connect") == 0) {
            cid = atoi(rest);
            c = &conns[cid];
            for (int k = 0; k < 400; k++) {
                c->s = net_connect(net_modem_port, cid);
                if (c->s != NULL || has_flag("stopped")) break;
                sim_sleep(10);
            }
            c->connected = c->s != NULL;
            ev("\"ev\":\"conn\",\"c\":%d,\"ok\":%s", cid, c->s ? "true" : "false");
            sim_yield();
            if (c->s == NULL) break;
        } else if (strcmp(cmd, "use") == 0) {
            cid = atoi(rest);
            c = &conns[cid];
        } else if (strcmp(cmd, "meta") == 0) {
            ev("%s", rest);
        } else if (strcmp(cmd, "send") == 0) {
            int pieces = 1;
            long gap = 0;
            char *sp = strchr(rest, ' ');
            if (sp) { *sp = 0; sscanf(sp + 1, "%d %ld", &pieces, &gap); }
            size_t n = unhex(rest, buf, 1 << 17);
            do_send(c, buf, n, pieces, gap);
            ev("\"ev\":\"csent\",\"c\":%d", cid);
        } else if (strcmp(cmd, "zeros") == 0) {
            // many bytes
            long n = atol(rest);
            memset(buf, 0, 1 << 16);
            while (n > 0) {
                long k = n > (1 << 16) ? (1 << 16) : n;
                do_send(c, buf, (size_t) k, 1, 0);
                n -= k;
            }
        } else if (strcmp(cmd, "txdata") == 0) {
            int pieces = 1;
            long gap = 0;
            char *sp = strchr(rest, ' ');
            size_t total = 0;
            if (sp) { *sp = 0; sscanf(sp + 1, "%d %ld %zu", &pieces, &gap, &total); }
            uint8_t *pl = __real_malloc(1 << 16);
            size_t n = unhex(rest, pl, 1 << 16);
            bytes_add(&c->payload, pl, n);
            bytes_add(&c->msgs, &n, sizeof n);
            size_t k = 6;
            buf[k++] = 0x0a;
            size_t v = n;
            while (v >= 128) { buf[k++] = (uint8_t) (v | 0x80); v >>= 7; }
            buf[k++] = (uint8_t) v;
            memcpy(buf + k, pl, n);
            k += n;
            if (total >= k - 6 + 4) {
                // field unknown to the server makes the message as long as needed
                size_t fill = total - (k - 6) - 4;
                buf[k++] = 0x7a;
                buf[k++] = (uint8_t) (fill | 0x80); buf[k++] = (uint8_t) ((fill >> 7) | 0x80); buf[k++] = (uint8_t) (fill >> 14);
                memset(buf + k, 'x', fill);
                k += fill;
            }
            size_t body = k - 6;
            buf[0] = 0; buf[1] = 4; buf[2] = (uint8_t) (body >> 24); buf[3] = (uint8_t) (body >> 16); buf[4] = (uint8_t) (body >> 8); buf[5] = (uint8_t) body;
            ev("\"ev\":\"ctx\",\"c\":%d,\"n\":%zu", cid, n);
            do_send(c, buf, k, pieces, gap);
            ev("\"ev\":\"csent\",\"c\":%d", cid);
            __real_free(pl);
        } else if (strcmp(cmd, "resp") == 0) {
            int want = atoi(rest);
            int64_t end = sim_now + 120000;
            while (c->nresp < want) {
                bool to = false;
                if (sim_now >= end) { ev("\"ev\":\"giveup\",\"c\":%d,\"what\":\"resp\"", cid); break; }
                if (!client_read(c, end - sim_now, &to)) break;
            }
        } else if (strcmp(cmd, "rdata") == 0) {
            size_t want = (size_t) atol(rest);
            int64_t end = sim_now + 120000;
            while (c->got.len - c->rawstart < want || !c->israw) {
                bool to = false;
                if (sim_now >= end) { ev("\"ev\":\"giveup\",\"c\":%d,\"what\":\"data\"", cid); break; }
                if (!client_read(c, end - sim_now, &to)) break;
            }
        } else if (strcmp(cmd, "eof") == 0) {
            int64_t end = sim_now + 200000;
            while (!c->eof) {
                bool to = false;
                if (sim_now >= end) { ev("\"ev\":\"giveup\",\"c\":%d,\"what\":\"eof\"", cid); break; }
                if (!client_read(c, end - sim_now, &to)) break;
            }
        } else if (strcmp(cmd, "stay") == 0) {
            // reads until the server closes the connection. does not delay the driver
            a->done = true;
            while (!c->eof) {
                bool to = false;
                if (!client_read(c, 4000000, &to)) break;
            }
        } else if (strcmp(cmd, "close") == 0) {
            ev("\"ev\":\"cclose\",\"c\":%d", cid);
            net_close(c->s, false);
        } else if (strcmp(cmd, "abort") == 0) {
            ev("\"ev\":\"cclose\",\"c\":%d", cid);
            net_close(c->s, true);
        } else if (strcmp(cmd, "shutwr") == 0) {
            ev("\"ev\":\"cshut\",\"c\":%d", cid);
            net_shut_wr(c->s);
        } else if (strcmp(cmd, "sleep") == 0) {
            sim_sleep(atol(rest));
        } else if (strcmp(cmd, "rsleep") == 0) {
            sim_sleep((int64_t) sim_rand_n((uint64_t) atol(rest) + 1));
        } else if (strcmp(cmd, "until") == 0) {
            // reads everything until the moment
            int64_t end = atol(rest);
            while (c != NULL && c->s != NULL && !c->s->closed && !c->eof && sim_now < end) {
                bool to = false;
                if (!client_read(c, end - sim_now, &to)) break;
            }
            if (sim_now < end) sim_sleep(end - sim_now);
        } else if (strcmp(cmd, "set") == 0) {
            set_flag(rest);
        } else if (strcmp(cmd, "wait") == 0) {
            if (!sim_block(flag_ready, rest, sim_now + 400000)) ev("\"ev\":\"giveup\",\"c\":%d,\"what\":\"flag\"", cid);
        } else if (strcmp(cmd, "waitsclose") == 0) {
            int w = atoi(rest);
            if (!sim_block(sclosed_ready, (void *) (intptr_t) w, sim_now + 200000)) ev("\"ev\":\"giveup\",\"c\":%d,\"what\":\"sclose\"", w);
        } else if (strcmp(cmd, "waitclients") == 0) {
            if (!sim_block(all_clients_done, NULL, sim_now + 1000000)) ev("\"ev\":\"giveup\",\"c\":0,\"what\":\"clients\"");
        } else if (strcmp(cmd, "stop") == 0) {
            ev("\"ev\":\"stop\"");
            long limit = 0;
            int sig = SIGTERM;
            sscanf(rest, "%ld %d", &limit, &sig);
            if (!has_flag("stopped")) sim_limit = sim_now + (limit > 0 ? limit : 400000);
            set_flag("stopped");
            // before the handler is installed the process is just terminated
            sim_block(handler_ready, (void *) (intptr_t) sig, sim_now + 1000);
            sim_signal_main(sig);
        }
    }
    a->done = true;
    __real_free(buf);
    return NULL;
}

// ---------------------------------------------------------------- sdr server
struct sess {
    int id;
    sock *s;
    struct actor *script;
    bool shut, closed;
    long k;
    int shutmode; // 0 close, 1 ignore, 2 slow
    long shutdelay;
};
static int nsess = 0;
static long key_seen[256][2];
static int nkeys = 0;
static bool rd_all(sock *s, void *p, size_t n) {
    size_t d = 0;
    while (d < n) {
        bool to;
        ssize_t r = net_recv(s, (char *) p + d, n - d, 0, &to);
        if (r <= 0) return false;
        d += (size_t) r;
    }
    return true;
}
static bool shut_ready(void *a) { struct sess *s = a; return s->shut || s->closed; }
static void *sess_reader(void *arg) {
    struct sess *s = arg;
    for (;;) {
        uint8_t h[2];
        if (!rd_all(s->s, h, 2)) break;
        if (h[1] == 1) {
            ev("\"ev\":\"sdrshut\",\"s\":%d", s->id);
            if (s->shutmode == 1) continue;
            if (s->shutmode == 2) sim_sleep(s->shutdelay);
            s->shut = true;
            if (!s->closed) { s->closed = true; net_close(s->s, false); }
            break;
        }
    }
    s->closed = true;
    return NULL;
}
static bool push_bytes(struct sess *s, const uint8_t *p, size_t n) {
    size_t d = 0;
    while (d < n) {
        if (s->shut || s->closed) return false;
        ssize_t r = net_send(s->s, p + d, n - d, 100);
        if (r < 0 && errno == EAGAIN) continue;
        if (r <= 0) return false;
        d += (size_t) r;
    }
    return true;
}
static void *sess_main(void *arg) {
    struct sess *s = arg;
    uint8_t rq[15];
    if (!rd_all(s->s, rq, 15)) { net_close(s->s, false); s->closed = true; return NULL; }
    uint32_t center, rate, band;
    memcpy(&center, rq + 2, 4);
    memcpy(&rate, rq + 6, 4);
    memcpy(&band, rq + 10, 4);
    center = ntohl(center); rate = ntohl(rate); band = ntohl(band);
    int nth = 0;
    int ki = -1;
    for (int i = 0; i < nkeys; i++) if (key_seen[i][0] == (long) band) ki = i;
    if (ki < 0) { ki = nkeys++; key_seen[ki][0] = band; key_seen[ki][1] = 0; }
    nth = (int) key_seen[ki][1]++;
    ev("\"ev\":\"sdrreq\",\"s\":%d,\"center\":%u,\"band\":%u,\"rate\":%u,\"dest\":%d,\"ver\":%d,\"type\":%d", s->id, center, band, rate, rq[14], rq[0], rq[1]);
    char name[32];
    struct actor *a = NULL;
    snprintf(name, sizeof name, "%u.%d", band, nth);
    for (int i = 0; i < nactors && !a; i++) if (strcmp(actors[i].kind, "sdr") == 0 && strcmp(actors[i].name, name) == 0) a = &actors[i];
    snprintf(name, sizeof name, "%u", band);
    for (int i = 0; i < nactors && !a; i++) if (strcmp(actors[i].kind, "sdr") == 0 && strcmp(actors[i].name, name) == 0) a = &actors[i];
    for (int i = 0; i < nactors && !a; i++) if (strcmp(actors[i].kind, "sdr") == 0 && strcmp(actors[i].name, "*") == 0) a = &actors[i];
    sim_spawn("sdrrd", sess_reader, s, false);
    for (int i = 0; a && i < a->n && !s->closed; i++) {
        char cmd[32];
        int off = 0;
        if (sscanf(a->lines[i], "%31s %n", cmd, &off) < 1) continue;
        char *rest = a->lines[i] + off;
        if (strcmp(cmd, "accept") == 0 || strcmp(cmd, "reject") == 0) {
            uint8_t r[8] = {0, 2, (uint8_t) (cmd[0] == 'a' ? 0 : 1), 0, 0, 0, (uint8_t) (cmd[0] == 'a' ? 0 : 7)};
            ev("\"ev\":\"sdrresp\",\"s\":%d,\"ok\":%s", s->id, cmd[0] == 'a' ? "true" : "false");
            push_bytes(s, r, 7);
        } else if (strcmp(cmd, "garbage") == 0) {
            uint8_t r[7] = {(uint8_t) atoi(rest), 9, 0, 0, 0, 0, 0};
            ev("\"ev\":\"sdrresp\",\"s\":%d,\"ok\":false", s->id);
            push_bytes(s, r, 7);
        } else if (strcmp(cmd, "silent") == 0) {
            ev("\"ev\":\"sdrresp\",\"s\":%d,\"ok\":false", s->id);
        } else if (strcmp(cmd, "raw") == 0) {
            uint8_t r[256];
            size_t n = unhex(rest, r, sizeof r);
            push_bytes(s, r, n);
        } else if (strcmp(cmd, "push") == 0 || strcmp(cmd, "slowpush") == 0) {
            long n = 0, gap = 0;
            sscanf(rest, "%ld %ld", &n, &gap);
            uint8_t *b = __real_malloc((size_t) n * 8 + 8);
            for (long i2 = 0; i2 < n; i2++) sample_make(s->id, s->k + i2, (float *) (b + i2 * 8));
            size_t d = 0, tot = (size_t) n * 8;
            bool ok = true;
            ev("\"ev\":\"pushing\",\"s\":%d,\"n\":%ld", s->id, s->k + n);
            while (d < tot && ok) {
                size_t c = tot - d;
                if (net_segment) { size_t m = 1 + sim_rand_n(400); if (c > m) c = m; }
                ok = push_bytes(s, b + d, c);
                d += c;
                if (gap > 0 && sim_chance(1, 3)) sim_sleep((int64_t) sim_rand_n((uint64_t) gap));
            }
            __real_free(b);
            if (!ok) break;
            s->k += n;
            ev("\"ev\":\"push\",\"s\":%d,\"n\":%ld", s->id, s->k);
        } else if (strcmp(cmd, "at") == 0) {
            // the next step has its time. skipped by those who are late
            if (sim_now > atol(rest)) i++;
            else sim_sleep(atol(rest) - sim_now);
        } else if (strcmp(cmd, "partial") == 0) {
            uint8_t junk[8] = {1, 2, 3, 4, 5, 6, 7, 8};
            push_bytes(s, junk, (size_t) atol(rest));
        } else if (strcmp(cmd, "sleep") == 0) {
            sim_sleep(atol(rest));
        } else if (strcmp(cmd, "set") == 0) {
            set_flag(rest);
        } else if (strcmp(cmd, "wait") == 0) {
            struct { struct sess *s; } x = {s};
            (void) x;
            while (!has_flag(rest) && !s->closed && !s->shut) sim_sleep(20);
        } else if (strcmp(cmd, "shutmode") == 0) {
            sscanf(rest, "%d %ld", &s->shutmode, &s->shutdelay);
        } else if (strcmp(cmd, "eof") == 0) {
            ev("\"ev\":\"sdreof\",\"s\":%d", s->id);
            s->closed = true;
            net_close(s->s, false);
            return NULL;
        } else if (strcmp(cmd, "abort") == 0) {
            ev("\"ev\":\"sdreof\",\"s\":%d", s->id);
            s->closed = true;
            net_close(s->s, true);
            return NULL;
        }
    }
    sim_block(shut_ready, s, -1);
    if (!s->s->closed) net_close(s->s, false);
    return NULL;
}
static bool finished = false;
static void *sdr_main(void *arg) {
    sock *l = arg;
    while (!finished) {
        sock *c = net_accept(l);
        if (c == NULL) break;
        struct sess *s = __real_calloc(1, sizeof *s);
        s->id = nsess++;
        s->s = c;
        c->sess = s->id;
        ev("\"ev\":\"sdrconn\",\"s\":%d", s->id);
        sim_spawn("sess", sess_main, s, false);
    }
    return NULL;
}

// ---------------------------------------------------------------- end of the run
static const char *LINES[3] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};
// the station is at the intersection of the equator and the prime meridian, so that units do not matter
static doppler *make_doppler(struct conn *c, long off, uint32_t max) {
    doppler *d = NULL;
    char tle[3][80];
    for (int i = 0; i < 3; i++) { memset(tle[i], 0, 80); snprintf(tle[i], 80, "%s", LINES[i]); }
    return doppler_create(0, 0, 0, (uint64_t) c->fs, (uint64_t) c->cf, off, c->start, max, tle, &d) == 0 ? d : NULL;
}
static uint8_t *slurp(const char *path, size_t *n) {
    FILE *f = fopen(path, "rb");
    *n = 0;
    if (f == NULL) return NULL;
    fseek(f, 0, SEEK_END);
    long sz = ftell(f);
    rewind(f);
    uint8_t *b = __real_malloc((size_t) sz + 1);
    *n = (size_t) sz;
    if (sz > 0 && fread(b, 1, (size_t) sz, f) != (size_t) sz) *n = 0;
    fclose(f);
    return b;
}
static size_t common(const uint8_t *a, size_t an, const int8_t *b, size_t bn) {
    size_t i = 0;
    while (i < an && i < bn && (int8_t) a[i] == b[i]) i++;
    return i;
}
static void end_rx(int cid) {
    struct conn *c = &conns[cid];
    if (idof(cid) < 0) return;
    char p[700];
    char runs[6000];
    size_t rn = 0;
    long total = 0;
    int nruns = 0;
    size_t dn = 0;
    uint8_t *d = NULL;
    runs[0] = 0;
    long dsize = -1;
    bool trunc = false;
    if (c->dump) {
        snprintf(p, sizeof p, "%s/rx.sdr2demod.%d.cf32", base, idof(cid));
        d = slurp(p, &dn);
        dsize = d ? (long) dn : -1;
        int rs = -1;
        long rf = 0, rl = 0;
        for (size_t i = 0; d && i + 8 <= dn; i += 8) {
            int s = -1;
            long k = -1;
            if (c->rxoff != 0) {
                // samples of the file are shifted
                float x[2];
                k = (long) i / 8;
                sample_make(1000 + cid, k, x);
                double complex w = (x[0] + I * x[1]) * cexp(I * 2 * M_PI * fmod((double) c->rxoff / (double) c->fs * (double) k, 1.0));
                float g[2];
                memcpy(g, d + i, 8);
                s = cabs(w - (g[0] + I * g[1])) < 0.05 ? 1000 + cid : -1;
            } else if (!sample_find(d + i, &s, &k)) { s = -1; k = (long) i / 8; }
            if (rl > 0 && s == rs && k == rf + rl) { rl++; total++; continue; }
            if (rl > 0) {
                if (nruns < 100) rn += (size_t) snprintf(runs + rn, sizeof runs - rn, "%s[%d,%ld,%ld]", nruns ? "," : "", rs, rf, rl); else trunc = true;
                nruns++;
            }
            rs = s; rf = k; rl = 1;
            total++;
        }
        if (rl > 0) {
            if (nruns < 100) rn += (size_t) snprintf(runs + rn, sizeof runs - rn, "%s[%d,%ld,%ld]", nruns ? "," : "", rs, rf, rl); else trunc = true;
            nruns++;
        }
    }
    // reference demodulator
    int8_t *ref = NULL;
    size_t refn = 0;
    if (d != NULL && c->rxp && c->buf > 0) {
        fsk_demod *dem = NULL;
        size_t ns = dn / 8;
        if (fsk_demod_create((uint64_t) c->fs, (uint32_t) c->baud, c->dev, (uint8_t) c->dec, (uint32_t) c->tw, c->dc != 0, (uint32_t) (ns + (size_t) c->buf + 16), &dem) == 0) {
            int8_t *o = NULL;
            size_t on = 0;
            float complex *in = (float complex *) d;
            if (ns > 0 && c->dopp) {
                doppler *dp = make_doppler(c, 0, (uint32_t) c->buf);
                in = __real_malloc(ns * sizeof *in);
                size_t a = 0, nc = c->chunks.len / sizeof(size_t);
                for (size_t i = 0; i < nc && a < ns; i++) {
                    size_t k;
                    memcpy(&k, c->chunks.p + i * sizeof k, sizeof k);
                    if (k > ns - a) k = ns - a;
                    float complex *po = NULL;
                    size_t pn = 0;
                    doppler_process_rx((float complex *) d + a, k, &po, &pn, dp);
                    memcpy(in + a, po, pn * sizeof *in);
                    a += k;
                }
                doppler_destroy(dp);
                ns = a;
            }
            if (ns > 0) {
                fsk_demod_process(in, ns, &o, &on, dem);
                ref = __real_malloc(on + 1);
                memcpy(ref, o, on);
                refn = on;
            }
            if (in != (float complex *) d) __real_free(in);
            fsk_demod_destroy(dem);
        }
    }
    long fsize = -1;
    size_t fmatch = 0;
    if (c->dest != 1) {
        size_t fn = 0;
        snprintf(p, sizeof p, "%s/rx.demod2client.%d.s8", base, idof(cid));
        uint8_t *f = slurp(p, &fn);
        fsize = f ? (long) fn : -1;
        if (f && ref) fmatch = common(f, fn, ref, refn);
    }
    size_t sn = c->israw ? c->got.len - c->rawstart : 0;
    size_t smatch = c->israw && ref ? common(c->got.p + c->rawstart, sn, ref, refn) : 0;
    sock *srv = c->s ? c->s->peer : NULL;
    ev("\"ev\":\"endrx\",\"c\":%d,\"runs\":[%s],\"trunc\":%s,\"dump\":%ld,\"total\":%ld,\"hasref\":%s,\"ref\":%zu,\"file\":%ld,\"fmatch\":%zu,\"sock\":%zu,\"smatch\":%zu,\"sent\":%ld,\"atclose\":[%ld,%ld]",
       cid, runs, trunc ? "true" : "false", dsize, total, ref ? "true" : "false", refn, fsize, fmatch, sn, smatch, srv ? srv->rawbytes : 0, c->dump_at_close, c->demod_at_close);
}
static void end_tx(int cid) {
    struct conn *c = &conns[cid];
    if (idof(cid) < 0) return;
    size_t n = c->payload.len;
    size_t sps = (size_t) (int) ((double) c->fs / (double) c->baud);
    float complex *ref = NULL;
    size_t refn = 0;
    gfsk_mod *mod = NULL;
    sig_source *sig = NULL;
    if (n > 0 && gfsk_mod_create((float) ((double) c->fs / (double) c->baud), (float) (2 * M_PI * (double) c->dev / (double) c->fs), 0.5f, (uint32_t) n, &mod) == 0) {
        float complex *o = NULL;
        size_t on = 0;
        gfsk_mod_process(c->payload.p, n, &o, &on, mod);
        if (c->dopp) {
            doppler *dp = make_doppler(c, c->off, (uint32_t) ((size_t) c->buf * 8 * sps));
            float complex *o2 = __real_malloc(on * sizeof *o2 + 1);
            size_t a = 0, nm = c->msgs.len / sizeof(size_t);
            for (size_t i = 0; i < nm; i++) {
                size_t k;
                memcpy(&k, c->msgs.p + i * sizeof k, sizeof k);
                // each message is transmitted in buffers
                while (k > 0) {
                    size_t b = k < (size_t) c->buf ? k : (size_t) c->buf, pn = 0;
                    float complex *po = NULL;
                    doppler_process_tx(o + a, b * 8 * sps, &po, &pn, dp);
                    memcpy(o2 + a, po, pn * sizeof *o2);
                    a += pn;
                    k -= b;
                }
            }
            doppler_destroy(dp);
            o = o2;
            on = a;
        } else if (c->off != 0) {
            sig_source_create(1.0f, (uint64_t) c->fs, (uint32_t) on, &sig);
            float complex *o2 = NULL;
            size_t on2 = 0;
            sig_source_multiply(c->off, o, on, &o2, &on2, sig);
            o = o2;
            on = on2;
        }
        ref = __real_malloc(on * sizeof *ref + 1);
        memcpy(ref, o, on * sizeof *ref);
        refn = on;
        gfsk_mod_destroy(mod);
        if (sig) sig_source_destroy(sig);
    }
    // what the device got
    long dev = -1, dmatch = 0, dump = -1, dumpmatch = 0;
    if (c->txfile[0]) {
        size_t fn = 0;
        float complex *f = (float complex *) slurp(c->txfile, &fn);
        if (f) {
            dev = (long) (fn / 8);
            while (dmatch < dev && dmatch < (long) refn && cabsf(f[dmatch] - ref[dmatch]) < 2e-3f) dmatch++;
        }
    } else {
        for (int i = 0; i < niiocaps; i++) {
            if (iiocaps[i].freq % 100000 != cid) continue;
            dev = (long) iiocaps[i].n / 2;
            while (dmatch < dev && dmatch < (long) refn) {
                float re = rintf(crealf(ref[dmatch]) * 32768.0f), im = rintf(cimagf(ref[dmatch]) * 32768.0f);
                if (re > 32767) re = 32767;
                if (im > 32767) im = 32767;
                if (fabsf(re - iiocaps[i].p[dmatch * 2]) > 70 || fabsf(im - iiocaps[i].p[dmatch * 2 + 1]) > 70) break;
                dmatch++;
            }
        }
    }
    if (c->dump) {
        char p[700];
        snprintf(p, sizeof p, "%s/tx.mod2sdr.%d.cf32", base, idof(cid));
        size_t fn = 0;
        float complex *f = (float complex *) slurp(p, &fn);
        if (f) {
            dump = (long) (fn / 8);
            while (dumpmatch < dump && dumpmatch < (long) refn && cabsf(f[dumpmatch] - ref[dumpmatch]) < 2e-3f) dumpmatch++;
        }
    }
    ev("\"ev\":\"endtx\",\"c\":%d,\"sent\":%zu,\"sps\":%zu,\"ref\":%zu,\"dev\":%ld,\"dmatch\":%ld,\"dump\":%ld,\"dumpmatch\":%ld,\"atclose\":[%ld,%ld]",
       cid, n, sps, refn, dev, dmatch, dump, dumpmatch, c->tx_at_close, c->txdump_at_close);
}
static int exit_code = -1;
static void final_account(void) {
    size_t mb = 0;
    long m = mem_outstanding(&mb);
    int alive = sim_threads_alive_server(), unj = sim_threads_unjoined_server();
    ev("\"ev\":\"account\",\"alive\":%d,\"unjoined\":%d,\"fds\":%d,\"files\":%d,\"mem\":%ld,\"pb\":%ld,\"cfg\":%ld,\"mutex\":%d,\"iio\":%d", alive, unj,
       net_open_fds(), files_open(), m, pb_outstanding, cfg_outstanding, sim_leaked_mutexes, iio_leaks());
    if (m > 0 && getenv("SIM_VERBOSE")) mem_dump();
}
void __real_exit(int);
void __wrap_exit(int code) {
    if (in_main) {
        ev("\"ev\":\"exit\",\"code\":%d", code);
        ev("\"ev\":\"end\"");
        _exit(0);
    }
    __real_exit(code);
}

int comp_main(int argc, char **argv);

static void parse(const char *path, char *config, size_t cn) {
    FILE *f = fopen(path, "r");
    if (f == NULL) { perror(path); exit(3); }
    char *line = NULL;
    size_t cap = 0;
    struct actor *a = NULL;
    while (getline(&line, &cap, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        char cmd[64];
        int off = 0;
        if (sscanf(line, "%63s %n", cmd, &off) < 1 || cmd[0] == '#') continue;
        char *rest = line + off;
        if (strcmp(cmd, "actor") == 0) {
            a = &actors[nactors++];
            sscanf(rest, "%15s %31s", a->kind, a->name);
        } else if (a != NULL && line[0] == ' ') {
            if (a->n == a->cap) { a->cap = a->cap * 2 + 16; a->lines = __real_realloc(a->lines, sizeof(char *) * (size_t) a->cap); }
            char *cp = __real_malloc(strlen(line) + 1);
            strcpy(cp, line);
            a->lines[a->n++] = cp;
        } else if (strcmp(cmd, "config") == 0) {
            snprintf(config, cn, "%s", rest);
        } else if (strcmp(cmd, "base") == 0) {
            snprintf(base, sizeof base, "%s", rest);
        } else if (strcmp(cmd, "cap") == 0) {
            net_cap = (size_t) atol(rest);
        } else if (strcmp(cmd, "segment") == 0) {
            net_segment = atoi(rest) != 0;
        } else if (strcmp(cmd, "ports") == 0) {
            sscanf(rest, "%d %d", &net_modem_port, &net_sdr_port);
        } else if (strcmp(cmd, "addrs") == 0) {
            sscanf(rest, "%63s %63s", net_modem_addr, net_sdr_addr);
        } else if (strcmp(cmd, "iiorx") == 0) {
            iio_rx_total = atol(rest);
        } else if (strcmp(cmd, "fault") == 0) {
            char nm[64];
            int nth = 1, count = 1;
            sscanf(rest, "%63s %d %d", nm, &nth, &count);
            fault_add(nm, nth, count);
        } else if (strcmp(cmd, "kind") == 0) {
            int id;
            char k[8];
            if (sscanf(rest, "%d %7s", &id, k) == 2) conn_kind[id] = (uint8_t) k[0];
        } else if (strcmp(cmd, "rxparam") == 0) {
            int id, dump, dest;
            long v[7];
            sscanf(rest, "%d %ld %ld %ld %ld %ld %ld %ld %d %d", &id, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &dump, &dest);
            struct conn *c = &conns[id];
            c->rxp = true;
            c->fs = v[0]; c->baud = v[1]; c->dev = v[2]; c->dec = v[3]; c->tw = v[4]; c->dc = v[5]; c->buf = v[6];
            c->dump = dump; c->dest = dest;
            conn_kind[id] = 'r';
        } else if (strcmp(cmd, "txparam") == 0) {
            int id, dump;
            long v[4];
            char file[500] = "";
            sscanf(rest, "%d %ld %ld %ld %ld %d %499s", &id, &v[0], &v[1], &v[2], &v[3], &dump, file);
            struct conn *c = &conns[id];
            c->txp = true;
            c->fs = v[0]; c->baud = v[1]; c->dev = v[2]; c->off = v[3];
            c->dump = dump;
            if (strcmp(file, "-") != 0) snprintf(c->txfile, sizeof c->txfile, "%s", file);
            conn_kind[id] = 't';
        } else if (strcmp(cmd, "dopp") == 0) {
            int id;
            long cf, start, b;
            if (sscanf(rest, "%d %ld %ld %ld", &id, &cf, &start, &b) == 4) { conns[id].dopp = true; conns[id].cf = cf; conns[id].start = start; conns[id].buf = b; }
        } else if (strcmp(cmd, "rxoff") == 0) {
            int id;
            long o;
            if (sscanf(rest, "%d %ld", &id, &o) == 2) conns[id].rxoff = o;
        } else if (strcmp(cmd, "rxfile") == 0) {
            // file with unique samples
            int id;
            long n, extra = 0;
            char file[500];
            sscanf(rest, "%d %ld %499s %ld", &id, &n, file, &extra);
            FILE *o = fopen(file, "wb");
            if (o) {
                for (long k = 0; k < n; k++) { float s[2]; sample_make(1000 + id, k, s); fwrite(s, 8, 1, o); }
                for (long k = 0; k < extra; k++) fputc(7, o);
                fclose(o);
            }
        }
    }
    fclose(f);
}
static uint64_t seed_of(const char *path, char *strategy) {
    FILE *f = fopen(path, "r");
    uint64_t s = 1;
    char line[256];
    while (f && fgets(line, sizeof line, f)) {
        sscanf(line, "seed %lu", &s);
        sscanf(line, "strategy %15s", strategy);
    }
    if (f) fclose(f);
    return s;
}
int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (argc < 4) { fprintf(stderr, "usage: simmodem run|<component> <scenario> <trace>\n"); return 3; }
    for (int i = 0; i < MAXCONN; i++) conn_modem_id[i] = -1;
    char strategy[16] = "mix";
    uint64_t seed = seed_of(argv[2], strategy);
    sim_open_trace(argv[3]);
    if (strcmp(argv[1], "run") != 0) {
        sim_init(seed, strategy);
        int code = comp_main(argc, argv);
        ev("\"ev\":\"end\"");
        fflush(stdout);
        _exit(code);
    }
    sim_seed = seed;
    char config[600] = "";
    parse(argv[2], config, sizeof config);
    sim_init(seed, strategy);
    sim_limit = 4000000;
    sock *l = net_listen(net_sdr_port);
    sim_spawn("sdr", sdr_main, l, false);
    for (int i = 0; i < nactors; i++) {
        if (strcmp(actors[i].kind, "sdr") == 0) continue;
        actors[i].t = sim_spawn(actors[i].name, actor_main, &actors[i], false);
    }
    char *av[] = {"sdr_modem", config, NULL};
    in_main = sim_signals_enabled = true;
    int code = sdr_modem_main(2, av);
    in_main = sim_signals_enabled = false;
    (void) code;
    ev("\"ev\":\"exit\",\"code\":0");
    exit_code = 0;
    final_account();
    sim_limit = sim_now + 4000000;
    for (int i = 0; i < nactors; i++) if (actors[i].t) sim_join(actors[i].t);
    finished = true;
    // the rest is sequential
    sim_active = false;
    for (int i = 0; i < MAXCONN; i++) {
        if (conns[i].rxp) end_rx(i);
        if (conns[i].txp) end_tx(i);
    }
    ev("\"ev\":\"end\"");
    fflush(stdout);
    _exit(0);
}
