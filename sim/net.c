#define _GNU_SOURCE
#include "net.h"
#include <sys/uio.h>
#include <sys/socket.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>

#define FDBASE 100
#define NFD 400
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
int __real_fcntl(int, int, ...);

size_t net_cap = 1024;
bool net_segment = true;
int net_modem_port = 8091, net_sdr_port = 8090;
char net_modem_addr[64] = "127.0.0.1", net_sdr_addr[64] = "127.0.0.1";
int conn_modem_id[4096];
uint8_t conn_kind[4096];
static bool conn_sclosed[4096];
static sock *fds[NFD];
static sock *listeners[16];
static int nlisteners = 0;

void bytes_add(struct bytes *b, const void *p, size_t n) {
    if (b->off > 0 && (b->off == b->len || b->off > 65536)) {
        memmove(b->p, b->p + b->off, b->len - b->off);
        b->len -= b->off;
        b->off = 0;
    }
    if (b->len + n > b->cap) {
        b->cap = (b->len + n) * 2 + 64;
        b->p = __real_realloc(b->p, b->cap);
    }
    memcpy(b->p + b->len, p, n);
    b->len += n;
}
static size_t bytes_avail(const struct bytes *b) { return b->len - b->off; }

static sock *sock_new(bool server) {
    sock *s = __real_calloc(1, sizeof *s);
    s->refs = 1;
    s->server = server;
    s->cap = net_cap;
    s->conn = s->sess = -1;
    return s;
}
static void sock_put(sock *s) { --s->refs; /* small runs: never freed */ }

static sock *fd_get(int fd) {
    if (fd < FDBASE || fd >= FDBASE + NFD) return NULL;
    return fds[fd - FDBASE];
}
static int fd_alloc(sock *s) {
    for (int i = 0; i < NFD; i++) if (fds[i] == NULL) { fds[i] = s; return FDBASE + i; }
    return -1;
}
int net_open_fds(void) {
    int n = 0;
    for (int i = 0; i < NFD; i++) if (fds[i]) n++;
    return n;
}
static void badfd(const char *op, int fd) {
    ev("\"ev\":\"anomaly\",\"kind\":\"badfd\",\"msg\":\"%s %d\"", op, fd);
}
static bool is_vfd(int fd) { return fd >= FDBASE && fd < FDBASE + NFD; }

// ---------------------------------------------------------------- core
static void link_pair(sock *a, sock *b) {
    a->peer = b; b->peer = a;
    a->connected = b->connected = true;
    a->refs++; b->refs++;
}
// the last descriptor is closed
static void core_close(sock *s, bool force_rst) {
    if (s->closed) return;
    s->closed = true;
    if (s->listener) {
        s->listening = false;
        for (int i = 0; i < nlisteners; i++) if (listeners[i] == s) { listeners[i] = listeners[--nlisteners]; break; }
        for (int i = 0; i < s->nbacklog; i++) {
            sock *c = s->backlog[i];
            if (c->peer) c->peer->rst = true;
        }
        s->nbacklog = 0;
        return;
    }
    if (s->peer) {
        s->peer->peer_closed = true;
        if (force_rst || bytes_avail(&s->rx) > 0) s->peer->rst = true;
        else s->peer->fin = true;
    }
}
static bool rx_ready(void *a) {
    sock *s = a;
    return bytes_avail(&s->rx) > 0 || s->fin || s->rst || s->shut_rd;
}
static ssize_t core_recv(sock *s, void *p, size_t n, int64_t to, bool *timeout) {
    if (n == 0) return 0;
    s->refs++;
    if (timeout) *timeout = false;
    sim_yield();
    bool ok = sim_block(rx_ready, s, to > 0 ? sim_now + to : -1);
    if (!ok && !rx_ready(s)) {
        sock_put(s);
        if (timeout) *timeout = true;
        errno = EAGAIN;
        return -1;
    }
    size_t av = bytes_avail(&s->rx);
    ssize_t r;
    if (av > 0) {
        size_t k = av < n ? av : n;
        if (net_segment && k > 1 && sim_chance(1, 2)) k = 1 + sim_rand_n(k);
        memcpy(p, s->rx.p + s->rx.off, k);
        s->rx.off += k;
        r = (ssize_t) k;
    } else if (s->rst && !s->shut_rd) {
        if (!s->rst_reported) {
            s->rst_reported = true;
            errno = ECONNRESET;
            r = -1;
        } else {
            r = 0;
        }
    } else {
        r = 0;
    }
    sock_put(s);
    return r;
}
static bool tx_ready(void *a) {
    sock *s = a;
    return s->rst || s->shut_wr || s->peer == NULL || s->peer_closed || bytes_avail(&s->peer->rx) < s->peer->cap;
}
// observer of everything the server sends
static void on_server_output(sock *s, const uint8_t *p, size_t n);

static ssize_t core_send(sock *s, const void *p, size_t n, int64_t to, bool server) {
    s->refs++;
    size_t done = 0;
    ssize_t r = -2;
    sim_yield();
    int64_t deadline = to > 0 ? sim_now + to : -1;
    while (done < n) {
        if (s->shut_wr || s->rst || s->closed) {
            errno = EPIPE;
            r = -1;
            break;
        }
        if (s->peer_closed) {
            // accepted by the local tcp stack, the other side answers with rst
            s->rst = true;
            if (server) on_server_output(s, (const uint8_t *) p + done, n - done);
            done = n;
            break;
        }
        size_t used = bytes_avail(&s->peer->rx);
        if (used >= s->peer->cap) {
            bool ok = sim_block(tx_ready, s, deadline);
            if (!ok && !tx_ready(s)) {
                errno = EAGAIN;
                r = -1;
                break;
            }
            continue;
        }
        size_t k = s->peer->cap - used;
        if (k > n - done) k = n - done;
        bytes_add(&s->peer->rx, (const uint8_t *) p + done, k);
        if (server) on_server_output(s, (const uint8_t *) p + done, k);
        done += k;
        if (server && done < n && net_segment && sim_chance(1, 12)) break; // interrupted
    }
    sock_put(s);
    if (done > 0) return (ssize_t) done;
    if (n == 0) return 0;
    return r;
}

// ---------------------------------------------------------------- actors
sock *net_listen(int port) {
    sock *s = sock_new(false);
    s->listener = s->listening = true;
    s->port = port;
    s->addr = inet_addr(net_sdr_addr);
    listeners[nlisteners++] = s;
    return s;
}
static bool acc_ready(void *a) { sock *s = a; return s->nbacklog > 0 || s->shut_rd || s->closed; }
static sock *backlog_take(sock *l) {
    sock *c = l->backlog[0];
    memmove(l->backlog, l->backlog + 1, sizeof(l->backlog[0]) * (size_t) (l->nbacklog - 1));
    l->nbacklog--;
    return c;
}
sock *net_accept(sock *l) {
    sim_block(acc_ready, l, -1);
    if (l->nbacklog == 0) return NULL;
    return backlog_take(l);
}
static sock *find_listener(uint32_t addr, int port) {
    for (int i = 0; i < nlisteners; i++)
        if (listeners[i]->port == port && (listeners[i]->addr == 0 || listeners[i]->addr == addr) && listeners[i]->listening && !listeners[i]->shut_rd) return listeners[i];
    return NULL;
}
static int core_connect(sock *mine, uint32_t addr, int port, bool server) {
    sock *l = find_listener(addr, port);
    if (l == NULL) return ECONNREFUSED;
    if (l->nbacklog >= 60) return ETIMEDOUT;
    sock *other = sock_new(!server);
    link_pair(mine, other);
    l->backlog[l->nbacklog++] = other;
    return 0;
}
sock *net_connect(int port, int conn) {
    sock *s = sock_new(false);
    if (core_connect(s, inet_addr(net_modem_addr), port, false) != 0) return NULL;
    s->conn = conn;
    s->peer->conn = conn;
    return s;
}
ssize_t net_send(sock *s, const void *p, size_t n, int64_t to) { return core_send(s, p, n, to, false); }
ssize_t net_recv(sock *s, void *p, size_t n, int64_t to, bool *timeout) { return core_recv(s, p, n, to, timeout); }
void net_close(sock *s, bool rst) { core_close(s, rst); sim_yield(); }
void net_shut_wr(sock *s) {
    s->shut_wr = true;
    if (s->peer) s->peer->fin = true;
    sim_yield();
}
bool net_server_closed(int conn) { return conn_sclosed[conn]; }

// ---------------------------------------------------------------- observer
static uint32_t be32(const uint8_t *p) { return (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3]; }
static bool varint(const uint8_t *p, size_t n, size_t *i, uint64_t *v) {
    *v = 0;
    for (int sh = 0; *i < n && sh < 70; sh += 7) {
        uint8_t b = p[(*i)++];
        *v |= (uint64_t) (b & 0x7f) << (sh > 63 ? 63 : sh);
        if (!(b & 0x80)) return true;
    }
    return false;
}
static void on_frame(sock *s, const uint8_t *p, size_t n) {
    int status = -1;
    long details = -1;
    size_t i = 0;
    bool ok = true;
    while (i < n) {
        uint64_t tag, v;
        if (!varint(p, n, &i, &tag) || !varint(p, n, &i, &v)) { ok = false; break; }
        if (tag == 8) status = (int) v;
        else if (tag == 16) details = (long) v;
        else ok = false;
    }
    if (!ok || status < 0 || details < 0) {
        ev("\"ev\":\"badframe\",\"c\":%d", s->conn);
        return;
    }
    if (status == 0 && conn_kind[s->conn] != 0 && conn_modem_id[s->conn] < 0) {
        conn_modem_id[s->conn] = (int) details;
        if (conn_kind[s->conn] == 'r') s->raw = true;
    }
    ev("\"ev\":\"resp\",\"c\":%d,\"st\":%d,\"det\":%ld", s->conn, status, details > 2000000000 ? 2000000000 : details);
}
static void on_server_output(sock *s, const uint8_t *p, size_t n) {
    if (s->conn < 0) return;
    while (n > 0 && !s->raw) {
        bytes_add(&s->out, p, 1);
        p++; n--;
        size_t av = bytes_avail(&s->out);
        const uint8_t *q = s->out.p + s->out.off;
        if (av >= 6) {
            uint32_t len = be32(q + 2);
            if (q[0] != 0 || q[1] != 2 || len > 1024) {
                ev("\"ev\":\"badframe\",\"c\":%d", s->conn);
                s->raw = true;
                break;
            }
            if (av == 6 + len) {
                on_frame(s, q + 6, len);
                s->out.off = s->out.len;
            }
        }
    }
    if (n > 0) {
        if (!s->rawstarted) {
            s->rawstarted = true;
            ev("\"ev\":\"data\",\"c\":%d", s->conn);
        }
        s->rawbytes += (long) n;
    }
}

// ---------------------------------------------------------------- server's api
int __wrap_socket(int d, int t, int p) {
    sim_yield();
    if (d != AF_INET || (t & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) != SOCK_STREAM || (p != 0 && p != IPPROTO_TCP)) { errno = EPROTONOSUPPORT; return -1; }
    if (fault_hit("socket")) { errno = EMFILE; return -1; }
    return fd_alloc(sock_new(true));
}
int __wrap_setsockopt(int fd, int level, int name, const void *v, socklen_t len) {
    sim_yield();
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("setsockopt", fd); errno = EBADF; return -1; }
    if (fault_hit("setsockopt")) { errno = EINVAL; return -1; }
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
        const struct timeval *tv = v;
        if (len < sizeof *tv) { errno = EINVAL; return -1; }
        if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EDOM; return -1; }
        int64_t ms = (int64_t) tv->tv_sec * 1000 + tv->tv_usec / 1000;
        if (name == SO_RCVTIMEO) s->rcvto = ms; else s->sndto = ms;
    }
    return 0;
}
int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *len) {
    (void) fd; (void) level; (void) name;
    memset(v, 0, *len);
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l) { (void) fd; memset(a, 0, *l); return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) {
    (void) l;
    sim_yield();
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("bind", fd); errno = EBADF; return -1; }
    if (fault_hit("bind")) { errno = EADDRINUSE; return -1; }
    const struct sockaddr_in *in = (const struct sockaddr_in *) a;
    if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    s->port = ntohs(in->sin_port);
    s->addr = in->sin_addr.s_addr;
    return 0;
}
int __wrap_listen(int fd, int backlog) {
    (void) backlog;
    sim_yield();
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("listen", fd); errno = EBADF; return -1; }
    s->listener = s->listening = true;
    listeners[nlisteners++] = s;
    ev("\"ev\":\"listen\",\"port\":%d", s->port);
    return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("accept", fd); errno = EBADF; return -1; }
    sim_yield();
    sim_block(acc_ready, s, -1);
    if (s->shut_rd || s->nbacklog == 0) { errno = EINVAL; return -1; }
    sock *c = backlog_take(s);
    int r = fd_alloc(c);
    if (r < 0) { errno = EMFILE; return -1; }
    if (a != NULL) {
        struct sockaddr_in in = {.sin_family = AF_INET, .sin_port = htons(40000)};
        in.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &in, *l < sizeof in ? *l : sizeof in);
        *l = sizeof in;
    }
    ev("\"ev\":\"acc\",\"c\":%d", c->conn);
    return r;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) { (void) flags; return __wrap_accept(fd, a, l); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
    (void) l;
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("connect", fd); errno = EBADF; return -1; }
    sim_yield();
    const struct sockaddr_in *in = (const struct sockaddr_in *) a;
    int code = in->sin_family != AF_INET ? EAFNOSUPPORT : fault_hit("connect") ? ECONNREFUSED : core_connect(s, in->sin_addr.s_addr, ntohs(in->sin_port), true);
    if (code != 0) {
        ev("\"ev\":\"sdrrefused\"");
        errno = code;
        return -1;
    }
    return 0;
}
static ssize_t srv_recv(int fd, void *p, size_t n) {
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("recv", fd); errno = EBADF; return -1; }
    bool to = false;
    ssize_t r = core_recv(s, p, n, s->rcvto, &to);
    if (to) {
        if (s->conn >= 0) ev("\"ev\":\"rcvto\",\"c\":%d", s->conn);
        errno = EAGAIN;
    }
    if (r == 0 && n > 0 && s->conn >= 0) ev("\"ev\":\"seof\",\"c\":%d", s->conn);
    return r;
}
static ssize_t srv_send(int fd, const void *p, size_t n, int flags) {
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("send", fd); errno = EBADF; return -1; }
    int saved;
    ssize_t r = core_send(s, p, n, s->sndto, true);
    saved = errno;
    if (r < 0 && saved == EAGAIN && s->conn >= 0) ev("\"ev\":\"sndto\",\"c\":%d", s->conn);
    if (r < 0 && saved == EPIPE && !(flags & MSG_NOSIGNAL)) {
        struct sigaction sa;
        sigaction(SIGPIPE, NULL, &sa);
        if (sa.sa_handler == SIG_DFL) sim_fatal("crash", "SIGPIPE");
    }
    errno = saved;
    return r;
}
static ssize_t recv_flags(int fd, void *p, size_t n, int f) {
    sock *s = fd_get(fd);
    if (s != NULL && (f & MSG_DONTWAIT) && !rx_ready(s)) { sim_yield(); if (!rx_ready(s)) { errno = EAGAIN; return -1; } }
    if (s != NULL && (f & MSG_PEEK)) {
        size_t off = s->rx.off;
        bool seg = net_segment;
        net_segment = false;
        ssize_t r = srv_recv(fd, p, n);
        net_segment = seg;
        if (r > 0) s->rx.off = off;
        return r;
    }
    if (!(f & MSG_WAITALL)) return srv_recv(fd, p, n);
    size_t done = 0;
    while (done < n) {
        ssize_t r = srv_recv(fd, (uint8_t *) p + done, n - done);
        if (r <= 0) return done > 0 ? (ssize_t) done : r;
        done += (size_t) r;
    }
    return (ssize_t) done;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { return recv_flags(fd, p, n, f); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { return srv_send(fd, p, n, f); }
ssize_t __wrap_read(int fd, void *p, size_t n) { return is_vfd(fd) ? srv_recv(fd, p, n) : __real_read(fd, p, n); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { return is_vfd(fd) ? srv_send(fd, p, n, 0) : __real_write(fd, p, n); }
ssize_t __wrap_recvfrom(int fd, void *p, size_t n, int f, void *a, void *l) { (void) a; (void) l; return recv_flags(fd, p, n, f); }
ssize_t __wrap_sendto(int fd, const void *p, size_t n, int f, const void *a, socklen_t l) { (void) a; (void) l; return srv_send(fd, p, n, f); }
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_writev(int, const struct iovec *, int);
static ssize_t vec_recv(int fd, const struct iovec *v, int n) {
    ssize_t total = 0;
    for (int i = 0; i < n; i++) {
        if (v[i].iov_len == 0) continue;
        ssize_t r = srv_recv(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total > 0 ? total : r;
        total += r;
        if ((size_t) r < v[i].iov_len) break;
        // does not block when something was received
        break;
    }
    return total;
}
static ssize_t vec_send(int fd, const struct iovec *v, int n, int flags) {
    size_t total = 0, k = 0;
    for (int i = 0; i < n; i++) total += v[i].iov_len;
    uint8_t *b = __real_malloc(total + 1);
    for (int i = 0; i < n; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = srv_send(fd, b, total, flags);
    int e = errno;
    __real_free(b);
    errno = e;
    return r;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return is_vfd(fd) ? vec_recv(fd, v, n) : __real_readv(fd, v, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return is_vfd(fd) ? vec_send(fd, v, n, 0) : __real_writev(fd, v, n); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) { (void) f; return vec_recv(fd, m->msg_iov, (int) m->msg_iovlen); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) { return vec_send(fd, m->msg_iov, (int) m->msg_iovlen, f); }
int __wrap_shutdown(int fd, int how) {
    sim_yield();
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("shutdown", fd); errno = EBADF; return -1; }
    if (s->listener) {
        s->shut_rd = true;
        s->listening = false;
        for (int i = 0; i < s->nbacklog; i++) if (s->backlog[i]->peer) { s->backlog[i]->peer->rst = true; s->backlog[i]->peer->peer_closed = true; }
        s->nbacklog = 0;
        ev("\"ev\":\"unlisten\"");
        return 0;
    }
    if (!s->connected) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
    if (how == SHUT_WR || how == SHUT_RDWR) {
        s->shut_wr = true;
        if (s->peer) s->peer->fin = true;
    }
    sim_yield();
    return 0;
}
extern void on_server_close(int conn);
int __wrap_close(int fd) {
    if (!is_vfd(fd)) {
        // standard streams do not belong to the server
        if (fd >= 0 && fd <= 2) { badfd("close", fd); return 0; }
        return __real_close(fd);
    }
    sim_yield();
    sock *s = fd_get(fd);
    if (s == NULL) { badfd("close", fd); errno = EBADF; return -1; }
    fds[fd - FDBASE] = NULL;
    core_close(s, false);
    if (s->conn >= 0) {
        conn_sclosed[s->conn] = true;
        on_server_close(s->conn);
    } else if (s->peer != NULL && s->peer->sess >= 0) {
        ev("\"ev\":\"sdrclosed\",\"s\":%d", s->peer->sess);
    }
    sim_yield();
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (is_vfd(fd)) return 0;
    return __real_fcntl(fd, cmd, a);
}
struct pollarg { struct pollfd *p; nfds_t n; };
static int poll_eval(struct pollarg *a) {
    int n = 0;
    for (nfds_t i = 0; i < a->n; i++) {
        a->p[i].revents = 0;
        sock *s = fd_get(a->p[i].fd);
        if (s == NULL) { a->p[i].revents = POLLNVAL; n++; continue; }
        if (s->listener) { if (acc_ready(s)) a->p[i].revents |= POLLIN; }
        else {
            if ((a->p[i].events & POLLIN) && rx_ready(s)) a->p[i].revents |= POLLIN;
            if ((a->p[i].events & POLLOUT) && tx_ready(s)) a->p[i].revents |= POLLOUT;
        }
        if (a->p[i].revents) n++;
    }
    return n;
}
static bool poll_ready(void *a) { return poll_eval(a) > 0; }
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
    struct pollarg a = {p, n};
    sim_yield();
    if (to != 0) sim_block(poll_ready, &a, to < 0 ? -1 : sim_now + to);
    return poll_eval(&a);
}

// ---------------------------------------------------------------- files
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
struct tfile tfiles[1024];
int ntfiles = 0;
static struct tfile *tfind(FILE *f) {
    for (int i = ntfiles - 1; i >= 0; i--) if (tfiles[i].f == f && tfiles[i].open) return &tfiles[i];
    return NULL;
}
extern void on_file_open(struct tfile *t);
extern void on_file_close(struct tfile *t);
extern void on_file_read(struct tfile *t, size_t n);
FILE *__wrap_fopen(const char *path, const char *mode) {
    if (!sim_active) return __real_fopen(path, mode);
    sim_yield();
    if (fault_hit(mode[0] == 'w' ? "fopenw" : "fopenr")) { errno = EACCES; return NULL; }
    FILE *f = __real_fopen(path, mode);
    if (f != NULL && ntfiles < 1024) {
        struct tfile *t = &tfiles[ntfiles++];
        memset(t, 0, sizeof *t);
        t->f = f;
        t->open = true;
        t->mode = mode[0];
        t->owner = -1;
        snprintf(t->path, sizeof t->path, "%s", path);
        on_file_open(t);
        if (mode[0] == 'w') {
            const char *b = strrchr(path, '/');
            ev("\"ev\":\"fopen\",\"f\":\"%s\"", b ? b + 1 : path);
        }
    }
    return f;
}
int __wrap_fclose(FILE *f) {
    if (!sim_active) return __real_fclose(f);
    sim_yield();
    struct tfile *t = tfind(f);
    if (t == NULL) {
        sim_fatal("crash", "fclose of a closed file");
    }
    t->open = false;
    int r = __real_fclose(f);
    on_file_close(t);
    if (t->mode == 'w') {
        const char *b = strrchr(t->path, '/');
        ev("\"ev\":\"fclose\",\"f\":\"%s\"", b ? b + 1 : t->path);
    }
    return r;
}
extern void on_tx_file_write(struct tfile *t, size_t n);
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    if (!sim_active || f == stdout || f == stderr) return __real_fwrite(p, sz, n, f);
    struct tfile *t = tfind(f);
    if (t == NULL) sim_fatal("crash", "fwrite to a closed file");
    const char *b = strrchr(t->path, '/');
    char nm[80];
    snprintf(nm, sizeof nm, "fwrite:%.40s", b ? b + 1 : t->path);
    if (n > 0 && fault_hit(nm)) {
        size_t k = n / 2;
        size_t w = __real_fwrite(p, sz, k, f);
        t->written += (long) (w * sz);
        on_tx_file_write(t, w * sz);
        errno = ENOSPC;
        return w;
    }
    size_t w = __real_fwrite(p, sz, n, f);
    t->written += (long) (w * sz);
    on_tx_file_write(t, w * sz);
    sim_yield();
    return w;
}
size_t __wrap_fread(void *p, size_t sz, size_t n, FILE *f) {
    if (!sim_active || f == stdin) return __real_fread(p, sz, n, f);
    struct tfile *t = tfind(f);
    if (t == NULL) sim_fatal("crash", "fread of a closed file");
    sim_yield();
    if (fault_hit("fread")) {
        // reading fails in the middle: the error is seen by ferror()
        size_t k = __real_fread(p, sz, n / 2, f);
        on_file_read(t, k * sz);
        ev("\"ev\":\"partial\",\"bytes\":%ld", ftell(f));
        f->_flags |= 0x20;
        errno = EIO;
        return k;
    }
    size_t r = __real_fread(p, sz, n, f);
    on_file_read(t, r * sz);
    return r;
}
int files_open(void) {
    int n = 0;
    for (int i = 0; i < ntfiles; i++) n += tfiles[i].open;
    return n;
}
long files_disk_size(const char *path) {
    struct stat st;
    if (stat(path, &st) != 0) return -1;
    return (long) st.st_size;
}

// ---------------------------------------------------------------- memory
struct blk { void *p; size_t n; void *who; };
#define NB (1 << 16)
static struct blk blks[NB];
static long nblk = 0;
static unsigned bh(void *p) { return (unsigned) (((uintptr_t) p >> 4) * 2654435761u) & (NB - 1); }
static bool account(void) { return sim_active && sim_cur != NULL && (sim_cur->server || sim_cur->id == 0); }
static void blk_add(void *p, size_t n, void *who) {
    if (p == NULL || !account()) return;
    if (nblk > NB / 2) return;
    unsigned i = bh(p);
    while (blks[i].p != NULL && blks[i].p != (void *) 1) i = (i + 1) & (NB - 1);
    blks[i] = (struct blk) {p, n, who};
    nblk++;
}
extern void sim_forget_range(void *, size_t);
static void blk_del(void *p) {
    if (p == NULL || !sim_active) return;
    unsigned i = bh(p);
    while (blks[i].p != NULL) {
        if (blks[i].p == p) {
            sim_forget_range(p, blks[i].n);
            blks[i].p = (void *) 1;
            nblk--;
            return;
        }
        i = (i + 1) & (NB - 1);
    }
}
void *__wrap_malloc(size_t n) {
    void *p = __real_malloc(n);
    if (p != NULL && account()) memset(p, 0xAB, n < 65536 ? n : 65536); // uninitialised memory
    blk_add(p, n, __builtin_return_address(0));
    return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); blk_add(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *o, size_t n) {
    blk_del(o);
    void *p = __real_realloc(o, n);
    blk_add(p, n, __builtin_return_address(0));
    return p;
}
void __wrap_free(void *p) { blk_del(p); __real_free(p); }
void *__real_volk_malloc(size_t, size_t);
void __real_volk_free(void *);
void *__wrap_volk_malloc(size_t n, size_t a) { void *p = __real_volk_malloc(n, a); blk_add(p, n, __builtin_return_address(0)); return p; }
void __wrap_volk_free(void *p) { blk_del(p); __real_volk_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __real_malloc(n); memcpy(p, s, n); blk_add(p, n, __builtin_return_address(0)); return p; }
long mem_outstanding(size_t *bytes) {
    size_t b = 0;
    for (int i = 0; i < NB; i++) if ((uintptr_t) blks[i].p > 1) b += blks[i].n;
    if (bytes) *bytes = b;
    return nblk;
}
void mem_dump(void) {
    for (int i = 0; i < NB; i++) if ((uintptr_t) blks[i].p > 1) fprintf(stderr, "leak %zu bytes from %p\n", blks[i].n, blks[i].who);
}
long pb_outstanding = 0, cfg_outstanding = 0;
void *__real_protobuf_c_message_unpack(const void *, void *, size_t, const uint8_t *);
void __real_protobuf_c_message_free_unpacked(void *, void *);
void *__wrap_protobuf_c_message_unpack(const void *d, void *a, size_t n, const uint8_t *p) {
    void *r = __real_protobuf_c_message_unpack(d, a, n, p);
    if (r != NULL) pb_outstanding++;
    return r;
}
void __wrap_protobuf_c_message_free_unpacked(void *m, void *a) {
    if (m != NULL) pb_outstanding--;
    __real_protobuf_c_message_free_unpacked(m, a);
}
void __real_config_init(void *);
void __real_config_destroy(void *);
void __wrap_config_init(void *c) { cfg_outstanding++; __real_config_init(c); }
void __wrap_config_destroy(void *c) { cfg_outstanding--; __real_config_destroy(c); }

// ---------------------------------------------------------------- unique samples
struct smp { uint64_t key; int sess; long k; bool used; };
#define NS (1 << 18)
static struct smp *smps = NULL;
static uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void sample_add(const void *p8, int sess, long k) {
    if (smps == NULL) smps = __real_calloc(NS, sizeof *smps);
    uint64_t key;
    memcpy(&key, p8, 8);
    unsigned i = (unsigned) mix64(key) & (NS - 1);
    while (smps[i].used) {
        if (smps[i].key == key) return;
        i = (i + 1) & (NS - 1);
    }
    smps[i] = (struct smp) {key, sess, k, true};
}
bool sample_find(const void *p8, int *sess, long *k) {
    if (smps == NULL) return false;
    uint64_t key;
    memcpy(&key, p8, 8);
    unsigned i = (unsigned) mix64(key) & (NS - 1);
    while (smps[i].used) {
        if (smps[i].key == key) { *sess = smps[i].sess; *k = smps[i].k; return true; }
        i = (i + 1) & (NS - 1);
    }
    return false;
}
void sample_make(int sess, long k, float *o) {
    uint64_t h = mix64(((uint64_t) sess << 40) ^ (uint64_t) k ^ (sim_seed << 20));
    o[0] = ((float) (int32_t) (h & 0x3fffff) - 2097152.0f) / 2097152.0f;
    o[1] = ((float) (int32_t) ((h >> 32) & 0x3fffff) - 2097152.0f) / 2097152.0f;
    sample_add(o, sess, k);
}
