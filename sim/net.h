// Virtual TCP network, files and resources seen by the code under test.
#ifndef SIM_NET_H
#define SIM_NET_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <sys/types.h>
#include "simsched.h"

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

struct bytes { uint8_t *p; size_t len, cap, off; };
void bytes_add(struct bytes *b, const void *p, size_t n);

typedef struct sock {
    int refs;
    bool listener, listening, connected;
    bool server;             // belongs to the code under test
    int port;
    uint32_t addr;           // network byte order, 0 - any
    struct sock *peer;       // NULL if peer is gone
    struct bytes rx;
    bool fin;                // peer will not send any more
    bool rst;                // connection is reset
    bool rst_reported;
    bool shut_rd, shut_wr;
    bool closed;             // no more descriptors
    bool peer_closed;        // peer closed its descriptor
    size_t cap;
    int64_t rcvto, sndto;    // ms. 0 - no timeout
    struct sock *backlog[64];
    int nbacklog;
    int conn;                // id of modem's client, -1 none
    int sess;                // id of sdr server's session, -1 none
    struct bytes out;        // server->client stream not yet split into frames
    bool raw;                // modem client: rest of the stream is raw data
    long rawbytes;
    bool rawstarted;
    long sent_total;
} sock;

extern size_t net_cap;
extern bool net_segment;
extern int net_modem_port, net_sdr_port;
extern char net_modem_addr[64], net_sdr_addr[64];

// actor side
sock *net_connect(int port, int conn);
sock *net_listen(int port);
sock *net_accept(sock *l);
ssize_t net_send(sock *s, const void *p, size_t n, int64_t deadline_ms); // bytes or -1
ssize_t net_recv(sock *s, void *p, size_t n, int64_t timeout_ms, bool *timeout); // 0 eof, -1 reset/timeout
void net_close(sock *s, bool rst);
void net_shut_wr(sock *s);
bool net_server_closed(int conn);
int net_open_fds(void);
void net_set_raw(int conn);

// id of the client -> response id
extern int conn_modem_id[4096];
extern uint8_t conn_kind[4096]; // 'r' rx, 't' tx, 0 others

// files
struct tfile { FILE *f; char path[600]; char mode; bool open; long written; int owner; };
extern struct tfile tfiles[1024];
extern int ntfiles;
int files_open(void);
long files_disk_size(const char *path);
void file_own(const char *path, int owner); // path -> conn

// memory
long mem_outstanding(size_t *bytes);
extern long pb_outstanding, cfg_outstanding;
void mem_dump(void);

// iio
extern int iio_ctx_live, iio_buf_live, iio_chn_live, iio_lib_live;
extern long iio_rx_total;
void iio_tx_samples(int kind, int16_t **p, size_t *n);
struct iiocap { long freq; int16_t *p; size_t n, cap; bool open; };
extern struct iiocap iiocaps[64];
extern int niiocaps;

// unique samples
void sample_make(int sess, long k, float *out2);
bool sample_find(const void *p8, int *sess, long *k);
void sample_add(const void *p8, int sess, long k);
#endif
