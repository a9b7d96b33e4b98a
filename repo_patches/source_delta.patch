From fa51bf4935ea28e1065787eb5459d627d83c9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:09 +0000
Subject: [PATCH 01/40] fix: queue of size 1 crashed when a buffer was put
 while the only node was being processed

---
 src/queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..72cb727 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -121,6 +121,13 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
         }
     }
     struct queue_node *to_fill;
+    if (queue->first_free_node == NULL && queue->last_filled_node == NULL) {
+        // the only node is being processed
+        // there is nothing to overwrite
+        pthread_mutex_unlock(&queue->mutex);
+        fprintf(stderr, "<3>queue is full\n");
+        return -1;
+    }
     if (queue->first_free_node == NULL) {
         // queue is full
         // overwrite last node
-- 
2.43.0


From 866690ba75634bf5e20e93ae9c0334ffcce4a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:09 +0000
Subject: [PATCH 02/40] fix: tx request without fsk_settings crashed the server

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..6e6b2e6 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -117,6 +117,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
             return -1;
         }
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 3a895ca8285d3995a22f8097359ce58cda229518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:52 +0000
Subject: [PATCH 03/40] fix: demod_decimation not fitting into uint8 was
 truncated and could crash the server

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 6e6b2e6..e89517e 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -149,6 +149,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] demod_decimation is more than max: %u\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From 586fda2aeb73d6ed793fd132ef152877e4ffa948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:52 +0000
Subject: [PATCH 04/40] fix: tx request with unsupported number of samples per
 symbol crashed the server

---
 src/tcp_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index e89517e..9dda282 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -107,6 +107,12 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing mod_baud_rate parameter\n", client_id);
         return -1;
     }
+    // number of samples per symbol is uint8
+    uint64_t samples_per_symbol = req->tx_sampling_freq / req->mod_baud_rate;
+    if (samples_per_symbol == 0 || samples_per_symbol > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported number of samples per symbol: %" PRIu64 "\n", client_id, samples_per_symbol);
+        return -1;
+    }
     if (req->doppler != NULL && req->doppler->n_tle != 3) {
         fprintf(stderr, "<3>[%d] invalid tle supplied\n", client_id);
         return -1;
-- 
2.43.0


From b59e68bbe7576379abd1001f4283ffe15ed44242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:52 +0000
Subject: [PATCH 05/40] fix: tx data longer than buffer_size/8 was silently
 dropped when doppler or offset correction is enabled

---
 src/tcp_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 9dda282..b67a9cd 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -549,7 +549,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // each byte contains 8 symbols
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From 3550aadfec82f8a8c4f3e7caa84fad2e399af939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:52 +0000
Subject: [PATCH 06/40] fix: tx data sent by rx client caused infinite loop

---
 src/tcp_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b67a9cd..41860bb 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -277,7 +277,7 @@ static void *tcp_worker_callback(void *arg) {
         if (header.type == TYPE_SHUTDOWN) {
             fprintf(stdout, "[%d] client requested disconnect\n", id);
             break;
-        } else if (header.type == TYPE_TX_DATA) {
+        } else if (header.type == TYPE_TX_DATA && worker->tx_req != NULL) {
             fprintf(stdout, "[%d] received tx request\n", id);
             handle_tx_data(worker, &header);
         } else {
-- 
2.43.0


From 3a57903132c54c7cbcbf2f9184aad4df6d8a8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:00 +0000
Subject: [PATCH 07/40] fix: body of unsupported or too big message was
 interpreted as the next message

---
 src/api_utils.c  | 15 +++++++++++++++
 src/api_utils.h  |  2 ++
 src/tcp_server.c |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..583d185 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -15,8 +15,23 @@ int api_utils_read_header(int socket, struct message_header *header) {
     return code;
 }
 
+int api_utils_skip_message(int socket, const struct message_header *header) {
+    uint8_t buffer[1024];
+    uint32_t left = header->message_length;
+    while (left > 0) {
+        size_t batch = left < sizeof(buffer) ? left : sizeof(buffer);
+        int code = tcp_utils_read_data(buffer, batch, socket);
+        if (code != 0) {
+            return code;
+        }
+        left -= batch;
+    }
+    return 0;
+}
+
 int api_utils_read_tx_data(int socket, const struct message_header *header, struct TxData **request) {
     if (header->message_length > MAX_MESSAGE_LENGTH) {
+        api_utils_skip_message(socket, header);
         return -1;
     }
     uint8_t *buffer = malloc(sizeof(uint8_t) * header->message_length);
diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..b335980 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -7,6 +7,8 @@
 
 int api_utils_read_header(int socket, struct message_header *header);
 
+int api_utils_skip_message(int socket, const struct message_header *header);
+
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
 
 int api_utils_read_tx_request(int socket, const struct message_header *header, struct TxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 41860bb..1e3dea1 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -272,6 +272,7 @@ static void *tcp_worker_callback(void *arg) {
         }
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            api_utils_skip_message(worker->client_socket, &header);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
@@ -282,6 +283,7 @@ static void *tcp_worker_callback(void *arg) {
             handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            api_utils_skip_message(worker->client_socket, &header);
         }
     }
     //terminate dsp_worker if any
-- 
2.43.0


From b39f123fa4bacda53650afaa415660f0ae0eb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:00 +0000
Subject: [PATCH 08/40] fix: memory leak when request body cannot be read

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 583d185..f207a12 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -62,6 +62,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -83,6 +84,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From 6462c924259572cb57267bd4aa2c4e0925639fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:00 +0000
Subject: [PATCH 09/40] fix: thread that was not created was joined, its device
 leaked or freed twice

---
 src/dsp_worker.c |  6 +++++-
 src/sdr_worker.c |  8 +++++++-
 src/tcp_server.c | 11 ++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..137b408 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -18,6 +18,7 @@ struct dsp_worker_t {
     doppler *dopp;
     queue *queue;
     pthread_t dsp_thread;
+    bool dsp_thread_created;
     FILE *rx_dump_file;
     FILE *demod_file;
     DemodDestination demod_destination;
@@ -191,6 +192,7 @@ int dsp_worker_create(uint32_t id, int client_socket, struct server_config *serv
         return -1;
     }
     result->dsp_thread = dsp_thread;
+    result->dsp_thread_created = true;
 
     *worker = result;
     return 0;
@@ -206,7 +208,9 @@ void dsp_worker_destroy(void *data) {
         interrupt_waiting_the_data(worker->queue);
     }
     // wait until thread terminates and only then destroy the worker
-    pthread_join(worker->dsp_thread, NULL);
+    if (worker->dsp_thread_created) {
+        pthread_join(worker->dsp_thread, NULL);
+    }
     if (worker->queue != NULL) {
         destroy_queue(worker->queue);
     }
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..9e3d2c1 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -14,6 +14,7 @@ struct sdr_worker_t {
     uint32_t id;
     linked_list *dsp_configs;
     pthread_t sdr_thread;
+    bool sdr_thread_created;
     pthread_mutex_t mutex;
 };
 
@@ -71,10 +72,13 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     pthread_t sdr_thread;
     int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
     if (code != 0) {
+        // on error "rx" still belongs to the caller
+        result->rx = NULL;
         sdr_worker_destroy(result);
         return code;
     }
     result->sdr_thread = sdr_thread;
+    result->sdr_thread_created = true;
 
     *worker = result;
     return 0;
@@ -118,7 +122,9 @@ void sdr_worker_destroy(void *data) {
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
     }
-    pthread_join(worker->sdr_thread, NULL);
+    if (worker->sdr_thread_created) {
+        pthread_join(worker->sdr_thread, NULL);
+    }
     //destroy the rx device
     if (worker->rx_device != NULL) {
         worker->rx_device->destroy(worker->rx_device->plugin);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 1e3dea1..e78f71a 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -40,6 +40,7 @@ struct tcp_worker {
     atomic_bool is_running;
 
     pthread_t client_thread;
+    bool client_thread_created;
     tcp_server *server;
     sdr_worker *sdr;
 
@@ -330,7 +331,9 @@ void tcp_worker_destroy(void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     fprintf(stdout, "[%d] tcp_worker is stopping\n", worker->id);
     worker->is_running = false;
-    pthread_join(worker->client_thread, NULL);
+    if (worker->client_thread_created) {
+        pthread_join(worker->client_thread, NULL);
+    }
     if (worker->rx_req != NULL) {
         rx_request__free_unpacked(worker->rx_req, NULL);
     }
@@ -607,11 +610,16 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
     pthread_t client_thread;
     code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
+        if (tcp_worker->tx_device != NULL) {
+            tcp_worker->tx_device->destroy(tcp_worker->tx_device->plugin);
+            free(tcp_worker->tx_device);
+        }
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
         return;
     }
     tcp_worker->client_thread = client_thread;
+    tcp_worker->client_thread_created = true;
 
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
@@ -671,6 +679,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
         return;
     }
     tcp_worker->client_thread = client_thread;
+    tcp_worker->client_thread_created = true;
 
     dsp_worker *dsp_worker = NULL;
     code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
-- 
2.43.0


From d12be46630396225400268d4253ba1a990d99a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 10/40] fix: rx client could disconnect or receive data before
 its chain was initialized, beginning of the stream was lost

---
 src/sdr_worker.c | 18 ++++++++++++++++++
 src/tcp_server.c | 34 ++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 9e3d2c1..7594a6a 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -16,6 +16,8 @@ struct sdr_worker_t {
     pthread_t sdr_thread;
     bool sdr_thread_created;
     pthread_mutex_t mutex;
+    pthread_cond_t condition;
+    bool ready;
 };
 
 struct array_t {
@@ -29,10 +31,23 @@ void sdr_worker_foreach_put(void *arg, void *data) {
     dsp_worker_put(output->output, output->output_len, worker);
 }
 
+static void sdr_worker_set_ready(sdr_worker *worker) {
+    pthread_mutex_lock(&worker->mutex);
+    worker->ready = true;
+    pthread_cond_broadcast(&worker->condition);
+    pthread_mutex_unlock(&worker->mutex);
+}
+
 static void *sdr_worker_callback(void *arg) {
     sdr_worker *worker = (sdr_worker *) arg;
     fprintf(stdout, "[%d] sdr_worker is starting\n", worker->id);
     struct array_t output;
+    // do not lose the beginning of the stream. wait for the first dsp worker
+    pthread_mutex_lock(&worker->mutex);
+    while (!worker->ready) {
+        pthread_cond_wait(&worker->condition, &worker->mutex);
+    }
+    pthread_mutex_unlock(&worker->mutex);
     while (true) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
         if (code < -1) {
@@ -67,6 +82,7 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->dsp_configs = NULL;
     result->rx = rx;
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
+    result->condition = (pthread_cond_t) PTHREAD_COND_INITIALIZER;
     result->rx_device = rx_device;
 
     pthread_t sdr_thread;
@@ -118,6 +134,7 @@ void sdr_worker_destroy(void *data) {
         return;
     }
     sdr_worker *worker = (sdr_worker *) data;
+    sdr_worker_set_ready(worker);
     //gracefully shutdown connection
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
@@ -149,5 +166,6 @@ int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
     pthread_mutex_unlock(&sdr->mutex);
+    sdr_worker_set_ready(sdr);
     return code;
 }
\ No newline at end of file
diff --git a/src/tcp_server.c b/src/tcp_server.c
index e78f71a..655103f 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -259,6 +259,9 @@ static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
+    // wait until the worker is completely initialized and the response is sent
+    pthread_mutex_lock(&worker->server->mutex);
+    pthread_mutex_unlock(&worker->server->mutex);
     while (worker->is_running) {
         struct message_header header;
         int code = api_utils_read_header(worker->client_socket, &header);
@@ -493,6 +496,20 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         return -1;
     }
 
+    // client_thread waits for the server's mutex until everything is initialized
+    pthread_t client_thread;
+    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
+    if (code != 0) {
+        // this will trigger sdr_worker destroy if it's not used by others
+        sdr_worker_destroy_by_dsp_worker_id(tcp_worker->id, tcp_worker->sdr);
+        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    tcp_worker->client_thread = client_thread;
+    tcp_worker->client_thread_created = true;
+
+    // demodulated data should be sent only after the response
+    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+
     code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
@@ -671,18 +688,8 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-    tcp_worker->client_thread_created = true;
-
     dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -693,14 +700,13 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
     pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
+        // dsp_worker is using client_socket, so destroy it first
+        dsp_worker_destroy(dsp_worker);
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
-        // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
-        dsp_worker_destroy(dsp_worker);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
-- 
2.43.0


From 78bdc6635b73c534faccdb145b37996d2dc2673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 11/40] fix: response on tx data could be sent before the
 response on tx request

---
 src/tcp_server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 655103f..385664c 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -624,9 +624,12 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
+    // client_thread waits for the server's mutex until the response is sent
+    pthread_mutex_lock(&server->mutex);
     pthread_t client_thread;
     code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
+        pthread_mutex_unlock(&server->mutex);
         if (tcp_worker->tx_device != NULL) {
             tcp_worker->tx_device->destroy(tcp_worker->tx_device->plugin);
             free(tcp_worker->tx_device);
@@ -640,12 +643,14 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
 
     code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
+        pthread_mutex_unlock(&server->mutex);
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
         return;
     }
 
     api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+    pthread_mutex_unlock(&server->mutex);
     fprintf(stdout, "[%d] mod: %s, tx freq: %" PRIu64 ", tx offset: %" PRId64 ", tx sampling_rate: %" PRIu64 ", baud: %d\n", tcp_worker->id, protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->tx_req->mod_type)->name, tcp_worker->tx_req->tx_center_freq,
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
-- 
2.43.0


From ada08d6b4c90978f4912a9fb19ecd9007325b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 12/40] fix: client was not terminated when its demodulator
 stopped, sdr thread could hang on its queue

---
 src/dsp_worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 137b408..91849f0 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -8,6 +8,7 @@
 #include "dsp/doppler.h"
 #include <string.h>
 #include <complex.h>
+#include <sys/socket.h>
 #include "tcp_utils.h"
 #include "api_utils.h"
 
@@ -102,6 +103,10 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // release the producer waiting for the space in the blocking queue
+    interrupt_waiting_the_data(worker->queue);
+    // there will be no more data. let tcp_worker know about that
+    shutdown(worker->client_socket, SHUT_RD);
     printf("[%d] dsp_worker stopped\n", worker->id);
     return (void *) 0;
 }
-- 
2.43.0


From 63c07c8345967de1c40be617308e25646cd2b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 13/40] fix: new client could join sdr_worker that was being
 destroyed

---
 src/tcp_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 385664c..804659b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -290,9 +290,14 @@ static void *tcp_worker_callback(void *arg) {
             api_utils_skip_message(worker->client_socket, &header);
         }
     }
+    // new clients should not join sdr_worker via this client
+    pthread_mutex_lock(&worker->server->mutex);
+    sdr_worker *sdr = worker->sdr;
+    worker->sdr = NULL;
+    pthread_mutex_unlock(&worker->server->mutex);
     //terminate dsp_worker if any
     //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
+    sdr_worker_destroy_by_dsp_worker_id(worker->id, sdr);
     //terminate tx device if any
     if (worker->tx_device != NULL) {
         worker->tx_device->destroy(worker->tx_device->plugin);
-- 
2.43.0


From 888364c6313263e12a8f267b3bda4a6daa36c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 14/40] fix: slow disconnect of one client blocked other
 clients of the same sdr

---
 src/sdr_worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 7594a6a..cc24dfd 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -119,11 +119,11 @@ void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *worker) {
         return;
     }
     pthread_mutex_lock(&worker->mutex);
-    if (worker->dsp_configs != NULL) {
-        linked_list_destroy_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
-    }
+    dsp_worker *dsp = linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
     bool result = (worker->dsp_configs == NULL);
     pthread_mutex_unlock(&worker->mutex);
+    // can be slow. do not block other dsp workers
+    dsp_worker_destroy(dsp);
     if (result) {
         sdr_worker_destroy(worker);
     }
-- 
2.43.0


From 3822e63e6fbdfcaac2a92925d24ed2568931dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 15/40] fix: client not reading the data could not be
 disconnected and blocked the server from stopping

---
 src/tcp_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 804659b..3ec3971 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -740,6 +740,12 @@ static void *acceptor_worker(void *arg) {
             perror("setsockopt - SO_RCVTIMEO");
             continue;
         }
+        // client might not read the data
+        if (setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv)) {
+            close(client_socket);
+            perror("setsockopt - SO_SNDTIMEO");
+            continue;
+        }
 
         // always increment counter to make even error messages traceable
         server->client_counter++;
-- 
2.43.0


From ef58a3990004b5d00fc5f2bb7454bc276a499a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 16/40] fix: device was reported as being used to the client
 connected after the owner was disconnected

---
 src/tcp_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 3ec3971..16d7733 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -303,9 +303,9 @@ static void *tcp_worker_callback(void *arg) {
         worker->tx_device->destroy(worker->tx_device->plugin);
         free(worker->tx_device);
     }
-    close(worker->client_socket);
-
+    // once the socket is closed, the client can re-connect straight away
     worker->is_running = false;
+    close(worker->client_socket);
     return (void *) 0;
 }
 
-- 
2.43.0


From a01ef5ed9ec9b5f5698151ce98127534be3bc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 17/40] fix: tx dump file was not complete after client is
 disconnected

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 16d7733..8e9064a 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -303,6 +303,10 @@ static void *tcp_worker_callback(void *arg) {
         worker->tx_device->destroy(worker->tx_device->plugin);
         free(worker->tx_device);
     }
+    if (worker->tx_dump_file != NULL) {
+        fclose(worker->tx_dump_file);
+        worker->tx_dump_file = NULL;
+    }
     // once the socket is closed, the client can re-connect straight away
     worker->is_running = false;
     close(worker->client_socket);
-- 
2.43.0


From 5463d75c5715d5b4bbcc9342dfa3d236d68cf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 18/40] fix: new client could join sdr_worker that already lost
 its device

---
 src/sdr_worker.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index cc24dfd..027c70f 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -18,6 +18,7 @@ struct sdr_worker_t {
     pthread_mutex_t mutex;
     pthread_cond_t condition;
     bool ready;
+    bool stopped;
 };
 
 struct array_t {
@@ -65,6 +66,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->stopped = true;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -106,6 +108,12 @@ bool sdr_worker_find_closest(void *id, void *data) {
     }
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
+    pthread_mutex_lock(&worker->mutex);
+    bool stopped = worker->stopped;
+    pthread_mutex_unlock(&worker->mutex);
+    if (stopped) {
+        return false;
+    }
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
         worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
@@ -165,6 +173,10 @@ void sdr_worker_destroy(void *data) {
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    if (sdr->stopped) {
+        // no one else would do that
+        dsp_worker_shutdown(NULL, worker);
+    }
     pthread_mutex_unlock(&sdr->mutex);
     sdr_worker_set_ready(sdr);
     return code;
-- 
2.43.0


From 27393551f7df73816f9790d00000cc4cbfc1d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 19/40] fix: samples received before the read timeout were
 dropped

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 027c70f..0c9fc2f 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -51,7 +51,7 @@ static void *sdr_worker_callback(void *arg) {
     pthread_mutex_unlock(&worker->mutex);
     while (true) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
-        if (code < -1) {
+        if (code < -1 && output.output_len == 0) {
             // read timeout happened. it's ok.
             continue;
         }
-- 
2.43.0


From 16f91f66828319b834c4ffad14125b1d91d5aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 20/40] fix: partially received sample was dropped and the rest
 of the stream was misaligned

---
 src/sdr/sdr_server_client.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..84ca82a 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -17,6 +17,9 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+    // bytes of the sample that was not fully received
+    size_t partial_offset;
+    size_t partial_len;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -150,10 +153,15 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    uint8_t *buffer = (uint8_t *) client->output;
+    memmove(buffer, buffer + client->partial_offset, client->partial_len);
+    int code = tcp_utils_read_data_partially(buffer + client->partial_len, sizeof(float complex) * client->output_len - client->partial_len, &actually_read, client->client_socket);
+    actually_read += client->partial_len;
+    client->partial_len = actually_read % sizeof(float complex);
+    client->partial_offset = actually_read - client->partial_len;
+    if (client->partial_offset != 0) {
         *output = client->output;
-        *output_len = actually_read / sizeof(float complex);
+        *output_len = client->partial_offset / sizeof(float complex);
     } else {
         *output = NULL;
         *output_len = 0;
-- 
2.43.0


From b66d40a5aabd1d31174609039a02ab566d59d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 21/40] fix: client could receive the stream with different
 sampling rate

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 0c9fc2f..f3e7a92 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -115,7 +115,7 @@ bool sdr_worker_find_closest(void *id, void *data) {
         return false;
     }
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
         return true;
     }
-- 
2.43.0


From 691edcc602c9ef4f7611d101147b723a9bfa9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 22/40] fix: socket leak when sdr server rejects the request,
 socket was closed while another thread is reading from it

---
 src/sdr/sdr_server_client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 84ca82a..e230f7d 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -30,6 +30,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     *result = (struct sdr_server_client_t) {0};
 
     result->id = id;
+    result->client_socket = -1;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -49,7 +50,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
@@ -61,7 +61,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -216,7 +215,8 @@ void sdr_server_client_stop(void *plugin) {
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // another thread can still read from the socket
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -224,6 +224,9 @@ void sdr_server_client_destroy(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
+    if (client->client_socket != -1) {
+        close(client->client_socket);
+    }
     if (client->output != NULL) {
         free(client->output);
     }
-- 
2.43.0


From 7f879f8b71ceef5ef3ca393462ad526b65182a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 23/40] fix: frequencies not supported by the protocol of sdr
 server were truncated

---
 src/tcp_server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 8e9064a..2c87951 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -170,6 +170,14 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
             return -1;
         }
     }
+    if (config->rx_sdr_type == RX_SDR_TYPE_SDR_SERVER) {
+        // protocol of sdr-server supports only uint32
+        uint64_t center_freq = req->rx_center_freq + req->rx_offset;
+        if (req->rx_center_freq > UINT32_MAX || center_freq > UINT32_MAX || req->rx_sampling_freq > UINT32_MAX) {
+            fprintf(stderr, "<3>[%d] frequency is not supported by sdr server\n", client_id);
+            return -1;
+        }
+    }
     if (req->demod_type == MODEM_TYPE__GMSK) {
         if (req->fsk_settings == NULL) {
             fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
-- 
2.43.0


From 52d0547a5c5def5af84d54b9a87f653e9ddc539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 24/40] fix: server crashed when plutosdr was used for rx only

---
 src/server_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..234b6a9 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -173,7 +173,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From c8f584af09c3ddb7b763b56a8dad16e7d50a5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 25/40] fix: server socket was not closed when server is
 stopped

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 2c87951..e74bac6 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -874,6 +874,9 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 void tcp_server_join_thread(tcp_server *server) {
     pthread_join(server->acceptor_thread, NULL);
+    if (server->server_socket != -1) {
+        close(server->server_socket);
+    }
     free(server);
 }
 
@@ -888,5 +891,6 @@ void tcp_server_destroy(tcp_server *server) {
     int code = shutdown(server->server_socket, SHUT_RDWR);
     if (code != 0) {
         close(server->server_socket);
+        server->server_socket = -1;
     }
 }
-- 
2.43.0


From b0bd70754e926458540c2b53d577e2b3fe8baea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 26/40] fix: server crashed when setting of the string type is
 configured using other type

---
 src/server_config.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index 234b6a9..2082080 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -13,6 +13,10 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     } else {
         value = config_setting_get_string(setting);
     }
+    if (value == NULL) {
+        fprintf(stderr, "<3>setting should be string: %s\n", config_setting_name(setting));
+        return NULL;
+    }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
     if (result == NULL) {
@@ -117,6 +121,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>setting should be string: rx_sdr_type\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
@@ -158,6 +168,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>setting should be string: tx_sdr_type\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
-- 
2.43.0


From 9e068f03715b1510c1e483efc032c290adcb3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 27/40] fix: gain configured as integer was silently ignored

---
 src/server_config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index 2082080..8b58e0b 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -37,6 +37,8 @@ int server_config_create(struct server_config **config, const char *path) {
 
     config_t libconfig;
     config_init(&libconfig);
+    // gain can be configured as integer
+    config_set_auto_convert(&libconfig, CONFIG_TRUE);
 
     int code = config_read_file(&libconfig, path);
     if (code == CONFIG_FALSE) {
-- 
2.43.0


From f2715c427c1b4ec3f9b0a9482cab1c792c0eead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 28/40] fix: out of range buffer_size, port and queue_size were
 silently truncated

---
 src/server_config.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/server_config.c b/src/server_config.c
index 8b58e0b..2bcf720 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -53,7 +53,14 @@ int server_config_create(struct server_config **config, const char *path) {
     if (setting == NULL) {
         buffer_size = 262144;
     } else {
-        buffer_size = (uint32_t) config_setting_get_int(setting);
+        int buffer_size_value = config_setting_get_int(setting);
+        if (buffer_size_value <= 0) {
+            fprintf(stderr, "<3>buffer size should be positive: %d\n", buffer_size_value);
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
+        buffer_size = (uint32_t) buffer_size_value;
     }
     fprintf(stdout, "buffer size: %d\n", buffer_size);
     result->buffer_size = buffer_size;
@@ -71,7 +78,14 @@ int server_config_create(struct server_config **config, const char *path) {
     if (setting == NULL) {
         port = 8091;
     } else {
-        port = (uint16_t) config_setting_get_int(setting);
+        int port_value = config_setting_get_int(setting);
+        if (port_value < 0 || port_value > UINT16_MAX) {
+            fprintf(stderr, "<3>invalid port: %d\n", port_value);
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
+        port = (uint16_t) port_value;
     }
     result->port = port;
     fprintf(stdout, "start listening on %s:%d\n", result->bind_address, result->port);
@@ -97,7 +111,14 @@ int server_config_create(struct server_config **config, const char *path) {
     if (setting == NULL) {
         queue_size = 64;
     } else {
-        queue_size = config_setting_get_int(setting);
+        int queue_size_value = config_setting_get_int(setting);
+        if (queue_size_value <= 0 || queue_size_value > UINT16_MAX) {
+            fprintf(stderr, "<3>invalid queue size: %d\n", queue_size_value);
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
+        queue_size = (uint16_t) queue_size_value;
     }
     fprintf(stdout, "queue_size: %d\n", queue_size);
     result->queue_size = queue_size;
-- 
2.43.0


From 749426a825c937bee4af0ffb5c667064ad6c0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 29/40] fix: out of bounds access in fir_filter when input is
 short or decimation is more than number of taps

---
 src/dsp/fir_filter.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..6cc8bd9 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -57,6 +57,11 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
     result->num_bytes = num_bytes;
     result->original_taps = taps;
     result->taps_len = taps_len;
+    if (decimation == 0 || decimation > taps_len) {
+        fprintf(stderr, "<3>unsupported decimation: %d number of taps: %zu\n", decimation, taps_len);
+        fir_filter_destroy(result);
+        return -1;
+    }
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
     if (code != 0) {
@@ -97,7 +102,11 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
     size_t i = 0;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // decimation could leave less than taps_len - 1 samples
+    size_t max_index = 0;
+    if (working_len >= filter->taps_len) {
+        max_index = working_len - (filter->taps_len - 1);
+    }
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
@@ -127,7 +136,11 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
     size_t i = 0;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    // decimation could leave less than taps_len - 1 samples
+    size_t max_index = 0;
+    if (working_len >= filter->taps_len) {
+        max_index = working_len - (filter->taps_len - 1);
+    }
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
-- 
2.43.0


From 6c139456383564d0aea7312c110bfc82e3cee7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:48 +0000
Subject: [PATCH 30/40] fix: clock recovery produced the same symbol twice at
 the buffer boundary and could overflow the buffer

---
 src/dsp/clock_recovery_mm.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..47408d8 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -20,6 +20,8 @@ struct clock_mm_t {
     float *working_buffer;
     size_t history_offset;
     size_t working_len_total;
+    // number of input samples to skip before the next symbol
+    size_t skip;
 
     float *output;
     size_t output_len;
@@ -83,12 +85,15 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         *output_len = 0;
         return;
     }
+    size_t skip = clock->skip < input_len ? clock->skip : input_len;
+    clock->skip -= skip;
+    input += skip;
+    input_len -= skip;
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
     int ii = 0;                                  // input index
     int oo = 0;                                  // output index
-    int previous = 0;
     size_t working_len = clock->history_offset + input_len;
     // not enough input
     if (working_len < taps_len) {
@@ -104,9 +109,8 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
-        if (isnan(clock->output[oo])) {
+        if (!isfinite(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
             ii += (int) floorf(clock->omega);
             oo++;
             continue;
@@ -114,19 +118,27 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
         clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
         clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
-        clock->mu = clock->mu - floorf(clock->mu);
+        float step = floorf(clock->mu);
+        clock->mu = clock->mu - step;
+        // never go back and make sure the step can fit into integer
+        if (step > 0) {
+            ii += (int) fminf(step, 1e9F);
+        }
         oo++;
     }
 
+    // output is full. the rest of the input cannot be kept
+    if (ii < max_index) {
+        ii = max_index;
+    }
     size_t last_index;
     if (ii > working_len) {
-        last_index = previous;
+        last_index = working_len;
+        clock->skip = ii - working_len;
     } else {
         last_index = ii;
     }
-- 
2.43.0


From 07193575b69a045b6e53cca773977635de75527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:48 +0000
Subject: [PATCH 31/40] fix: demodulator with less than 1 sample per symbol
 crashed the server

---
 src/dsp/fsk_demod.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/fsk_demod.c b/src/dsp/fsk_demod.c
index db2e65b..e96866e 100644
--- a/src/dsp/fsk_demod.c
+++ b/src/dsp/fsk_demod.c
@@ -51,6 +51,11 @@ int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviati
     }
 
     float sps = (float) ((double) sampling_freq / baud_rate / decimation);
+    if (sps < 1.0F) {
+        fprintf(stderr, "<3>decimation is too big. number of samples per symbol: %f\n", sps);
+        fsk_demod_destroy(result);
+        return -1;
+    }
 
     if (use_dc_block) {
         code = dc_blocker_create((int) ceilf(sps * 32), &result->dc);
-- 
2.43.0


From 80b40b4eb04bde3a5aa41934a47efc6abe2bd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:38 +0000
Subject: [PATCH 32/40] fix: stop signal received while the server is starting
 was lost

---
 src/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7f44c7a..cf0222f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -6,8 +6,10 @@
 #include "tcp_server.h"
 
 static tcp_server *server = NULL;
+static volatile sig_atomic_t stop_requested = 0;
 
 void sdrmodem_stop_async(int signum) {
+	stop_requested = 1;
 	tcp_server_destroy(server);
 	server = NULL;
 }
@@ -30,14 +32,21 @@ int main(int argc, char **argv) {
 	signal(SIGTERM, sdrmodem_stop_async);
     signal(SIGPIPE, SIG_IGN);
 
-	code = tcp_server_create(server_config, &server);
+	tcp_server *created = NULL;
+	code = tcp_server_create(server_config, &created);
 	if (code != 0) {
 		server_config_destroy(server_config);
 		exit(EXIT_FAILURE);
 	}
 
+	server = created;
+	// signal might be received while the server was starting
+	if (stop_requested && server != NULL) {
+		sdrmodem_stop_async(SIGTERM);
+	}
+
 	// wait here until server terminates
-	tcp_server_join_thread(server);
+	tcp_server_join_thread(created);
 
 	// server will be freed on its own thread
 	server_config_destroy(server_config);
-- 
2.43.0


From 939f89a02ef331918265d2ee07d98e6c67d5a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:28 +0000
Subject: [PATCH 33/40] fix: number of samples per symbol in modulator could be
 bigger than in buffers

---
 src/tcp_server.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index e74bac6..c553abd 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -579,7 +579,14 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
     int code;
     if (tcp_worker->tx_req->mod_type == MODEM_TYPE__GMSK) {
         struct FskModulationSettings *fsk_settings = tcp_worker->tx_req->fsk_settings;
-        code = gfsk_mod_create((float) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate), (float) (2 * M_PI * (double) fsk_settings->mod_fsk_deviation / (double) tcp_worker->tx_req->tx_sampling_freq), 0.5F, tcp_worker->buffer_size, &tcp_worker->fsk_mod);
+        double samples_per_symbol_exact = (double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate;
+        float samples_per_symbol_rounded = (float) samples_per_symbol_exact;
+        // conversion to float shouldn't change the number of full samples per symbol
+        // all buffers were allocated using it
+        if ((int) samples_per_symbol_rounded > (int) samples_per_symbol_exact) {
+            samples_per_symbol_rounded = nextafterf(samples_per_symbol_rounded, 0.0F);
+        }
+        code = gfsk_mod_create(samples_per_symbol_rounded, (float) (2 * M_PI * (double) fsk_settings->mod_fsk_deviation / (double) tcp_worker->tx_req->tx_sampling_freq), 0.5F, tcp_worker->buffer_size, &tcp_worker->fsk_mod);
         if (code != 0) {
             fprintf(stderr, "<3>[%d] unable to create fsk modulator\n", tcp_worker->id);
             tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-- 
2.43.0


From 8fc0cef7051be9bbeea516fc8481ba4b6e52348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:30 +0000
Subject: [PATCH 34/40] fix: samples not written to the tx file were
 acknowledged as transmitted

---
 src/sdr/file_source.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 599628d..dd8b78d 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -143,11 +143,12 @@ int file_source_process_tx(float complex *input, size_t input_len, void *plugin)
         float complex *sig_output = NULL;
         size_t sig_output_len = 0;
         sig_source_multiply(device->freq_offset, input, input_len, &sig_output, &sig_output_len, device->signal);
-        //ignore actually written
-        fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file);
-    } else {
-        //ignore actually written
-        fwrite(input, sizeof(float complex), input_len, device->tx_file);
+        input = sig_output;
+        input_len = sig_output_len;
+    }
+    if (fwrite(input, sizeof(float complex), input_len, device->tx_file) < input_len) {
+        fprintf(stderr, "<3>[%d] unable to write to tx file\n", device->id);
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From cf90f3e53ff68af7403084382a6033cd804a0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:34 +0000
Subject: [PATCH 35/40] fix: numeric settings of the wrong type or out of range
 were silently replaced

---
 src/server_config.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index 2bcf720..9aa143b 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -27,6 +27,26 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     return result;
 }
 
+// libconfig converts everything it can't represent to 0
+static bool numbers_are_valid(const config_t *libconfig) {
+    const char *names[] = {"buffer_size", "port", "read_timeout_seconds", "queue_size", "rx_sdr_server_port", "tx_plutosdr_timeout_millis", "tx_plutosdr_gain", "rx_plutosdr_gain"};
+    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+        const config_setting_t *setting = config_lookup(libconfig, names[i]);
+        if (setting == NULL) {
+            continue;
+        }
+        if (config_setting_is_number(setting) == CONFIG_FALSE) {
+            fprintf(stderr, "<3>setting should be number: %s\n", names[i]);
+            return false;
+        }
+        if (config_setting_get_int64(setting) != config_setting_get_int(setting)) {
+            fprintf(stderr, "<3>setting is out of range: %s\n", names[i]);
+            return false;
+        }
+    }
+    return true;
+}
+
 int server_config_create(struct server_config **config, const char *path) {
     fprintf(stdout, "loading configuration from: %s\n", path);
     struct server_config *result = malloc(sizeof(struct server_config));
@@ -48,6 +68,12 @@ int server_config_create(struct server_config **config, const char *path) {
         return -1;
     }
 
+    if (!numbers_are_valid(&libconfig)) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
+    }
+
     const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
     uint32_t buffer_size;
     if (setting == NULL) {
@@ -180,6 +206,12 @@ int server_config_create(struct server_config **config, const char *path) {
             rx_sdr_server_port = 8090;
         } else {
             rx_sdr_server_port = config_setting_get_int(setting);
+            if (rx_sdr_server_port < 0 || rx_sdr_server_port > UINT16_MAX) {
+                fprintf(stderr, "<3>invalid sdr server port: %d\n", rx_sdr_server_port);
+                config_destroy(&libconfig);
+                server_config_destroy(result);
+                return -1;
+            }
         }
         result->rx_sdr_server_port = rx_sdr_server_port;
         fprintf(stdout, "sdr server used: %s:%d\n", result->rx_sdr_server_address, result->rx_sdr_server_port);
@@ -273,7 +305,14 @@ int server_config_create(struct server_config **config, const char *path) {
     if (setting == NULL) {
         tx_plutosdr_timeout_millis = 10000;
     } else {
-        tx_plutosdr_timeout_millis = config_setting_get_int(setting);
+        int tx_plutosdr_timeout_value = config_setting_get_int(setting);
+        if (tx_plutosdr_timeout_value < 0) {
+            fprintf(stderr, "<3>invalid tx timeout: %d\n", tx_plutosdr_timeout_value);
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
+        tx_plutosdr_timeout_millis = (unsigned int) tx_plutosdr_timeout_value;
     }
     result->tx_plutosdr_timeout_millis = tx_plutosdr_timeout_millis;
     // log parameter only if it is relevant
-- 
2.43.0


From 8157639ddcbd7785a63a9a7276a8a120990dd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:51 +0000
Subject: [PATCH 36/40] fix: transmit via plutosdr with the buffer of one
 sample

Batch is half of the buffer, i.e. 0 samples when buffer_size is 1. The loop never ended.
---
 src/sdr/plutosdr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..3abd8ae 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -69,11 +69,13 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
 
     size_t processed = 0;
     size_t left = input_len;
+    // buffer of 1 sample is possible
+    size_t max_batch = (iio->output_len + 1) / 2;
     while (left > 0) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
         size_t batch;
-        if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
+        if (left > max_batch) {
+            batch = max_batch;
         } else {
             batch = left;
         }
-- 
2.43.0


From 5e009327b284323c2912635359c8f3261cbabc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:33 +0000
Subject: [PATCH 37/40] fix: plutosdr which did not acquire the context should
 not release it

When two devices are opened at the same time and the first one fails to create the context, it decremented usages
of the context created by the second one and destroyed it.
---
 src/sdr/plutosdr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 3abd8ae..51beaf8 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -49,6 +49,7 @@ struct plutosdr_t {
     struct stream_cfg *tx_config;
 
     iio_lib *lib;
+    bool ctx_acquired;
     atomic_bool rx_is_running;
 };
 
@@ -465,6 +466,7 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     ssize_t code = plutosdr_init_global_ctx(pluto->lib);
     if (code == 0) {
         global_iio_ctx_usages++;
+        pluto->ctx_acquired = true;
     }
     pthread_mutex_unlock(&global_iio_mutex);
     if (code != 0) {
@@ -615,7 +617,8 @@ void plutosdr_destroy(void *plugin) {
     }
 
     pthread_mutex_lock(&global_iio_mutex);
-    if (global_iio_ctx != NULL) {
+    // context might be created by another device after this one failed to do it
+    if (pluto->ctx_acquired) {
         global_iio_ctx_usages--;
         if (global_iio_ctx_usages <= 0) {
             pluto->lib->iio_context_destroy(global_iio_ctx);
-- 
2.43.0


From dade6979c3e45ac4f498017b5369d1957b8a5846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:54 +0000
Subject: [PATCH 38/40] fix: plutosdr without ad9361-phy

The first iio context might be some other device. NULL device was passed to libiio.
---
 src/sdr/plutosdr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 51beaf8..cf80f12 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -345,6 +345,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find ad9361-phy\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From f4deebb101588886080a0e1af7e4e8e72be72c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:16 +0000
Subject: [PATCH 39/40] fix: plutosdr tx when the oscillator cannot be powered
 up

The oscillator might be powered down by the previous rx. The client got successful response and nothing was transmitted.
---
 src/sdr/plutosdr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index cf80f12..bf37bc6 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -259,11 +259,15 @@ int plutosdr_configure_streaming_channel(struct iio_context *ctx, bool rx_only,
             plutosdr_write_lli(lo_channel, "powerdown", 1, iio);
         }
     }
+    int code;
     if (type == TX) {
-        plutosdr_write_lli(chn, "powerdown", 0, iio);
+        code = plutosdr_write_lli(chn, "powerdown", 0, iio);
+        if (code != 0) {
+            return code;
+        }
     }
 
-    int code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
+    code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
     if (code != 0) {
         return code;
     }
-- 
2.43.0


From 362548361ff05795f4e63330e83a6e455c0e4595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:00 +0000
Subject: [PATCH 40/40] fix: sig_source_process writes outside of the buffer

---
 src/dsp/sig_source.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index 9816fec..5a2a1fa 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -41,6 +41,12 @@ int sig_source_create(float amplitude, uint64_t rx_sampling_freq, uint32_t max_o
 }
 
 void sig_source_process(int64_t freq, size_t expected_output_len, float complex **output, size_t *output_len, sig_source *source) {
+    if (expected_output_len > source->output_len) {
+        fprintf(stderr, "<3>requested buffer %zu is more than max: %u\n", expected_output_len, source->output_len);
+        *output = NULL;
+        *output_len = 0;
+        return;
+    }
     float adjusted_freq = M_2PI * (float) freq / source->rx_sampling_freq;
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
-- 
2.43.0

