// configuration file -> settings
#define _GNU_SOURCE
#include "comp.h"
#include "server_config.h"
#include <unistd.h>

static const char *s(const char *p) { return p ? p : ""; }
static long q(double v) { double x = v * 100; return x > 2e9 || x < -2e9 || x != x ? 2000000000L : (long) (x < 0 ? x - 0.5 : x + 0.5); }
void run_config(char **l, int n) {
    char path[700];
    snprintf(path, sizeof path, "%s/test.conf", comp_dir);
    sim_active = false;
    remove(path);
    bool missing = false;
    unsetenv("TMPDIR");
    for (int i = 0; i < n; i++) {
        char nm[64];
        if (strcmp(l[i], "missing") == 0) missing = true;
        if (strncmp(l[i], "tmpdir ", 7) == 0) setenv("TMPDIR", l[i] + 7, 1);
        int nth = 1, count = 1;
        if (sscanf(l[i], "fault %63s %d %d", nm, &nth, &count) >= 1) fault_add(nm, nth, count);
    }
    if (!missing) {
        FILE *f = fopen(path, "w");
        for (int i = 0; i < n; i++) if (l[i][0] == ' ') fprintf(f, "%s\n", l[i] + 1);
        fclose(f);
    }
    sim_active = true;
    struct server_config *c = NULL;
    int lib = iio_lib_live;
    int r = server_config_create(&c, path);
    if (r != 0) {
        ev("\"ev\":\"config\",\"r\":-1,\"lib\":%d", iio_lib_live - lib);
    } else {
        ev("\"ev\":\"config\",\"r\":0,\"lib\":%d,\"iio\":%s,\"bind_address\":\"%s\",\"port\":%d,\"read_timeout_seconds\":%d,\"buffer_size\":%ld,\"queue_size\":%d,\"base_path\":\"%s\","
           "\"rx_sdr_type\":%d,\"tx_sdr_type\":%d,\"rx_sdr_server_address\":\"%s\",\"rx_sdr_server_port\":%d,\"rx_file_base_path\":\"%s\",\"tx_file_base_path\":\"%s\","
           "\"tx_plutosdr_gain\":%ld,\"rx_plutosdr_gain\":%ld,\"tx_plutosdr_timeout_millis\":%ld",
           iio_lib_live - lib, c->iio ? "true" : "false", s(c->bind_address), c->port, c->read_timeout_seconds, (long) c->buffer_size, c->queue_size, s(c->base_path), c->rx_sdr_type, c->tx_sdr_type,
           s(c->rx_sdr_server_address), c->rx_sdr_server_port, s(c->rx_file_base_path), s(c->tx_file_base_path), q(c->tx_plutosdr_gain), q(c->rx_plutosdr_gain), (long) c->tx_plutosdr_timeout_millis);
        server_config_destroy(c);
    }
    remove(path);
}
