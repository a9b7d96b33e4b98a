#define _GNU_SOURCE
#include "comp.h"
#include <unistd.h>
#include <libgen.h>

int iio_leaks(void);
char comp_dir[600] = ".";
static const struct comp comps[] = {
    {"queue", run_queue}, {"list", run_list}, {"file", run_file}, {"config", run_config}, {"sdr", run_sdr}, {"pluto", run_pluto}, {"doppler", run_doppler}, {"block", run_blocks},
    {NULL, NULL}};

int words(char *line, char **w, int max) {
    int n = 0;
    char *save = NULL;
    for (char *p = strtok_r(line, " \n", &save); p && n < max; p = strtok_r(NULL, " \n", &save)) w[n++] = p;
    return n;
}
void scaled(char *out, size_t max, const float *p, size_t n, double scale) {
    size_t k = 0;
    out[0] = 0;
    for (size_t i = 0; i < n && k + 16 < max; i++) {
        double v = p[i] * scale;
        long q = v != v || v > 2e9 || v < -2e9 ? 2000000000L : (long) (v < 0 ? v - 0.5 : v + 0.5);
        k += (size_t) snprintf(out + k, max - k, "%s%ld", i ? "," : "", q);
    }
}

struct base { long mem; int files, fds, iio; long pb, cfg; int mutex; };
static struct base now(void) {
    return (struct base) {mem_outstanding(NULL), files_open(), net_open_fds(), iio_leaks(), pb_outstanding, cfg_outstanding, sim_leaked_mutexes};
}
int comp_main(int argc, char **argv) {
    (void) argc;
    const struct comp *c = comps;
    while (c->name && strcmp(c->name, argv[1]) != 0) c++;
    if (c->name == NULL) { fprintf(stderr, "unknown component %s\n", argv[1]); return 3; }
    char *tmp = __real_malloc(strlen(argv[2]) + 1);
    strcpy(tmp, argv[2]);
    snprintf(comp_dir, sizeof comp_dir, "%s", dirname(tmp));
    sim_active = false;
    FILE *f = fopen(argv[2], "r");
    char **lines = NULL;
    size_t n = 0, cap = 0, len = 0;
    char *line = NULL;
    while (getline(&line, &len, f) >= 0) {
        if (n == cap) { cap = cap ? cap * 2 : 1024; lines = __real_realloc(lines, cap * sizeof *lines); }
        size_t k = strlen(line);
        while (k > 0 && line[k - 1] == '\n') line[--k] = 0;
        lines[n] = __real_malloc(k + 1);
        memcpy(lines[n++], line, k + 1);
    }
    fclose(f);
    sim_active = true;
    for (size_t i = 0; i < n; i++) {
        long id;
        int off = 0;
        if (sscanf(lines[i], "case %ld %n", &id, &off) < 1) continue;
        size_t end = i + 1;
        while (end < n && strncmp(lines[end], "case ", 5) != 0) end++;
        ev("\"ev\":\"begin\",\"id\":%ld%s%s", id, lines[i][off] ? "," : "", lines[i] + off);
        sim_cpu_limit(6);
        fault_reset();
        if (files_open() == 0) ntfiles = 0;
        struct base a = now();
        c->run(lines + i + 1, (int) (end - i - 1));
        struct base b = now();
        ev("\"ev\":\"released\",\"mem\":%ld,\"files\":%d,\"fds\":%d,\"iio\":%d,\"pb\":%ld,\"cfg\":%ld,\"mutex\":%d", b.mem - a.mem, b.files - a.files, b.fds - a.fds, b.iio - a.iio,
           b.pb - a.pb, b.cfg - a.cfg, b.mutex - a.mutex);
        i = end - 1;
    }
    return 0;
}
