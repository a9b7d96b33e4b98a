// Drivers of single components. A file has many cases:
//   case <id> <json added to the event "begin">
//   <lines of the driver>
#ifndef SIM_COMP_H
#define SIM_COMP_H
#include "net.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct comp { const char *name; void (*run)(char **lines, int n); };
// splits the line into words. the line is changed
int words(char *line, char **w, int max);
// prints the array of floats scaled to integers
void scaled(char *out, size_t max, const float *p, size_t n, double scale);
extern char comp_dir[];
void run_queue(char **l, int n);
void run_list(char **l, int n);
void run_file(char **l, int n);
void run_sdr(char **l, int n);
void run_config(char **l, int n);
void run_pluto(char **l, int n);
void run_doppler(char **l, int n);
void run_blocks(char **l, int n);
void fault_reset(void);
#endif
