// linked list: elements are 1..30, selectors are sets of them
#define _GNU_SOURCE
#include "comp.h"
#include "linked_list.h"

static char destroyed[4096], visited[4096];
static unsigned long mask;
static bool in_mask(void *d) { return (mask >> *(int *) d) & 1; }
static bool in_set(void *id, void *d) { return (*(unsigned long *) id >> *(int *) d) & 1; }
static void add(char *s, int v) { size_t k = strlen(s); if (k < 4000) sprintf(s + k, "%s%d", k ? "," : "", v); }
static void destroy(void *d) {
    add(destroyed, *(int *) d);
    // the next access is an error
    free(d);
}
static void visit(void *arg, void *d) { (void) arg; add(visited, *(int *) d); }
void run_list(char **l, int n) {
    linked_list *list = NULL;
    for (int i = 0; i < n; i++) {
        char op[32];
        unsigned long a = 0;
        if (sscanf(l[i], "%31s %lu", op, &a) < 1) continue;
        destroyed[0] = visited[0] = 0;
        int r = 0;
        char set[400] = "";
        if (strcmp(op, "add") == 0) {
            int *d = malloc(sizeof *d);
            *d = (int) a;
            r = linked_list_add(d, destroy, &list);
            add(set, (int) a);
        } else {
            for (int k = 0; k < 64; k++) if ((a >> k) & 1) add(set, k);
            if (strcmp(op, "find") == 0) {
                int *d = linked_list_find(&a, in_set, list);
                r = d ? *d : 0;
            } else if (strcmp(op, "remove") == 0) {
                int *d = linked_list_remove_by_id(&a, in_set, &list);
                r = d ? *d : 0;
                if (d) free(d);
            } else if (strcmp(op, "destroyid") == 0) {
                linked_list_destroy_by_id(&a, in_set, &list);
            } else if (strcmp(op, "destroysel") == 0) {
                mask = a;
                linked_list_destroy_by_selector(in_mask, &list);
            } else if (strcmp(op, "destroy") == 0) {
                linked_list_destroy(list);
                list = NULL;
            }
        }
        char d2[4096];
        strcpy(d2, destroyed);
        linked_list_foreach(NULL, visit, list);
        ev("\"ev\":\"op\",\"op\":\"%s\",\"a\":[%s],\"r\":%d,\"destroyed\":[%s],\"content\":[%s],\"empty\":%s", op, set, r, d2, visited, list == NULL ? "true" : "false");
    }
}
