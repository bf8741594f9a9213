/* Interpreter for palm's memory, debug, directory and signal helpers. Results go to stdout, one line per operation. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include "cvctl.h"
#include "palm/ctinfo.h"
#include "palm/dbug.h"
#include "palm/filesystem.h"
#include "palm/memory.h"
void plain_print(const char *fmt, const char *s, int n), named_print(const char *fmt, const char *s, int n);
void plain_assert(int v, const char *fmt, const char *s, int n), named_assert(int v, const char *fmt, const char *s, int n), quiet(const char *fmt, const char *s, int n);
extern int evaluated;
#define SLOTS 8
static unsigned char *p[SLOTS];
static size_t len[SLOTS];
static char line[1 << 16];
static char *unhex(const char *t)
{
    size_t n = strlen(t + 1) / 2;
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(t + 1 + 2 * i, "%2x", &x); s[i] = x; }
    s[n] = 0;
    return s;
}
static void fill(int i, size_t from, unsigned seed) { for (size_t k = from; k < len[i]; k++) p[i][k] = seed + k * 7 + (k >> 8); }
static unsigned sum(int i)
{
    unsigned h = 5381;
    for (size_t k = 0; k < len[i]; k++) h = h * 33 + p[i][k];
    return h;
}
static void show(void)
{
    for (int i = 0; i < SLOTS; i++) {
        if (!p[i]) { printf(" -"); continue; }
        printf(" %zu:%u%s", cv_size_of(p[i]), sum(i), cv_is_live(p[i]) ? "" : "!dead");
        for (int j = 0; j < i; j++) if (p[j] == p[i]) printf("!shared");
    }
    printf(" live %ld\n", cv_live());
    fflush(stdout);
}
int main(void)
{
    while (fgets(line, sizeof line, stdin)) {
        char *a[8], *t;
        int n = 0;
        for (t = strtok(line, " \n"); t && n < 8; t = strtok(NULL, " \n")) a[n++] = t;
        int i = n > 1 ? atoi(a[1]) : 0;
        if (!strcmp(a[0], "malloc")) {           /* malloc slot size seed */
            size_t z = strtoul(a[2], 0, 10);
            p[i] = MEMmalloc(z); len[i] = p[i] ? z : 0;
            fill(i, 0, atoi(a[3]));
            show();
        } else if (!strcmp(a[0], "realloc")) {   /* realloc slot size seed: the new part is filled */
            size_t z = strtoul(a[2], 0, 10), o = len[i];
            p[i] = MEMrealloc(p[i], z); len[i] = p[i] ? z : 0;
            fill(i, o, atoi(a[3]));
            show();
        } else if (!strcmp(a[0], "copy")) {      /* copy from to size */
            int j = atoi(a[2]);
            size_t z = strtoul(a[3], 0, 10);
            p[j] = MEMcopy(z, p[i]); len[j] = z;
            show();
        } else if (!strcmp(a[0], "set")) { fill(i, 0, atoi(a[2])); show(); }
        else if (!strcmp(a[0], "free")) {
            p[i] = MEMfree(p[i]); len[i] = 0;
            show();
        } else if (!strcmp(a[0], "fail")) { cv_fail_next(i); show(); }
        else if (!strcmp(a[0], "print")) {       /* print named fmt text n */
            char *f = unhex(a[2]), *s = unhex(a[3]);
            fflush(stdout); (i ? named_print : plain_print)(f, s, atoi(a[4])); printf("\001\n"); free(f); free(s);
        } else if (!strcmp(a[0], "off")) { DBUGoff(); printf("off\n"); }
        else if (!strcmp(a[0], "quiet")) { char *f = unhex(a[2]), *s = unhex(a[3]); quiet(f, s, 1); printf("quiet %d\n", evaluated); free(f); free(s); }
        else if (!strcmp(a[0], "assert")) {      /* assert named value fmt text n */
            char *f = unhex(a[3]), *s = unhex(a[4]);
            (i ? named_assert : plain_assert)(atoi(a[2]), f, s, atoi(a[5])); printf("asserted %d\n", evaluated); free(f); free(s);
        } else if (!strcmp(a[0], "dir")) {       /* dir mode path */
            char *s = unhex(a[2]);
            struct stat st;
            FSensureDirExists(s, strtoul(a[1], 0, 8));
            if (stat(s, &st)) printf("no directory\n"); else printf("%s %o\n", S_ISDIR(st.st_mode) ? "dir" : "other", st.st_mode & 07777);
            free(s);
        } else if (!strcmp(a[0], "handlers")) { CTIinstallInterruptHandlers(); printf("handlers\n"); }
        else if (!strcmp(a[0], "error")) { CTI(CTI_ERROR, false, "e"); printf("error %d\n", CTIgetErrors()); }
        else if (!strcmp(a[0], "raise")) { fflush(stdout); raise(i); printf("survived\n"); }
        fflush(stdout);
    }
    printf("end\n");
    return 0;
}
