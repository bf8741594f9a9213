/* Message interpreter: every op is preceded by a mark on stderr. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "palm/ctinfo.h"
static char line[1 << 20];
static char *unhex(const char *t)
{
    if (*t != 'x') return NULL;
    size_t n = strlen(t + 1) / 2;
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(t + 1 + 2 * i, "%2x", &x); s[i] = x; }
    s[n] = 0;
    return s;
}
int main(void)
{
    int k = 0;
    while (fgets(line, sizeof line, stdin)) {
        char *a[16], *t;
        int n = 0;
        for (t = strtok(line, " \n"); t && n < 16; t = strtok(NULL, " \n")) a[n++] = t;
        fprintf(stderr, "\001%d\n", k++);
        if (!strcmp(a[0], "cti")) {          /* cti type newline mode text */
            char *s = unhex(a[4]);
            int m = atoi(a[3]);
            if (m == 0) CTI(atoi(a[1]), atoi(a[2]), "%s", s);
            else if (m == 1) CTI(atoi(a[1]), atoi(a[2]), s);
            else CTI(atoi(a[1]), atoi(a[2]), "%s %d", s, m);
            free(s);
        } else if (!strcmp(a[0], "obj")) {   /* obj type newline mode text fl fc ll lc file line */
            char *s = unhex(a[4]);
            struct ctinfo i = {atoi(a[5]), atoi(a[6]), atoi(a[7]), atoi(a[8]), unhex(a[9]), unhex(a[10])};
            int m = atoi(a[3]);
            if (m == 0) CTIobj(atoi(a[1]), atoi(a[2]), i, "%s", s);
            else if (m == 1) CTIobj(atoi(a[1]), atoi(a[2]), i, s);
            else CTIobj(atoi(a[1]), atoi(a[2]), i, "%s %d", s, m);
            free(s); free(i.filename); free(i.line);
        } else if (!strcmp(a[0], "onerror")) CTIabortOnError();
        else if (!strcmp(a[0], "abort")) CTIabortCompilation();
        else if (!strcmp(a[0], "oom")) CTIabortOutOfMemory(atoi(a[1]));
        printf("%d %d\n", CTIgetErrors(), CTIgetWarnings());
        fflush(stdout);
    }
    fprintf(stderr, "\001end\n");
    return 0;
}
