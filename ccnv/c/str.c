/* One call per line: name, then arguments: n (NULL), x<hex> (string), or integers. Answer: result in hex. */
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "palm/str.h"
#include "cvctl.h"
#define MAXA 12
static char *arg[MAXA], *orig[MAXA];
static int num[MAXA], na;
static char line[1 << 20];

static void hex(const char *s)
{
    if (!s) { printf("n"); return; }
    printf("x");
    for (; *s; s++) printf("%02x", (unsigned char)*s);
}
static void fresh(char *r)         /* a new block that is none of the arguments */
{
    hex(r);
    if (r) {
        for (int i = 0; i < na; i++) if (r == arg[i]) printf(" aliased");
        if (!cv_is_live(r)) printf(" not-allocated");
        else cv_free(r);
    }
}
int main(void)
{
    while (fgets(line, sizeof line, stdin)) {
        char *w = strtok(line, " \n"), *t;
        na = 0;
        while ((t = strtok(NULL, " \n"))) {
            arg[na] = orig[na] = NULL; num[na] = 0;
            if (*t == 'x') {
                size_t n = strlen(t + 1) / 2;
                arg[na] = malloc(n + 1); orig[na] = malloc(n + 1);     /* exact size: the sanitizer sees any access beyond */
                for (size_t i = 0; i < n; i++) { unsigned x; sscanf(t + 1 + 2 * i, "%2x", &x); arg[na][i] = x; }
                arg[na][n] = 0;
                memcpy(orig[na], arg[na], n + 1);
            } else if (*t != 'n') num[na] = atoi(t);
            na++;
        }
        int inplace = 0;
        printf("%s ", w);
#define F(n) else if (!strcmp(w, #n))
        if (0) ;
        F(cpy) fresh(STRcpy(arg[0]));
        F(ncpy) fresh(STRncpy(arg[0], num[1]));
        F(eq) printf("%d", STReq(arg[0], arg[1]));
        F(eqci) printf("%d", STReqci(arg[0], arg[1]));
        F(eqn) printf("%d", STReqn(arg[0], arg[1], num[2]));
        F(len) printf("%zu", STRlen(arg[0]));
        F(cat) fresh(STRcat(arg[0], arg[1]));
        F(catn) fresh(na == 3 ? STRcatn(3, arg[0], arg[1], arg[2]) : na == 4 ? STRcatn(4, arg[0], arg[1], arg[2], arg[3])
                     : na == 5 ? STRcatn(5, arg[0], arg[1], arg[2], arg[3], arg[4])
                     : na == 6 ? STRcatn(6, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5])
                     : STRcatn(9, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6], arg[7], arg[8]));
        F(fmt) fresh(STRfmt(arg[0], num[1], arg[2], num[3]));
        F(onnull) { char *r = STRonNull(arg[0], arg[1]); printf("%d", r == (arg[1] ? arg[1] : arg[0])); }
        F(itoa) fresh(STRitoa(num[0]));
        F(lower) fresh(STRlower(arg[0]));
        F(upper) fresh(STRupper(arg[0]));
        F(toklower) { STRtoLower(arg[0]); hex(arg[0]); inplace = 1; }
        F(tokupper) { STRtoUpper(arg[0]); hex(arg[0]); inplace = 1; }
        F(tok) {                 /* up to num[2] tokens, then give the string up for the next one */
            char *r = STRtok(arg[0], arg[1]);
            int k = 0;
            while (1) {
                char *nx = r;
                fresh(r); printf(" ");
                if (!nx || ++k >= num[2]) break;
                r = STRtok(NULL, arg[1]);
            }
        }
        F(prefix) printf("%d", STRprefix(arg[0], arg[1]));
        F(suffix) printf("%d", STRsuffix(arg[0], arg[1]));
        F(sub) printf("%d", STRsub(arg[0], arg[1]));
        F(substr) fresh(STRsubStr(arg[0], num[1], num[2]));
        F(subst) fresh(STRsubstToken(arg[0], arg[1], arg[2]));
        F(null) fresh(STRnull());
        else return 5;
        for (int i = 0; i < na; i++) {
            if (!inplace && arg[i] && strcmp(arg[i], orig[i])) printf(" argument-changed");
            free(arg[i]); free(orig[i]);
        }
        printf("\n");
        fflush(stdout);
    }
    /* exhaust the tokenizer: with its last call it gives up its copy */
    char *r = STRtok("", ",");
    while (r) { cv_free(r); r = STRtok(NULL, ","); }
    printf("live %ld\n", cv_live());
    return 0;
}
