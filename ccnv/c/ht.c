/* Hash table op interpreter: one op per line on stdin, one answer per line on stdout. */
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "palm/hash_table.h"
#include "cvctl.h"

#define NT 4
#define NK 600
#define NC 3
static htable_st *tab[NT];
static int kind[NT];                 /* 0 int 1 string 2 pointer 3 custom (struct key, given hash) */
static int ints[NK][NC];
static char *strs[NK][NC];
static char ptrs[NK * 8];           /* pointer keys are addresses in here */
struct ck { int v; size_t h; };
static struct ck cks[NK][NC];
static void *kept[100000];
static int nkept;

static size_t ckhash(void *p) { return ((struct ck *)p)->h; }
static bool ckeq(void *a, void *b) { return ((struct ck *)a)->v == ((struct ck *)b)->v; }

static void *key(int t, int k, int c)
{
    switch (kind[t]) {
    case 0: return &ints[k][c];
    case 1: return strs[k][c];
    case 2: return &ptrs[k * 8];
    default: return &cks[k][c];
    }
}
static int keyid(int kd, void *p)
{
    for (int k = 0; k < NK; k++) {
        switch (kd) {
        case 0: if (ints[k][0] == *(int *)p) return k; break;
        case 1: if (strs[k][0] && !strcmp(strs[k][0], p)) return k; break;
        case 2: if (&ptrs[k * 8] == (char *)p) return k; break;
        default: if (cks[k][0].v == ((struct ck *)p)->v) return k; break;
        }
    }
    return -1;
}
static int curkind, curdelta;
static long datacount;
static void *val(long v) { return (void *)(intptr_t)v; }
static void *mapf(void *v) { printf(" %ld", (long)(intptr_t)v); return val((intptr_t)v * 2 + curdelta); }
static void *mapkf(void *k, void *v) { printf(" %d=%ld", keyid(curkind, k), (long)(intptr_t)v); return val((intptr_t)v + keyid(curkind, k) + curdelta); }
static void *mapdkf(void *d, void *k, void *v)
{
    printf(" %d=%ld", keyid(curkind, k), (long)(intptr_t)v);
    ++*(long *)d;
    return val((intptr_t)v + 3 * keyid(curkind, k) + curdelta);
}
static void *foldf(void *acc, void *v) { printf(" %ld", (long)(intptr_t)v); *(long *)acc += (intptr_t)v; return acc; }
static void *cpkey(void *k)
{
    void *r;
    switch (curkind) {
    case 0: r = malloc(sizeof(int)); *(int *)r = *(int *)k; break;
    case 1: r = strdup(k); break;
    case 2: return k;
    default: r = malloc(sizeof(struct ck)); *(struct ck *)r = *(struct ck *)k; break;
    }
    kept[nkept++] = r;
    return r;
}
static void *cpval(void *v) { return val((intptr_t)v + 1000); }

int main(void)
{
    char op[16];
    int t, a, b, c;
    unsigned long h;
    long v;
    char buf[4096];
    while (scanf("%15s", op) == 1) {
        if (!strcmp(op, "ki")) { if (scanf("%d %d", &a, &b) != 2) return 3; for (c = 0; c < NC; c++) ints[a][c] = b; continue; }
        if (!strcmp(op, "ks")) {     /* string key, hex coded */
            if (scanf("%d %4095s", &a, buf) != 2) return 3;
            size_t n = strlen(buf) / 2;
            for (c = 0; c < NC; c++) {
                strs[a][c] = malloc(n + 1);
                for (size_t i = 0; i < n; i++) { unsigned x; sscanf(buf + 1 + 2 * i, "%2x", &x); strs[a][c][i] = x; }
                strs[a][c][n] = 0;
            }
            continue;
        }
        if (!strcmp(op, "kc")) { if (scanf("%d %d %lu", &a, &b, &h) != 3) return 3; for (c = 0; c < NC; c++) { cks[a][c].v = b; cks[a][c].h = h; } continue; }
        if (scanf("%d", &t) != 1) return 3;
        curkind = kind[t];
        if (!strcmp(op, "new")) {
            if (scanf("%d %d", &a, &b) != 2) return 3;
            kind[t] = a;
            tab[t] = a == 0 ? HTnew_Int(b) : a == 1 ? HTnew_String(b) : a == 2 ? HTnew_Ptr(b) : HTnew(b, ckhash, ckeq);
            printf("new %s\n", tab[t] ? "ok" : "null");
        } else if (!strcmp(op, "ins")) {
            if (scanf("%d %d %ld", &a, &b, &v) != 3) return 3;
            printf("ins %d\n", HTinsert(tab[t], key(t, a, b), val(v)));
        } else if (!strcmp(op, "look")) {
            if (scanf("%d %d", &a, &b) != 2) return 3;
            printf("look %ld\n", (long)(intptr_t)HTlookup(tab[t], key(t, a, b)));
        } else if (!strcmp(op, "rem")) {
            if (scanf("%d %d", &a, &b) != 2) return 3;
            printf("rem %ld\n", (long)(intptr_t)HTremove(tab[t], key(t, a, b)));
        } else if (!strcmp(op, "count")) {
            printf("count %zu\n", HTelementCount(tab[t]));
        } else if (!strcmp(op, "iter")) {      /* all entries; a = what to add to each value */
            if (scanf("%d", &a) != 1) return 3;
            printf("iter");
            int guard = 0;
            for (htable_iter_st *i = HTiterate(tab[t]); i; i = HTiterateNext(i)) {
                printf(" %d=%ld", keyid(curkind, HTiterKey(i)), (long)(intptr_t)HTiterValue(i));
                if (a) { HTiterSetValue(i, val((intptr_t)HTiterValue(i) + a)); }
                if (++guard > 100000) { printf(" endless\n"); return 4; }
            }
            printf("\n");
        } else if (!strcmp(op, "nest")) {      /* an iteration of a inside one of t, each entry looked up meanwhile */
            if (scanf("%d", &a) != 1) return 3;
            long pairs = 0, wrong = 0;
            for (htable_iter_st *i = HTiterate(tab[t]); i; i = HTiterateNext(i)) {
                void *k0 = HTiterKey(i), *v0 = HTiterValue(i);
                int n = 0;
                for (htable_iter_st *j = HTiterate(tab[a]); j; j = HTiterateNext(j)) {
                    pairs++;
                    if (HTlookup(tab[a], HTiterKey(j)) != HTiterValue(j)) wrong++;
                    if (++n == 5) { HTiterateCancel(j); break; }
                }
                if (HTiterKey(i) != k0 || HTiterValue(i) != v0) wrong++;
            }
            printf("nest %ld %ld\n", pairs, wrong);
        } else if (!strcmp(op, "fill")) {      /* keys a, a+c, .. below b get the value v + key */
            if (scanf("%d %d %d %ld", &a, &b, &c, &v) != 4) return 3;
            int n = 0;
            for (; a < b; a += c) n += HTinsert(tab[t], key(t, a, a % NC), val(v + a));
            printf("fill %d\n", n);
        } else if (!strcmp(op, "drop")) {
            if (scanf("%d %d %d", &a, &b, &c) != 3) return 3;
            long sum = 0;
            for (; a < b; a += c) sum += (intptr_t)HTremove(tab[t], key(t, a, (a + 1) % NC));
            printf("drop %ld\n", sum);
        } else if (!strcmp(op, "part")) {      /* stop after a entries */
            if (scanf("%d", &a) != 1) return 3;
            printf("part");
            int n = 0;
            for (htable_iter_st *i = HTiterate(tab[t]); i; i = HTiterateNext(i)) {
                printf(" %d=%ld", keyid(curkind, HTiterKey(i)), (long)(intptr_t)HTiterValue(i));
                if (++n == a) { HTiterateCancel(i); break; }
            }
            printf("\n");
        } else if (!strcmp(op, "clear")) { HTclear(tab[t]); printf("clear\n");
        } else if (!strcmp(op, "del")) { HTdelete(tab[t]); tab[t] = NULL; printf("del\n");
        } else if (!strcmp(op, "map")) {
            if (scanf("%d", &curdelta) != 1) return 3;
            printf("map"); HTmap(tab[t], mapf); printf("\n");
        } else if (!strcmp(op, "mapk")) {
            if (scanf("%d", &curdelta) != 1) return 3;
            printf("mapk"); HTmapWithKey(tab[t], mapkf); printf("\n");
        } else if (!strcmp(op, "mapdk")) {
            if (scanf("%d", &curdelta) != 1) return 3;
            datacount = 0;
            printf("mapdk"); HTmapWithDataAndKey(tab[t], &datacount, mapdkf); printf(" n%ld\n", datacount);
        } else if (!strcmp(op, "fold")) {
            long acc = 7;
            printf("fold"); HTfold(tab[t], foldf, &acc); printf(" n%ld\n", acc);
        } else if (!strcmp(op, "cpy")) {
            if (scanf("%d", &a) != 1) return 3;
            kind[a] = kind[t]; tab[a] = HTcpy(tab[t]); printf("cpy %d\n", tab[a] != tab[t]);
        } else if (!strcmp(op, "deep")) {
            if (scanf("%d", &a) != 1) return 3;
            kind[a] = kind[t]; tab[a] = HTdeep_copy(tab[t], cpkey, cpval); printf("deep %d\n", tab[a] != tab[t]);
        } else return 5;
    }
    for (t = 0; t < NT; t++) if (tab[t]) HTdelete(tab[t]);
    for (a = 0; a < nkept; a++) free(kept[a]);
    for (a = 0; a < NK; a++) for (c = 0; c < NC; c++) free(strs[a][c]);
    cv_verify();
    printf("live %ld\n", cv_live());
    return 0;
}
