#define CVALLOC_IMPL
#include "cvalloc.h"
#include "cvctl.h"
#include <stdint.h>
#include <unistd.h>
/* Open addressing table of blocks ever allocated. Without CV_QUARANTINE blocks are really freed (for ASan);
   with it, they are poisoned, kept, and checked at the end. */
#define GUARD 16
struct blk { char *p; size_t n; long serial; char live; };
static struct blk *tab;
static size_t cap, used;
static long serial, live;
static size_t live_bytes;
static size_t hashp(void *p) { return ((uintptr_t)p >> 4) * 11400714819323198485ull; }
static struct blk *slot(struct blk *t, size_t c, void *p)
{
    size_t i = hashp(p) & (c - 1);
    while (t[i].p && t[i].p != p) i = (i + 1) & (c - 1);
    return &t[i];
}
static void die(const char *what, void *p)
{
    fflush(stdout);
    printf("\n!MEM %s\n", what);
    fflush(stdout);
    _exit(97);
}
static void add(void *p, size_t n)
{
    if (used * 2 >= cap) {
        size_t nc = cap ? cap * 2 : 1024;
        struct blk *nt = calloc(nc, sizeof *nt);
        for (size_t i = 0; i < cap; i++) if (tab[i].p) *slot(nt, nc, tab[i].p) = tab[i];
        free(tab); tab = nt; cap = nc;
    }
    struct blk *b = slot(tab, cap, p);
    if (!b->p) used++;
    b->p = p; b->n = n; b->serial = ++serial; b->live = 1;
    live++; live_bytes += n;
}
/* CV_FAIL=<k>: the k-th allocation of the code under test, and all later ones, fail. CV_COUNT=<file>: their number. */
int cv_mine;                       /* set while a driver allocates for itself */
static long nalloc, fail_at = -1;
static int fails(void)
{
    if (cv_mine) return 0;
    if (fail_at < 0) { const char *f = getenv("CV_FAIL"); fail_at = f ? atol(f) : 0; }
    nalloc++;
    return fail_at && nalloc >= fail_at;
}
void cv_fail_next(long k) { fail_at = nalloc + k; }
__attribute__((destructor)) static void count(void)
{
    const char *f = getenv("CV_COUNT");
    FILE *o = f ? fopen(f, "w") : 0;
    if (!o) return;
    fprintf(o, "%ld\n", nalloc);
    fclose(o);
}
void *cv_malloc(size_t n)
{
    if (fails()) return 0;
#ifdef CV_QUARANTINE
    char *p = malloc(n + GUARD);
    if (!p) die("out of memory", 0);
    memset(p, 0xA7, n); memset(p + n, 0x5E, GUARD);
#else
    char *p = malloc(n);
    if (!p) die("out of memory", 0);
    memset(p, 0xA7, n);
#endif
    add(p, n);
    return p;
}
void *cv_calloc(size_t n, size_t m) { void *p = cv_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
static void check(struct blk *b)
{
#ifdef CV_QUARANTINE
    for (int i = 0; i < GUARD; i++) if ((unsigned char)b->p[b->n + i] != 0x5E) die("write past the end of a block", b->p);
#endif
}
void cv_free(void *p)
{
    if (!p) return;
    struct blk *b = cap ? slot(tab, cap, p) : 0;
    if (!b || !b->p) die("free of a pointer that was never allocated", p);
    if (!b->live) die("block freed twice", p);
    check(b);
    b->live = 0; live--; live_bytes -= b->n;
#ifdef CV_QUARANTINE
    memset(p, 0xDD, b->n);
#else
    free(p);
#endif
}
void *cv_realloc(void *p, size_t n)
{
    if (!p) return cv_malloc(n);
    struct blk *b = cap ? slot(tab, cap, p) : 0;
    if (!b || !b->p || !b->live) die("realloc of a bad pointer", p);
    size_t o = b->n;
    void *q = cv_malloc(n);
    if (!q) return 0;
    memcpy(q, p, o < n ? o : n);
    cv_free(p);
    return q;
}
char *cv_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = cv_malloc(n); return p ? memcpy(p, s, n) : p; }
char *cv_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = cv_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
long cv_live(void) { return live; }
int cv_is_live(void *p) { if (!cap) return 0; struct blk *b = slot(tab, cap, p); return b->p && b->live; }
long cv_serial_of(void *p) { if (!cap) return 0; struct blk *b = slot(tab, cap, p); return b->p ? b->serial : 0; }
long cv_serial(void) { return serial; }
size_t cv_size_of(void *p) { if (!cap) return 0; struct blk *b = slot(tab, cap, p); return b->p ? b->n : 0; }
void cv_verify(void)
{
#ifdef CV_QUARANTINE
    for (size_t i = 0; i < cap; i++) if (tab[i].p) {
        check(&tab[i]);
        if (!tab[i].live) for (size_t k = 0; k < tab[i].n; k++)
            if ((unsigned char)tab[i].p[k] != 0xDD) die("write to a freed block", tab[i].p);
    }
#endif
}
