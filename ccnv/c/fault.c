/* Preloaded into cocogen: makes a chosen allocation, or a chosen use of the file system, fail.
   FAULT=<what> <k> <sticky>, what: mem (k-th allocation), open (k-th file opened for writing cannot be created),
   full (k-th file opened for writing is on a full device), mkdir (k-th directory), read (k-th file opened for reading
   gives read errors), size (no file can grow beyond k bytes). FAULT_LOG=<file>: at exit, the callers of all allocations and the numbers of the other calls.
   Nothing outside FAULT_BOX is ever written: such calls are refused and reported. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t);
static char what[16];
static long at, sticky, nmem, nwrite, nread, nmkdir, hits;
static void *callers[1 << 20];
static const char *box;
static int ready;
static uintptr_t lo, hi;       /* the program's own code: only its allocations fail, not those inside the C library */
static int first(struct dl_phdr_info *i, size_t n, void *x)
{
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
        if (!lo || a < lo) lo = a;
        if (b > hi) hi = b;
    }
    return 1;
}
__attribute__((constructor)) static void init(void)
{
    dl_iterate_phdr(first, NULL);
    const char *f = getenv("FAULT");
    box = getenv("FAULT_BOX");
    if (f) sscanf(f, "%15s %ld %ld", what, &at, &sticky);
    if (!strcmp(what, "size")) {
        struct rlimit r = { at, at };
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &r);
    }
    ready = 1;
}
static int fails(const char *w, long n)
{
    if (strcmp(w, what) != 0 || !(n == at || (sticky && n > at))) return 0;
    hits++;
    return 1;
}
static int memfails(void *caller)
{
    if (!ready || (uintptr_t)caller < lo || (uintptr_t)caller >= hi) return 0;
    if (nmem < (long)(sizeof callers / sizeof *callers)) callers[nmem] = caller;
    nmem++;
    if (!fails("mem", nmem)) return 0;
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return memfails(__builtin_return_address(0)) ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return memfails(__builtin_return_address(0)) ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return n && memfails(__builtin_return_address(0)) ? NULL : __libc_realloc(p, n); }
char *strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = memfails(__builtin_return_address(0)) ? NULL : __libc_malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}
char *strndup(const char *s, size_t k)
{
    size_t n = strnlen(s, k);
    char *p = memfails(__builtin_return_address(0)) ? NULL : __libc_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
static int outside(const char *p)
{
    char buf[8192], *s = buf;
    if (!box) return 0;
    if (*p != '/') { if (!getcwd(buf, 4096)) return 1; s += strlen(buf); *s++ = '/'; }
    snprintf(s, 4096, "%s", p);
    /* resolves . and .. by text; the box holds no links */
    char out[8192]; size_t n = 0;
    for (char *t = strtok(buf, "/"); t; t = strtok(NULL, "/")) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { while (n && out[--n] != '/'); continue; }
        out[n++] = '/'; memcpy(out + n, t, strlen(t)); n += strlen(t);
    }
    out[n] = 0;
    size_t b = strlen(box);
    if (!strncmp(out, box, b) && (out[b] == '/' || !out[b])) return 0;
    char msg[9000];
    int l = snprintf(msg, sizeof msg, "!OUTSIDE %s\n", out[0] ? out : "/");
    if (write(2, msg, l) < 0) return 1;
    return 1;
}
FILE *fopen(const char *p, const char *m)
{
    static FILE *(*real)(const char *, const char *);
    if (!real) real = dlsym(RTLD_NEXT, "fopen");
    if (*m == 'r' && !strchr(m, '+')) {
        nread++;
        if (fails("read", nread)) return real("/proc/self/mem", "r");
        return real(p, m);
    }
    nwrite++;
    if (fails("open", nwrite)) { errno = ENOSPC; return NULL; }
    if (fails("full", nwrite)) return real("/dev/full", m);
    if (outside(p)) { errno = EACCES; return NULL; }
    return real(p, m);
}
int mkdir(const char *p, mode_t mode)
{
    static int (*real)(const char *, mode_t);
    if (!real) real = dlsym(RTLD_NEXT, "mkdir");
    nmkdir++;
    if (fails("mkdir", nmkdir)) { errno = ENOSPC; return -1; }
    struct stat st;
    if (stat(p, &st) != 0 && outside(p)) { errno = EACCES; return -1; }
    return real(p, mode);
}
__attribute__((destructor)) static void done(void)
{
    const char *f = getenv("FAULT_LOG");
    if (!f) return;
    int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    long head[5] = { nmem, nwrite, nread, nmkdir, hits };
    if (write(fd, head, sizeof head) < 0 || write(fd, callers, sizeof(void *) * (nmem < (1 << 20) ? nmem : (1 << 20))) < 0) { close(fd); return; }
    close(fd);
}
