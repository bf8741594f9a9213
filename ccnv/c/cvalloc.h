/* Forced into every compiled source of the code under test: all allocations are recorded. */
#ifndef CVALLOC_H
#define CVALLOC_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
void *cv_malloc(size_t n);
void *cv_calloc(size_t n, size_t m);
void *cv_realloc(void *p, size_t n);
void cv_free(void *p);
char *cv_strdup(const char *s);
char *cv_strndup(const char *s, size_t n);
#ifndef CVALLOC_IMPL
#define malloc cv_malloc
#define calloc cv_calloc
#define realloc cv_realloc
#define free cv_free
#undef strdup
#undef strndup
#define strdup cv_strdup
#define strndup cv_strndup
#endif
#endif
