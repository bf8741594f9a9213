/* What drivers ask of the recording allocator. */
#pragma once
#include <stddef.h>
long cv_live(void);                /* blocks allocated and not freed */
int cv_is_live(void *p);
long cv_serial_of(void *p);        /* allocation number of the block at p */
long cv_serial(void);              /* latest allocation number */
size_t cv_size_of(void *p);
void cv_verify(void);              /* no freed block or guard was written */
void *cv_malloc(size_t n);
void cv_free(void *p);
char *cv_strdup(const char *s);
extern int cv_mine;                /* set it around allocations that must not fail when failures are injected */
void cv_fail_next(long k);         /* the k-th allocation from now, and all later ones, fail */
