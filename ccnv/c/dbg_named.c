#define MODULE "a module"
#include <stdio.h>
#include "palm/dbug.h"
#include "dbg.h"
void named_print(char *fmt, const char *s, int n) { DBUG(fmt, s, n); }
void named_assert(int v, char *fmt, const char *s, int n) { DBUG_ASSERT(ev(v) && v, fmt, s, n); }
