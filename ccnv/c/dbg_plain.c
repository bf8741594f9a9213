#include <stdio.h>
#include "palm/dbug.h"
#include "dbg.h"
int evaluated;
void plain_print(char *fmt, const char *s, int n) { if (n & 1) DBUG(fmt, s, n); else DBUG(fmt, s, n); }
void plain_assert(int v, char *fmt, const char *s, int n) { if (n & 1) DBUG_ASSERT(ev(v), fmt, s, n); else DBUG_ASSERTF(ev(v), fmt, s, n); }
