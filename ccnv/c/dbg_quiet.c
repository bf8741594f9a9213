#define NDEBUG
#include <stdio.h>
#include "palm/dbug.h"
#include "dbg.h"
void quiet(char *fmt, const char *s, int n)
{
    DBUG(fmt, s, n);
    DBUG_ASSERT(ev(0), fmt, s, n);
    DBUG_ASSERTF(ev(0), fmt, s, n);
    DBUGF("header", fmt, s, n);
}
