/* Included by sources that define how the debug macros are used. */
extern int evaluated;
static int ev(int v) { evaluated++; return v; }
