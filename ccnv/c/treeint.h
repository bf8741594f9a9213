/* Script interpreter shared by the generated tree programs. */
typedef node_st **(*kid_ft)(node_st *);
typedef node_st *(*vis_ft)(node_st *);
typedef void (*set_ft)(node_st *, int);
struct tinfo { int nt, nkids, nattrs; node_st *(*mk)(void); void (*dump)(node_st *); kid_ft *kid; vis_ft *vis; set_ft *set; };
struct vinfo { int tt; void (*show)(void); void (*set)(int, node_st *); void (*drop)(void); };
static struct tinfo T[NT];
static struct vinfo V[NV];
#define NREG 6
#define FUEL 60
static node_st *R[NREG];
static char *tk[1 << 20];
static long ntk, pos;
static int fuel;
#define MAXSTEP 65536
static long beh[NV][NT], ini[NV], fin[NV], events[MAXSTEP], gates[NG], gatepos[NG], step;
static int running;
static void event(void);
node_st *act(int i, node_st *node);
bool gate(int i);

static void die(const char *m) { printf("!driver %s at %ld\n", m, pos); fflush(stdout); _Exit(3); }
static char *tok(void) { if (pos >= ntk) die("end of script"); return tk[pos++]; }
static long num(void) { return strtol(tok(), NULL, 10); }

static const void *known[1 << 16];
static long nknown;
static long ident(const void *p) {
    for (long i = 0; i < nknown; i++) if (known[i] == p) return i;
    if (nknown == 1 << 16) die("ids");
    known[nknown] = p;
    return nknown++;
}
static void pstr(const char *s) { if (s) printf("s%ld\"%s\"", ident(s), s); else putchar('-'); }
static void pnode(node_st *n) { if (n) printf("n%ld", ident(n)); else putchar('-'); }
static int tidx(node_st *n) {
    for (int i = 0; i < NT; i++) if ((int)NODE_TYPE(n) == T[i].nt) return i;
    printf("!type %d", (int)NODE_TYPE(n));
    die("node type");
    return 0;
}
static int hexval(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *rdstr(void) {
    char *t = tok();
    if (*t == '-') return NULL;
    t++;
    size_t n = strlen(t) / 2;
    cv_mine++;
    char *s = cv_malloc(n + 1);
    cv_mine--;
    for (size_t i = 0; i < n; i++) s[i] = (char)(hexval(t[2 * i]) << 4 | hexval(t[2 * i + 1]));
    s[n] = 0;
    return s;
}
/* slot a path leads to */
static node_st **slot(char *p) {
    char *e;
    node_st **s = &R[strtol(p, &e, 10)];
    while (*e == '/') {
        long i = strtol(e + 1, &e, 10);
        if (!*s) die("path through an empty child");
        int k = tidx(*s);
        if (i >= T[k].nkids) die("path child");
        s = T[k].kid[i](*s);
    }
    return s;
}
static node_st *rdlink(node_st *here) {
    char *t = tok();
    if (*t == '-') return NULL;
    if (*t == '@') return here;
    return *slot(t);
}
static node_st *build(void) {
    char *t = tok();
    if (*t == '-') return NULL;
    int k = atoi(t);
    node_st *n = T[k].mk();
    if ((int)NODE_TYPE(n) != T[k].nt) printf("!newtype %d", (int)NODE_TYPE(n));
    long c = num();
    while (c--) {
        long f = num(), r = num();
        if (f < T[k].nkids) {
            node_st *v = build();
            if (r == 0) *T[k].kid[f](n) = v;
            else NODE_CHILDREN(n)[f] = v;
        } else T[k].set[f - T[k].nkids](n, (int)r);
    }
    return n;
}
static void dump(node_st *n) {
    if (!n) { putchar('-'); return; }
    int k = tidx(n);
    printf("{%d#%ld @%u,%u,%u,%u,", k, ident(n), NODE_BLINE(n), NODE_ELINE(n), NODE_BCOL(n), NODE_ECOL(n));
    pstr(NODE_FILENAME(n));
    T[k].dump(n);
    putchar('}');
}
static int trav_now(void) {
    ccn_trav_st *c = TRAVgetCurrent();
    if (!c) return -1;
    for (int i = 0; i < NV; i++) if (V[i].tt == (int)c->trav_type) return i;
    return -2;
}
static void datasets(int t, long at) {
    if (!at) return;
    long save = pos;
    pos = at;
    long c = num();
    while (c--) { int f = (int)num(); V[t].set(f, NULL); }
    pos = save;
}
static void tinit(int t) { printf("I%d %d", t, trav_now()); V[t].show(); putchar('\n'); datasets(t, ini[t]); }
static void tfini(int t) { datasets(t, fin[t]); printf("J%d %d", t, trav_now()); V[t].show(); putchar('\n'); V[t].drop(); }
static node_st *handle(int t, int k0, node_st *node) {
    int k = tidx(node);
    printf("H%d %d %d n%ld", t, trav_now(), k, ident(node));
    if (running) { printf(" a%ld\n", (long)CCNgetCurrentActionId()); event(); } else putchar('\n');
    if (k != k0) printf("!wrong handler %d\n", k0);
    if (--fuel < 0) return node;
    long p = beh[t][k0];
    if (!p) return TRAVchildren(node);
    long left = strtol(tk[p++], NULL, 10);
    while (left--) {
        if (!node) return NULL;
        k = tidx(node);
        char op = tk[p++][0];
        long i = 0, save;
        node_st *c;
        if (strchr("todskx", op)) {
            i = strtol(tk[p++], NULL, 10);
            long v = op == 's' ? strtol(tk[p++], NULL, 10) : 0;
            if (i >= T[k].nkids) continue;
            node_st **s = T[k].kid[i](node);
            if (op == 't') { c = T[k].vis[i](node); if (c != node) printf("!helper result\n"); }
            else if (op == 'o') { c = TRAVopt(*s); *T[k].kid[i](node) = c; }
            else if (op == 'd') { if (*s) { c = TRAVdo(*s); *T[k].kid[i](node) = c; } }
            else if (op == 's') { c = TRAVstart(*s, V[v].tt); *T[k].kid[i](node) = c; }
            else if (op == 'k') { c = CCNcopy(*s); CCNfree(*s); *s = c; }
            else { CCNfree(*s); *s = NULL; }
            continue;
        }
        switch (op) {
        case 'c': c = TRAVchildren(node); if (c != node) printf("!TRAVchildren result\n"); break;
        case 'S': { long v = strtol(tk[p++], NULL, 10); node = TRAVstart(node, V[v].tt); } break;
        case 'w': i = strtol(tk[p++], NULL, 10);
            if (k == k0) { save = pos; pos = p; T[k].set[i](node, 0); pos = save; }
            p++; break;
        case 'v': if (V[t].show) { printf("V%d %d", t, trav_now()); V[t].show(); putchar('\n'); } break;
        case 'u': i = strtol(tk[p++], NULL, 10); save = pos; pos = p; V[t].set((int)i, node); pos = save; p++; break;
        case 'R': save = pos; pos = p; c = build(); pos = save; CCNfree(node); return c;
        case 'K': c = CCNcopy(node); CCNfree(node); return c;
        case 'n': CCNfree(node); return NULL;
        default: die("micro operation");
        }
    }
    return node;
}
