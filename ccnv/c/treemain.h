static char text[1 << 22];
static void readall(void) {
    size_t n = fread(text, 1, sizeof text - 1, stdin);
    text[n] = 0;
    for (char *t = strtok(text, " \n"); t; t = strtok(NULL, " \n")) { if (ntk == 1 << 20) die("script too long"); tk[ntk++] = t; }
}
static void skipmicro(void) {
    /* a behaviour is as long as its tokens up to the end of the line marker */
    while (strcmp(tok(), ";")) ;
}
static void baseset(node_st *n, int which) {
    if (which == 4) { if (NODE_FILENAME(n)) cv_free(NODE_FILENAME(n)); NODE_FILENAME(n) = rdstr(); return; }
    uint32_t v = (uint32_t)strtoul(tok(), NULL, 10);
    if (which == 0) NODE_BLINE(n) = v;
    else if (which == 1) NODE_ELINE(n) = v;
    else if (which == 2) NODE_BCOL(n) = v;
    else NODE_ECOL(n) = v;
}
/* exit status of a run of the compiler on this tree */
static int apart(node_st *n) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        CCNrun(n);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p) die("fork");
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void exec(char *o) {
    long a, b;
    node_st **s, *c;
    switch (o[0]) {
    case 'B': a = num(); b = num(); beh[a][b] = pos; skipmicro(); break;
    case 'I': a = num(); ini[a] = pos; skipmicro(); break;
    case 'J': a = num(); fin[a] = pos; skipmicro(); break;
    case 'Q': a = num(); if (a >= MAXSTEP) die("event step"); events[a] = pos; skipmicro(); break;
    case 'g': a = num(); gates[a] = pos; gatepos[a] = 0; skipmicro(); break;
    case 'G': a = num(); R[a] = build(); break;
    case 'W': s = slot(tok()); a = num(); b = num(); T[tidx(*s)].set[a](*s, (int)b); break;
    case 'E': s = slot(tok()); a = num(); baseset(*s, (int)a); break;
    case 'P': a = num(); s = slot(tok()); c = *s; *s = R[a]; R[a] = c; break;
    case 'D': a = num(); printf("D "); dump(R[a]); putchar('\n'); break;
    case 'C': a = num(); s = slot(tok()); c = CCNcopy(*s); R[a] = c; break;
    case 'F': a = num(); CCNfree(R[a]); R[a] = NULL; printf("F ok\n"); break;
    case 'T': a = num(); b = num(); fuel = FUEL; R[a] = TRAVstart(R[a], V[b].tt); printf("T "); pnode(R[a]); putchar('\n');
        if (TRAVgetCurrent()) printf("!traversal still active\n");
        break;
    case 'L': putchar('L'); for (long i = 0; i < nknown; i++) if (cv_is_live((void *)known[i])) printf(" %ld", i); putchar('\n'); break;
    case 'Z': for (int i = 0; i < NREG; i++) { CCNfree(R[i]); R[i] = NULL; } printf("Z %ld\n", cv_live()); break;
    case 'Y': a = num(); c = R[a]; R[a] = NULL; fuel = 100000; running = 1; CCNrun(c); running = 0; printf("Y done\n"); break;
    case 'X': a = num(); printf("X %d\n", apart(R[a])); break;
    case 'c': CCNsetCycles((size_t)num()); break;
    case 't': CCNsetTreeCheck(num()); break;
    case 'b': CCNsetBreakpoint(tok()); break;
    case 'i': CCNsetBreakpointWithID((size_t)num()); break;
    case 'v': CCNsetVerbosity((enum pd_verbosity)num()); break;
    case 'l': CCNshowTree(); break;
    case 'n': CCNcycleNotify(); break;
    case 'p': CCNerrorPhase(); break;
    case 'a': CCNerrorAction(); break;
    default: die("operation");
    }
}
static void event(void) {
    step++;
    if (step >= MAXSTEP || !events[step]) return;
    long save = pos;
    pos = events[step];
    char *o;
    while (strcmp(o = tok(), ";")) exec(o);
    pos = save;
}
node_st *act(int i, node_st *node) {
    printf("A%d a%ld ", i, running ? (long)CCNgetCurrentActionId() : -1L); pnode(node); putchar('\n');
    node_st *keep = R[0];
    R[0] = node;
    event();
    node = R[0];
    R[0] = keep;
    return node;
}
bool gate(int i) {
    long p = gates[i];
    bool v = true;
    if (p) {
        p += gatepos[i];
        v = tk[p][0] == '1';
        if (tk[p + 1][0] != ';') gatepos[i]++;
    }
    printf("?%d %d\n", i, v);
    return v;
}
void BreakpointHandler(node_st *node) { printf("BREAK "); dump(node); putchar('\n'); fflush(stdout); }
int main(void) {
    readall();
    for (;;) {
        char *o = tok();
        if (o[0] == '.') { fflush(stdout); cv_verify(); return 0; }
        exec(o);
    }
}
