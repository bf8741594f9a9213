"""Field macros and child helpers on nodes of every type."""
import os
from .. import cprog
from ..ag import AgGen, AgLay, Eval, columns, load, program as agprogram, show
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..sem import Sem, low, up
from ..spec import render

HEAD = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/wait.h>
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
void BreakpointHandler(node_st *n) { (void)n; }
'''
MAIN = r'''
int main(void) {
    static char buf[4096];
    for (int t = 0; t < NT; t++) {
        for (int i = 0; i < NM; i++) {
            if (!right[i][t]) continue;
            if (kind[i] == 0) {
                node_st *n = node[t] ? node[t] : (node[t] = mk(t));
                printf("A %d %d %lld %d\n", t, i, (long long)(intptr_t)use[i](n), size[i]);
            }
        }
        fflush(stdout);
        if (NODBG) continue;
        for (int i = 0; i < NM; i++) {
            int p[2], st, k = 0, r;
            if (pipe(p)) return 9;
            pid_t c = fork();
            if (c == 0) { close(p[0]); dup2(p[1], 2); use[i](mk(t)); _exit(0); }
            close(p[1]);
            while ((r = read(p[0], buf + k, sizeof buf - 1 - k)) > 0) k += r;
            close(p[0]);
            buf[k] = 0;
            for (char *s = buf; *s; s++) if (*s == '\n') *s = '|';
            if (waitpid(c, &st, 0) < 0) return 9;
            printf("U %d %d %d %s\n", t, i, WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st), buf);
            fflush(stdout);
        }
    }
    printf("done\n");
    return 0;
}
'''

def macros(sem, spec):
    """(kind, macro or helper, type name, field, node types): kind 0 a field, 1 an evaluated attribute, 2 a helper."""
    out = []
    for n in spec["nodes"]:
        k = low(n["name"])
        for c in n["children"]: out.append((0, "%s_%s" % (up(k), up(c["name"])), n["name"], low(c["name"]), frozenset([k])))
        for a in sem.attrs(k): out.append((1 if a.get("syn") or a.get("inh") else 0, "%s_%s" % (up(k), up(a["name"])), n["name"], low(a["name"]), frozenset([k])))
    for s in spec["nodesets"]:
        k = low(s["name"])
        for a in sem.nodeset_attrs(k): out.append((1 if a.get("syn") or a.get("inh") else 0, "%s_%s" % (up(k), up(a["name"])), s["name"], low(a["name"]), sem.typ(k)))
    for h in sorted({low(c["name"]) for n in spec["nodes"] for c in n["children"]}):
        out.append((2, "TRAV" + h, h, h, frozenset(low(n["name"]) for n in spec["nodes"] if any(low(c["name"]) == h for c in n["children"]))))
    return out

def program(spec, sem, ms, line, ndebug):
    o = [HEAD, "enum { NT = %d, NM = %d, NODBG = %d };\nstatic node_st *node[NT];\nstatic node_st *mk(int t) { switch (t) {\n" % (len(sem.order), len(ms), ndebug)]
    for i, k in enumerate(sem.order):
        kids, attrs = sem.ctor(k)
        o.append("case %d: return AST%s(%s);\n" % (i, k, ", ".join(["0"] * (len(kids) + len(attrs)))))
    o.append("} return 0; }\n")
    for i, m in enumerate(ms):
        body = "return (void *)&%s(n);" % m[1] if m[0] == 0 else "(void)%s(n); return 0;" % m[1]
        o.append('static void *use%d(node_st *n) {\n#line %d "place%d.c"\n%s\n}\n' % (i, line + i, i, body))
    o.append("static void *(*use[])(node_st *) = {%s};\n" % ", ".join("use%d" % i for i in range(len(ms))))
    o.append("static int kind[] = {%s};\n" % ", ".join(str(m[0]) for m in ms))
    o.append("static int size[] = {%s};\n" % ", ".join("sizeof(%s((node_st *)0))" % m[1] if m[0] == 0 else "0" for m in ms))
    o.append("static char right[NM][NT] = {%s};\n" % ", ".join("{%s}" % ", ".join(str(int(k in m[4])) for k in sem.order) for m in ms))
    o.append(MAIN)
    return "".join(o)

class C25(Check):
    id = "C25"
    quick, thorough = 420, 9000
    rule = ("a case is a specification with nodesets of shared attributes, or an attribute grammar; every field macro and child helper is applied to a fresh node of every "
            "type, in a process of its own, or every evaluated attribute of a tree is read each time an equation is applied; it is non-trivial if it has at least "
            "two node types, a nodeset macro or an evaluated attribute, and twenty applications, or six equations are applied")
    assumptions = ["with NDEBUG only applications to the right type are looked at", "macros are not applied to NULL"]

    def prepare(self): return cprog.prepare(alloc=False)

    def gen(self, ch):
        if ch.bool(0.3):
            g = AgGen(ch)
            g.all()
            return {"spec": g.spec, "notation": ch.below(1 << 20) if ch.bool(0.8) else 0, "trees": g.trees(2)}
        if ch.bool(0.3):
            g = AgGen(ch, wide=True)
            g.all()
        else:
            g = Gen(ch, user=True, nodes=(1, 6), nodesets=(1, 4), nsattrs=0.8, gates=False, phases=(0, 1), passes=(0, 1), travs=(0, 2), lifetimes=0)
            g.all()
        return {"spec": g.spec, "notation": ch.below(1 << 20) if ch.bool(0.8) else 0, "line": ch.int(1, 30000), "ndebug": ch.bool(0.15)}

    def run(self, case, env):
        spec, text = case["spec"], self.show(case)
        if "trees" in case: return self.during(case, env, spec, text)
        sem = Sem(spec)
        ms = macros(sem, spec)
        if not ms: return Result(False, {"no fields"}, 0)
        p = cprog.Project(env)
        p.accept(text)
        src = p.write("prog.c", program(spec, sem, ms, case["line"], int(case["ndebug"])))
        p.must_compile([src], alloc=False, user=True, flags=["-DNDEBUG"] if case["ndebug"] else [])
        r = p.run(cpu=30)
        if r.rc != 0 or not r.out.endswith("done\n"): raise Violation("macros on nodes of the right type: %s: %s\n%s" % (r.why(), r.err[-400:], text))
        addr, seen = {}, 0
        for l in r.out.splitlines():
            w = l.split(" ", 4)
            if w[0] == "A":
                addr.setdefault(int(w[1]), []).append((int(w[3]), int(w[4]), ms[int(w[2])]))
                seen += 1
            elif w[0] == "U":
                self.judge(case, sem, ms, sem.order[int(w[1])], int(w[2]), int(w[3]), w[4], text)
                seen += 1
        want = sum(sum(k in m[4] for k in sem.order) for m in ms if m[0] == 0) + (0 if case["ndebug"] else len(ms) * len(sem.order))
        if seen != want: raise Violation("%d applications reported instead of %d\n%s" % (seen, want, text))
        for t, xs in addr.items():
            field = {}
            for a, n, m in xs:
                if field.setdefault(m[3], (a, n, m[1])) [:2] != (a, n):
                    raise Violation("%s and %s reach different places of a %s\n%s" % (m[1], field[m[3]][2], sem.order[t], text))
            fs = sorted(field.values())
            for (a, n, x), (b, _, y) in zip(fs, fs[1:]):
                if a + n > b: raise Violation("%s and %s reach the same place of a %s\n%s" % (x, y, sem.order[t], text))
        cl = {"NDEBUG"} if case["ndebug"] else set()
        if any(m[0] == 1 for m in ms): cl.add("evaluated attributes")
        if any(len(m[4]) > 1 for m in ms if m[0] < 2): cl.add("nodeset macros")
        if any(m[0] == 2 for m in ms): cl.add("helpers")
        return Result(len(sem.order) > 1 and bool(cl & {"evaluated attributes", "nodeset macros"}) and seen >= 20, cl, seen, {"spec": text[:2000], "applications": seen})

    def during(self, case, env, spec, text):
        """Reads every attribute each time an equation is applied."""
        lay = AgLay(spec)
        p = cprog.Project(env)
        p.accept(text)
        p.must_compile([p.write("prog.c", agprogram(lay, case["trees"], probe=True))], alloc=False, what="program (%s)" % text)
        reads = early = 0
        for i, t in enumerate(case["trees"]):
            ev, root = Eval(lay), load(lay, t)
            ev.whole(root, [])
            nodes = []
            def order(n):
                for c in n.ch:
                    if c: order(c)
                nodes.append(n)
            order(root)
            if len(ev.must) * sum(len(columns(lay, n.typ)) for n in nodes) > 200000: continue       # every read is a line, some a message
            r = p.run([str(i), "0"], cpu=30)
            if r.rc != 0 or not r.out.endswith("end\nfreed\n"): raise Violation("reading attributes during their evaluation: %s %s\n%s" % (r.why(), r.err[-300:], text))
            applied = set()
            for x in r.out.splitlines():
                w = x.split(" ")
                if w[0] == "C": applied.add(int(w[1], 16))
                elif w[0] == "P":
                    n = nodes[int(w[1])]
                    a, m = columns(lay, n.typ)[int(w[2])]
                    reads += 1
                    want = n.memo[low(a["name"])]
                    if n.hash[low(a["name"])] not in applied: raise Violation("%s of a %s can be read before its equation was applied\n%r\n%s" % (m, n.typ, t, text))
                    if w[3] != show(lay.vk(a), want): raise Violation("%s of a %s is %s, not %s\n%r\n%s" % (m, n.typ, w[3], show(lay.vk(a), want), t, text))
            early += len(applied)
        return Result(early >= 6, {"reads during evaluation"}, reads, {"spec": text[:2000], "reads": reads})

    def judge(self, case, sem, ms, t, i, rc, err, text):
        kind, macro, typ, field, types = ms[i]
        what = "%s on a node %s" % (macro, t)
        if t in types and kind != 1:
            if rc != 1000 or err: raise Violation("%s: %s\n%s" % (what, err or "status %d" % rc, text))
            return
        if rc != 6: raise Violation("%s does not stop the program with an assertion (%d %s)\n%s" % (what, rc, err, text))
        if kind == 2: exp = ["no child " + field]
        elif t in types and low(typ) in sem.nodeset: exp = ["attribute '%s'" % field, "before it has been evaluated"]     # reported by the macro of the node
        elif t in types: exp = ["attribute '%s'" % field, "before it has been evaluated", "place%d.c" % i, "line %d " % (case["line"] + i), "use%d|" % i]
        else: exp = ["passed to %s is not a '%s'" % (low(macro), low(typ)), "place%d.c" % i, "line %d " % (case["line"] + i), "use%d|" % i]
        for e in exp:
            if e not in low(err): raise Violation("%s: the message does not name %r: %s\n%s" % (what, e, err, text))

    def show(self, case): return render(case["spec"], case["notation"])

check = C25()
