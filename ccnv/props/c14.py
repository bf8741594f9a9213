from ..ag import AgGen, AgLay, Eval, load, program, mandatory
from .. import cprog
from ..engine import Check, Result, Violation
from ..sem import low
from ..spec import render

class C14(Check):
    id = "C14"
    quick, thorough = 500, 8000
    rule = ("a case is a generated attribute grammar (two to five nodes, overlapping nodesets with attributes of their own, up to three visits per node, "
            "optional and mandatory children, equations over own, child and classic attributes) and three trees; it is non-trivial if the trees use at "
            "least six equations, an inherited and a synthesized attribute, and an equation with an argument")
    assumptions = ["equation functions are pure (a hash of the equation and its arguments), so equal values mean equal argument values"]
    def prepare(self): return cprog.prepare()

    def gen(self, ch):
        g = AgGen(ch)
        spec = g.all()
        return {"spec": spec, "notation": ch.below(1 << 20), "trees": g.trees(3)}

    def run(self, case, env):
        lay = AgLay(case["spec"])
        text = self.show(case)
        p = cprog.Project(env)
        p.accept(text)
        exp = []
        for t in case["trees"]:
            ev, out = Eval(lay), []
            ev.whole(load(lay, t), out)
            exp.append((ev, out))
        p.must_compile([p.write("prog.c", program(lay, case["trees"]))], what="program (%s)" % text)
        used = set()
        for i, (ev, out) in enumerate(exp):
            r = p.run([str(i), "1"])
            judge(ev, out, r, 2, text, case["trees"][i])
            used |= ev.must
        kinds = {k for n in lay.types for a in lay.attrs[n] for k in ("inh", "syn") if a.get(k)}
        args = any(lay.eqs.values())
        absent = any(ev.may - ev.must for ev, _ in exp)
        cl = {"kind " + k for k in kinds}
        if absent: cl.add("inherited attribute of an absent child")
        if any(lay.optional(n, a) for (n, t), a in lay.eqs.items()): cl.add("optional child as argument")
        if any(low(c["type"]) in lay.sem.nodeset and lay.of_type(c["type"]) for n in lay.types for c in lay.kids[n]): cl.add("nodeset child with attributes")
        return Result(len(used) >= 6 and kinds == {"inh", "syn"} and args, cl, len(exp), {"spec": text[:2500], "tree": repr(case["trees"][0])[:500]})

    def show(self, case):
        return render(case["spec"], case["notation"], ("order", "short", "case"))

def judge(ev, out, r, rounds, text, tree):
    got = r.out.split("\n")
    pos = 0
    for _ in range(rounds):
        for w in out:
            if pos >= len(got) or got[pos] != w:
                raise Violation("node is\n  %s\nbut should be\n  %s\n(%s)\n%s\n%r\n%s" % (got[pos] if pos < len(got) else "missing", w, r.why() if r.rc else "exit 0",
                                r.err[:600], tree, text))
            pos += 1
        calls = set()
        while pos < len(got) and got[pos].startswith("E "):
            calls.add(int(got[pos][2:], 16)); pos += 1
        if pos >= len(got) or got[pos] != "end": raise Violation("unexpected output %r (%s)\n%s" % (got[pos:pos + 1], r.why(), text))
        pos += 1
        if calls - ev.must - ev.may: raise Violation("an equation was applied to other values than the final ones of its arguments\n%r\n%s" % (tree, text))
        if ev.must - calls: raise Violation("an equation was not applied\n%r\n%s" % (tree, text))
    if r.rc != 0 or got[pos:] != ["freed", ""]: raise Violation("after evaluation: %s %r\n%s\n%s" % (r.why(), got[pos:], r.err[:600], text))

check = C14()
