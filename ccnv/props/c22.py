from .. import cprog, proc
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..sem import low, up
from ..spec import render

WORDS = ["add", "Sub", "MUL", "dIV", "x1", "y_2", "last", "null_", "first", "int", "while", "node", "enum", "values", "string", "true", "Null", "size", "a", "B",
         "check", "free", "cpy", "foo_bar", "E1", "e2", "NT_x", "main", "prefix", "default", "return", "struct"]

class EnumGen(Gen):
    """More enums, members and mixed-case prefixes than the other checks have."""
    def types(self):
        super().types()
        ch = self.ch
        for e in self.spec["enums"]:
            e["prefix"] = self.name(["EP", "k", "Pr_", "tX", "nt_", "TRAV", "p_Ass"])
            k = ch.weighted([(6, 0), (2, 1), (1, 2)])
            if k == 0: e["values"] = ch.sample(WORDS, ch.int(1, 8))
            else:
                e["values"] = ch.shuffle(["%s%d" % (ch.pick(["v", "V", "val_"]), i) for i in range(ch.int(9, 25 if k == 1 else 120))])

def program(spec):
    """C source whose static assertions state what the enumerations must look like, and the number of assertions."""
    a = []
    for e in spec["enums"]:
        p = up(e["prefix"])
        for i, v in enumerate(e["values"]):
            a.append("%s_%s == %s_NULL + %d" % (p, low(v), p, i + 1))
            a.append("(enum %s)%s_%s == %s_%s" % (e["name"], p, low(v), p, low(v)))
        a.append("%s_NULL == (enum %s)0" % (p, e["name"]))
    groups = [("NT", [up(n["name"]) for n in spec["nodes"]], []),
              ("NS", [up(n["name"]) for n in spec["nodesets"]], []),
              ("TRAV", [up(t["uid"]) for t in spec["travs"]], ["free", "check", "cpy"]),
              ("PASS", [up(p["name"]) for p in spec["passes"]], [])]
    sw = []
    for pre, ms, own in groups:
        all_ = ["NULL"] + ms + own
        for m in ms: a += ["%s_%s > %s_NULL" % (pre, m, pre), "%s_%s < _%s_SIZE" % (pre, m, pre)]
        a.append("_%s_SIZE == %s_NULL + %d" % (pre, pre, len(all_)))
        a.append("%s_NULL == 0" % pre)
        # members of one enumeration are distinct
        sw.append("int d_%s(int x) { switch (x) {\n%s  case _%s_SIZE: return 1; } return 0; }" % (pre, "".join("  case %s_%s:\n" % (pre, m) for m in all_), pre))
    for i, e in enumerate(spec["enums"]):
        p = up(e["prefix"])
        sw.append("int e%d(int x) { switch (x) {\n%s    return 1; } return 0; }" % (i, "".join("  case %s_%s:\n" % (p, m) for m in ["NULL"] + [low(v) for v in e["values"]])))
    return ('#include "ccngen/enum.h"\n' + "".join('_Static_assert(%s, "%s");\n' % (x, x) for x in a) + "\n".join(sw) + "\n"), len(a)

class C22(Check):
    id = "C22"
    quick, thorough = 2000, 40000
    rule = ("a case is a specification with up to six enums of 1 to 120 values in mixed letter case (C keywords and words of the language among them), up to 20 "
            "nodes, nodesets, traversals and passes; a C program states order, values, distinctness and sizes as static assertions about the generated header; "
            "it is non-trivial if an enum has at least three values and two nodes, two traversals or two passes exist")
    assumptions = []
    def prepare(self): return cprog.prepare(plain=False)

    def gen(self, ch):
        big = ch.bool(0.15)
        g = EnumGen(ch, enums=(0, 6), nodes=(1, 20 if big else 6), children=2, attrs=3, nodesets=(0, 8 if big else 4), passes=(0, 12 if big else 4),
                    travs=(0, 12 if big else 4), phases=(0, 2))
        return {"spec": g.all(), "notation": ch.below(1 << 20) if ch.bool(0.8) else 0}

    def run(self, case, env):
        spec, text = case["spec"], self.show(case)
        p = cprog.Project(env)
        p.accept(text)
        src, n = program(spec)
        f = p.write("enums.c", src)
        r = proc.run(["gcc", "-fsyntax-only", "-w", "-I", p.gen, f], p.dir, cpu=60)
        if r.rc != 0:
            bad = [l for l in r.err.splitlines() if "error" in l]
            raise Violation("generated enumerations: %s\n%s" % ("; ".join(bad)[:800] or r.why(), text))
        cl = set()
        if any(len(e["values"]) > 8 for e in spec["enums"]): cl.add("more than 8 values")
        if any(v.lower() != v for e in spec["enums"] for v in e["values"]): cl.add("mixed-case value")
        if any(up(e["prefix"]) != e["prefix"] for e in spec["enums"]): cl.add("mixed-case prefix")
        for k in ("nodes", "nodesets", "travs", "passes"):
            if len(spec[k]) > 5: cl.add("more than 5 " + k)
        return Result(any(len(e["values"]) >= 3 for e in spec["enums"]) and max(len(spec[k]) for k in ("nodes", "travs", "passes")) >= 2, cl, n, {"spec": text[:2000], "assertions": n})

    def show(self, case): return render(case["spec"], case["notation"])

check = C22()
