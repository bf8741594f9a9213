import copy, os
from .. import cprog
from ..ag import AgGen, AgLay, Eval, load, program as agprogram
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..phasegen import RunGen
from ..spec import render
from ..tree import Lay, Machine, enc, program
from ..treegen import ScriptGen, OPS, MICRO
from .c02 import Breaker, SPEC
from .c03 import Soup
from .c14 import judge
from .c15 import Edits

WHAT = ["case", "space", "comment", "order", "inline", "short", "info"]
PROFILE = dict(user=True, lifetimes=0.2, nodes=(1, 5), enums=(0, 2), nodesets=(0, 4), passes=(1, 3), travs=(0, 3), phases=(0, 4))

def contents(d):
    """Generated C files; drawings of the tree are no part of the compiler."""
    out = {}
    for top, ds, fs in os.walk(d):
        for f in fs:
            if f.endswith((".c", ".h")): out[os.path.relpath(os.path.join(top, f), d)] = open(os.path.join(top, f), "rb").read()
    return out

class C16(Check):
    id = "C16"
    quick, thorough = 900, 16000
    rule = ("a case is one specification in two notations that differ in the letter case of references, white space, comments, order of definitions, inline or "
            "top-level actions, long or short forms and info texts: a well-formed one, whose two compilers run the same scripts (tree operations, traversals, "
            "driver runs with checks and breakpoints, attribute evaluation), an attribute grammar with random dependencies, a specification with one broken rule, "
            "or a random sentence of the grammar, for which the verdicts are compared; it is non-trivial if the texts differ in more than white space")
    assumptions = ["two compilers whose generated C files are identical behave the same"]
    def prepare(self): return cprog.prepare()

    def gen(self, ch):
        kind = ch.weighted([(8, "tree"), (8, "run"), (5, "ag"), (5, "order"), (8, "bad"), (4, "soup")])
        what = sorted(ch.sample(WHAT, ch.int(1, 3))) if ch.bool(0.6) else WHAT
        case = {"kind": kind, "what": what, "notations": [0 if ch.bool() else ch.int(1, 1 << 20), ch.int(1, 1 << 20)]}
        if kind == "soup":
            t = Soup(ch).text()
            sp = lambda: [ch.weighted([(6, " "), (1, "\n"), (1, "\t"), (1, "  "), (1, " // }{;\n"), (1, " /* a = { } ; */ "), (1, "/**/"), (1, "\r\n")]) for _ in t]
            case["texts"] = [" ".join(t), "".join(x + y for x, y in zip(t, sp()))]
        elif kind == "bad":
            b = Breaker(Gen(ch, **PROFILE))
            b.g.all(); b.sem = type(b.sem)(b.g.spec)
            b.s = b.g.spec
            case["bad"] = getattr(b, ch.pick(SPEC))()
            case["spec"] = b.s
        elif kind in ("ag", "order"):
            g = AgGen(ch)
            case["spec"] = g.all()
            if kind == "ag": case["trees"] = g.trees(3)
            else:
                e = Edits(g)
                for _ in range(ch.size(1, 4)): e.edge()
                case["notations"] += [ch.int(1, 1 << 20) for _ in range(3)]
                case["what"] = ["order"]
        else:
            case["spec"] = Gen(ch, **PROFILE).all()
            lay = Lay(case["spec"])
            case["scripts"] = [ScriptGen(ch, lay, OPS, MICRO).script(ch.int(3, 10)) if kind == "tree" else RunGen(ch, lay, {}).script() for _ in range(ch.int(2, 4))]
        return case

    def texts(self, case):
        return case["texts"] if "texts" in case else [render(case["spec"], n, case["what"]) for n in case["notations"]]

    def run(self, case, env):
        texts, kind = self.texts(case), case["kind"]
        ps = [cprog.Project(env, "p%d" % i) for i in range(len(texts))]
        rs = [p.generate(t) for p, t in zip(ps, texts)]
        for r, t in zip(rs, texts):
            if r.crashed or r.rc not in (0, 1): raise Violation("%s\n%s" % (r.why(), t))
        for i in range(1, len(rs)):
            if rs[i].rc != rs[0].rc:
                a, b = (0, i) if rs[0].rc == 0 else (i, 0)
                raise Violation("one notation is accepted, the other rejected (%s)\n--- accepted\n%s\n--- rejected\n%s" % (cprog.squeeze(rs[b].err, 600), texts[a], texts[b]))
        cl = {kind} | {"differs in " + w for w in case["what"]} if kind != "soup" else {kind}
        more = "".join(texts[0].split()) != "".join(texts[1].split())
        if rs[0].rc != 0:
            if kind in ("tree", "run", "ag"): raise Violation("well-formed specification not accepted: %s\n%s" % (cprog.squeeze(rs[0].err), texts[0]))
            return Result(more, cl | {"both rejected"}, 1, {"notations": [t[:1500] for t in texts], "verdict": "rejected"})
        if kind in ("order", "bad", "soup"): return Result(more, cl | {"both accepted"}, 1, {"notations": [t[:1500] for t in texts], "verdict": "accepted"})
        same = contents(ps[0].gen) == contents(ps[1].gen)
        if same: return Result(more, cl | {"identical files"}, 1)
        if kind == "ag":
            lay = AgLay(case["spec"])
            src = agprogram(lay, case["trees"])
        else: src = program(Lay(case["spec"]))
        for p, t in zip(ps, texts): p.must_compile([p.write("prog.c", src)], what="program (%s)" % t)
        if kind == "ag":
            for i, t in enumerate(case["trees"]):
                ev, out = Eval(lay), []
                ev.whole(load(lay, t), out)
                for p, text in zip(ps, texts): judge(ev, out, p.run([str(i), "0"]), 1, text, t)
            return Result(more, cl | {"programs compared"}, len(case["trees"]))
        lay = Lay(case["spec"])
        for sc in case["scripts"]:
            s = enc(lay, sc)
            a, b = [p.run(stdin=s) for p in ps]
            if a.crashed or b.crashed: raise Violation("script %s: %s / %s\n%s" % (s[:300], a.why(), b.why(), texts[0]))
            if (a.rc, a.out, sorted(a.err.splitlines())) != (b.rc, b.out, sorted(b.err.splitlines())):
                d = next((i for i, (x, y) in enumerate(zip(a.out.splitlines() + [""], b.out.splitlines() + [""])) if x != y), -1)
                raise Violation("two notations of one specification behave differently: status %d and %d, output line %d: %r and %r, %s / %s\n--- first\n%s\n--- second\n%s" % (
                    a.rc, b.rc, d, a.out.splitlines()[d:d + 1], b.out.splitlines()[d:d + 1], a.err[:300], b.err[:300], texts[0], texts[1]))
        return Result(more, cl | {"programs compared"}, len(case["scripts"]), {"notations": [t[:1500] for t in texts], "script": enc(lay, case["scripts"][0])[:500]})

    def show(self, case): return "\n--- and\n".join(self.texts(case))

check = C16()
