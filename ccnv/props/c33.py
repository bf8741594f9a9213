import os
from .. import cprog
from ..ag import AgGen, AgLay, Eval, load
from ..ag import program as agprogram
from ..engine import Check, Result
from ..gen import Gen
from ..phasegen import RunGen
from ..sem import low, up
from ..spec import render
from ..tree import Lay, Machine, compare, enc, program
from .c14 import judge

class Bare(Machine):
    """A run of the functions as they are generated."""
    def start(self, n, t):
        l = self.l
        U = up(l.sem.trav[t]["uid"])
        self.stack.append({"t": t, "d": []})
        if l.data[t]: self.log.append("CALL %sinit" % U)
        n = self.opt(n)
        if l.data[t]: self.log.append("CALL %sfini" % U)
        self.stack.pop()
        return n
    def handle(self, node, t):
        self.log.append("CALL %s%s" % (up(self.l.sem.trav[t]["uid"]), node.typ))
        self.steps += 1
        for i in range(len(node.ch)): node.ch[i] = self.opt(node.ch[i])
        return node
    def dispatch(self, a, n):
        if a.kind != "pass": return super().dispatch(a, n)
        keep, self.log, ids, known = self.log, [], dict(self.ids), list(self.known)      # nobody reports the node
        try: n = super().dispatch(a, n)
        finally: self.log, new, self.ids, self.known = keep, self.log, ids, known
        for x in new: self.log.append("CALL " + self.l.sem.pass_func(a.x) if x.startswith("A") else x)
        self.steps += 1
        return n

class BareGen(RunGen):
    def __init__(self, ch, lay, prof):
        super().__init__(ch, lay, prof)
        self.m = Bare(lay)
    def script(self):
        ch, l = self.ch, self.l
        self.settings()
        if l.travs and ch.bool(0.7):
            self.root(0)
            for _ in range(ch.int(1, 3)):
                self.emit(["T", 0, ch.pick(l.travs)])
                self.emit(["D", 0])
        for _ in range(ch.int(0, 2)):
            self.root(1)
            self.emit(["Y", 1])
        self.emit(["L"])
        if ch.bool(0.3):
            self.emit(["Z"])
            return self.out
        self.root(1)
        self.emit(["i", 1])          # the tree at the end of the run
        try: self.emit(["Y", 1])
        except Exception as e:
            if type(e).__name__ != "Stop": raise
        return self.out

class Zero(Eval):
    """Every equation gives the default of its type."""
    def apply(self, n, tgt, a): return 0
    def get(self, n, a):
        if not a.get("inh") and not a.get("syn"): return n.vals[low(a["name"])]
        return {"string": None, "double": 0.0, "float": 0.0}.get(self.l.vk(a), 0)

class C33(Check):
    id = "C33"
    quick, thorough = 450, 8000
    rule = ("a case is a specification whose functions are the generated skeletons, and runs and single traversals of them over random trees, or an attribute "
            "grammar evaluated with the generated equation functions; it is non-trivial if at least four functions of a skeleton, or six equations, are used")
    profile = dict(nodes=(1, 6), passes=(0, 3), travs=(1, 4), phases=(0, 4), nsattrs=0.3, attrs=3, children=4, enums=(0, 1), user=True, data=True, actions=4, expanded=25)
    runs = dict(check=0.8, verbose=0)
    assumptions = ["calls of skeleton functions are seen through gcc's -finstrument-functions"]

    def prepare(self): return cprog.prepare()

    def gen(self, ch):
        if ch.bool(0.3):
            g = AgGen(ch)
            return {"spec": g.all(), "notation": ch.below(1 << 20), "trees": g.trees(2)}
        spec = Gen(ch, **self.profile).all()
        lay = Lay(spec)
        return {"spec": spec, "notation": ch.below(1 << 20), "scripts": [BareGen(ch, lay, self.runs).script() for _ in range(ch.int(2, 4))]}

    def run(self, case, env):
        text = self.show(case)
        p = cprog.Project(env)
        p.accept(text)
        user = os.path.join(p.gen, "user")
        if "trees" in case:
            lay = AgLay(case["spec"])
            eqs = [os.path.join(user, f) for f in sorted(os.listdir(user)) if f.startswith("eq_")]
            p.must_compile([p.write("prog.c", agprogram(lay, case["trees"], skeleton=True))] + eqs, what="program (%s)" % text)
            n = 0
            for i, t in enumerate(case["trees"]):
                ev, out = Zero(lay), []
                ev.whole(load(lay, t), out)
                ev.may = set()
                judge(ev, out, p.run([str(i), "1"]), 2, text, t)
                n += sum(len(lay.eqs) and 1 for _ in out)
            return Result(len(lay.eqs) >= 6 and n >= 2, {"equations"}, len(case["trees"]), {"spec": text[:2000]})
        lay = Lay(case["spec"])
        p.must_compile([p.write("prog.c", program(lay, skeleton=True))], what="program (%s)" % text, user=True, flags=["-finstrument-functions"])
        most, cl = 0, set()
        for sc in case["scripts"]:
            m = Bare(lay)
            m.run(sc)
            if m.unclear:
                cl.add("unclear")
                continue
            compare(m, p.run(stdin=enc(lay, sc)), text)
            most = max(most, len({x for x in m.log if x.startswith("CALL")}))
            cl.update(m.stats)
        return Result(most >= 4, cl, len(case["scripts"]), {"spec": text[:2000], "script": enc(lay, case["scripts"][0])[:600]})

    def show(self, case):
        return render(case["spec"], case["notation"], ("order", "short", "case"))

check = C33()
