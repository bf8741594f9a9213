"""Generates runs of the phase driver, and the base class of the checks that use them."""
from . import cprog
from .engine import Check, Result, Violation
from .gen import Gen
from .spec import render
from .tree import Lay, Machine, Stop, enc, program, compare
from .treegen import ScriptGen, MICRO
from .sem import low

class GenMachine(Machine):
    """The model, deciding at every step of a run what happens there."""
    def __init__(self, lay, owner):
        super().__init__(lay)
        self.owner = owner
    def dispatch(self, a, n):
        keep, self.action = getattr(self, "action", None), a
        try: return super().dispatch(a, n)
        finally: self.action = keep
    def event(self):
        ops = self.step < 60000 and self.owner.at_step(self.action)       # (the program has room for 65536 steps)
        if ops: self.events[self.step + 1] = ops
        super().event()

class RunGen(ScriptGen):
    """One script: trees, settings, gate results, then runs with events."""
    def __init__(self, ch, lay, prof):
        super().__init__(ch, lay, {}, prof.get("micro", MICRO))
        self.p = prof
        self.m = GenMachine(lay, self)
        self.notifies = self.signals = 0

    def settings(self):
        ch, p = self.ch, self.p
        if ch.bool(0.7): self.emit(["c", ch.weighted([(3, 2), (3, 3), (2, 1), (1, 5), (1, 8)])])
        if "check" in p: self.emit(["t", 1 if ch.bool(p["check"]) else 0])
        if ch.bool(p.get("verbose", 0.2)): self.emit(["v", ch.below(4)])
        for i in range(len(self.l.gates)):
            if ch.bool(0.7): self.emit(["g", i, [1 if ch.bool(0.6) else 0 for _ in range(ch.int(1, 4))]])

    def at_step(self, a):
        ch, p, m = self.ch, self.p, self.m
        out = []
        if self.notifies > 0 and m.step < 1200 and ch.bool(p.get("notify", 0.3)) and not m.perr:
            out.append(["n"]); self.notifies -= 1
        if p.get("cycles") and ch.bool(p["cycles"]): out.append(["c", ch.int(1, 4)])
        if p.get("errors") and self.signals > 0 and ch.bool(p["errors"]):
            ph = a.parent
            if ch.bool() and not (ph.x.get("cycle") and (m.changed or out)): out.append(["p"]); self.signals -= 1
            elif ch.bool(0.5): out.append(["a"]); self.signals -= 1
        if p.get("loud") and ch.bool(p["loud"]): out.append(["v", ch.below(4)])
        if p.get("toggle") and ch.bool(p["toggle"]): out.append(["t", 1 - int(m.check)])
        if a.kind == "pass" and ch.bool(p.get("edit", 0.2)): out += self.edits()
        return out

    def edits(self):
        """Edits of the tree in R[0] during a pass; tried out on the model, which runs them again as the event."""
        ch, l, m = self.ch, self.l, self.m
        n = m.R[0]
        # the model will execute the operations right after this, so only state-independent or first operations are made
        if n is None or ch.bool(self.p.get("renew", 0.15)):
            out = [["F", 0]] if n is not None else []
            if ch.bool(0.85):
                self.budget = 8
                keep, m.R = m.R, [None] * len(m.R)
                out.append(["G", 0, self.tree([l.sem.root], 4)])
                m.R = keep
            return out
        path = self.path(0)
        x = m.at(path)
        k = ch.weighted([(self.p.get("swap", 2) if x.ch else 0, "P"), (self.p.get("write", 3) if l.attrs[x.typ] else 0, "W"), (1, "E")])
        if k == "W":
            f = ch.below(len(l.attrs[x.typ]))
            a = l.attrs[x.typ][f]
            return [["W", path, f, ch.below(len(l.routes[x.typ, f])), self.value(a), l.vk(a)]]
        if k == "P":
            i = ch.below(len(x.ch))
            ok = [j for j in range(1, len(m.R)) if m.R[j] is None or m.R[j].typ in l.slot[x.typ, i] or ch.bool(self.p.get("illtyped", 0))]
            if ok: return [["P", ch.pick(ok), path + [i]]]
        wh = ch.below(4)
        return [["E", path, wh, ch.below(50)]]

    def root(self, r):
        self.budget = self.ch.weighted([(1, 2), (4, 8), (2, 14)])
        self.emit(["G", r, self.tree([self.l.sem.root], 5)])

    def script(self):
        ch, l, m, p = self.ch, self.l, self.m, self.p
        if p.get("behave", True):
            self.behaviours()
        self.settings()
        for r in range(1, 4):
            if ch.bool(0.6): self.emit(["G", r, self.newtree()])
        try:
            for i in range(ch.int(*p.get("runs", (1, 2)))):
                if ch.bool(0.95): self.root(0)
                self.before(i)
                self.notifies, self.signals = ch.weighted([(4, 6), (1, 0), (2, 12), (p.get("flood", 0), 260)]), 1 if ch.bool(0.8) else 3
                start = len(self.out)
                self.emit(["Y", 0])
            self.emit(["L"])
            self.emit(["Z"])
        except Stop:
            pass
        # the events found during the runs come before the first run
        at = next((i for i, o in enumerate(self.out) if o[0] == "Y"), len(self.out))
        return self.out[:at] + [["Q", k, v] for k, v in sorted(m.events.items()) if v] + self.out[at:]

    def before(self, i):
        pass

class RunCheck(Check):
    profile = {}      # specifications
    runs = {}         # RunGen
    runner = RunGen
    scripts = (4, 8)
    asan = False

    def prepare(self):
        return cprog.prepare(plain=not self.asan, asan=self.asan)

    def gen(self, ch):
        spec = Gen(ch, **self.profile).all()
        lay = Lay(spec)
        return {"spec": spec, "scripts": [self.runner(ch, lay, self.runs).script() for _ in range(ch.int(*self.scripts))]}

    def interesting(self, spec, lay, m):
        return True
    def extra(self, m, r, text):
        pass

    def run(self, case, env):
        spec = case["spec"]
        lay = Lay(spec)
        p = cprog.Project(env)
        text = render(spec)
        p.accept(text)
        c = p.write("prog.c", program(lay))
        p.must_compile([c], asan=self.asan)
        good, cl = 0, set()
        for sc in case["scripts"]:
            m = Machine(lay)
            m.run(sc)
            if m.unclear:
                cl.add("unclear")
                continue
            r = p.run(stdin=enc(lay, sc))
            compare(m, r, text)
            if m.status == 0 and r.err.strip() and not m.loud:
                raise Violation("stderr of a run without problems: %s\n%s" % (r.err[:500], text))
            self.extra(m, r, text)
            if self.interesting(spec, lay, m): good += 1
            cl.update(m.stats)
        return Result(good > 0, cl, len(case["scripts"]), {"spec": text[:2500], "script": enc(lay, case["scripts"][0])[:800]})

    def show(self, case):
        lay = Lay(case["spec"])
        return render(case["spec"]) + "\n" + "\n".join(enc(lay, s) for s in case["scripts"])
