"""Generates scripts for the tree machine, and the base class of the checks that use it."""
from . import cprog, proc
from .engine import Check, Result, Violation
from .gen import Gen
from .spec import render
from .tree import Lay, Machine, Str, Node, enc, program, compare, INTS
from .sem import low

TEXTS = ["", "a", "hello", "x y", "%s%d", "a\"b", "tab\there", "0", "-", "{n1}", "q" * 40, "\xe9\xff", "/*", "\\n"]
LENGTHS = [8, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000]
MICRO = dict(c=4, t=3, o=2, d=2, s=0, S=0, k=0, x=0, w=1, v=0, u=0, R=0, K=0, n=0)
OPS = dict(W=4, E=1, P=2, D=3, C=0, F=0, T=0, L=0, G=2)

class ScriptGen:
    ill = 0
    def __init__(self, ch, lay, ops, micro=MICRO, size=18):
        self.ch, self.l, self.ops, self.micro_w, self.size = ch, lay, ops, micro, size
        self.m = Machine(lay)
        self.out = []
        s = lay.sem
        # types that may stand wherever a type may stand
        self.subst = {t: [u for u in lay.types if all(u in v for v in lay.slot.values() if t in v)] for t in lay.types}

    def emit(self, op):
        self.out.append(op)
        self.m.do(op)

    def value(self, a, here=True):
        ch, l = self.ch, self.l
        k = l.vk(a)
        if k == "string":
            if ch.bool(0.2): return None
            if not ch.bool(0.12): return ch.pick(TEXTS)
            n = ch.pick(LENGTHS)
            return ("%x." % n * (n // 2 + 1))[:n]
        if k == "bool": return ch.below(2)
        if k in ("float", "double"): return ch.pick([0.5, 1.0, -2.25, 3.0, -0.0, 1e10, 2.0 ** -20, -123456.0])
        if k == "enum": return ch.below(len(l.sem.enum[low(a["t"][1])]["values"]) + 1)
        if k == "link":
            regs = [i for i, r in enumerate(self.m.R) if r is not None]
            if here and ch.bool(0.15): return "@"
            if not regs or ch.bool(0.15): return None
            return self.path(ch.pick(regs))
        lo, hi = INTS[k]
        return ch.weighted([(3, ch.int(0, 100)), (1, lo), (1, hi), (1, min(hi, max(lo, -1))), (1, hi // 3)])

    def path(self, r, full=True):
        """Path of a node below R[r] (not None)."""
        p, n = [r], self.m.R[r]
        while n is not None:
            ks = [i for i, c in enumerate(n.ch) if c is not None]
            if not ks or self.ch.bool(0.35): break
            i = self.ch.pick(ks)
            p.append(i); n = n.ch[i]
        return p

    def tree(self, types, depth):
        ch, l = self.ch, self.l
        if self.budget <= 0: return None
        self.budget -= 1
        typ = ch.pick(sorted(types))
        ck, ca = l.ctor(typ)
        nk = len(l.kids[typ])
        def kid(i):
            if depth <= 0 or not ch.bool(0.75): return None
            return self.tree(l.types if self.ill and ch.bool(self.ill) else l.slot[typ, i], depth - 1)
        kids = [kid(i) for i in ck]
        vals = [self.value(l.attrs[typ][i], here=False) for i in ca]
        sets = []
        for i in range(nk):
            if i not in ck:
                k = kid(i)
                if k is not None: sets.append([i, ch.below(2), k])
        for i, a in enumerate(l.attrs[typ]):
            if ch.bool(0.3 if i in ca else 0.5): sets.append([nk + i, ch.below(len(l.routes[typ, i])), self.value(a)])
        return [typ, kids, vals, sets]

    def newtree(self, types=None):
        self.budget = self.ch.weighted([(3, 4), (4, 12), (2, self.size)])
        l = self.l
        if types is None:
            a, b = self.ch.pick(l.types), self.ch.pick(l.types)
            types = [a if len(l.sem.below(a)) >= len(l.sem.below(b)) else b]
        return self.tree(types, self.ch.weighted([(2, 2), (4, 4), (2, 10)]))

    def micro(self, t, n):
        ch, l = self.ch, self.l
        w = dict(self.micro_w)
        if not l.kids[n]:
            for k in "todskx": w[k] = 0
        if not l.data[t]: w["v"] = w["u"] = 0
        if not l.attrs[n]: w["w"] = 0
        out = []
        for _ in range(ch.int(1, 5)):
            k = ch.weighted([(x, y) for y, x in w.items() if x])
            if k in "todkx": out.append([k, ch.below(len(l.kids[n]))])
            elif k == "s": out.append([k, ch.below(len(l.kids[n])), ch.pick(l.travs)])
            elif k == "S": out.append([k, ch.pick(l.travs)])
            elif k == "w":
                i = ch.below(len(l.attrs[n])); out.append([k, i, self.literal(l.attrs[n][i])])
            elif k == "u":
                i = ch.below(len(l.data[t])); out.append([k, i, self.literal(l.data[t][i])])
            elif k == "R":
                self.budget = 3
                out.append([k, self.tree_lit(ch.pick(self.subst[n]))])
            else: out.append([k])
            if k in "RKn": break
        return out

    def literal(self, a):
        """A value that does not depend on the registers."""
        if self.l.vk(a) == "link": return self.ch.pick([None, "@"])
        return self.value(a)

    def tree_lit(self, typ):
        keep, self.m.R = self.m.R, [None] * len(self.m.R)
        t = self.tree([typ], 1)
        self.m.R = keep
        return t

    def datasets(self, t):
        out = []
        for _ in range(self.ch.size(0, 3)):
            i = self.ch.below(len(self.l.data[t]))
            v = self.value(self.l.data[t][i], here=False) if self.l.vk(self.l.data[t][i]) != "link" else None
            out.append([i, v])
        return out

    def behaviours(self):
        l, ch = self.l, self.ch
        for t in l.travs:
            for n in l.types:
                if l.walks[t][n] == "user" and ch.bool(0.55): self.emit(["B", t, n, self.micro(t, n)])
            if l.data[t]:
                if ch.bool(0.6): self.emit(["I", t, self.datasets(t)])
                if ch.bool(0.3): self.emit(["J", t, self.datasets(t)])

    def script(self, nops):
        ch, l, m = self.ch, self.l, self.m
        if self.ops.get("T"): self.behaviours()
        self.emit(["G", 0, self.newtree()])
        for _ in range(nops):
            full = [i for i, r in enumerate(m.R) if r is not None]
            empty = [i for i, r in enumerate(m.R) if r is None]
            w = dict(self.ops)
            if not full:
                for k in "WEPCFTD": w[k] = 0
            if not empty: w["G"] = w["C"] = 0
            k = ch.weighted([(y, x) for x, y in w.items() if y] or [(1, "L")])
            if k == "G": self.emit(["G", ch.pick(empty), self.newtree()])
            elif k == "W":
                p = self.path(ch.pick(full))
                n = m.at(p)
                if not l.attrs[n.typ]: continue
                f = ch.below(len(l.attrs[n.typ]))
                a = l.attrs[n.typ][f]
                self.emit(["W", p, f, ch.below(len(l.routes[n.typ, f])), self.value(a), l.vk(a)])
            elif k == "E":
                wh = ch.below(5)
                self.emit(["E", self.path(ch.pick(full)), wh, ch.pick([None] + TEXTS) if wh == 4 else ch.pick([0, 1, 77, 2**31 - 1])])
            elif k == "P":
                p = self.path(ch.pick(full))
                n = m.at(p)
                if not n.ch: continue
                i = ch.below(len(n.ch))
                ok = [j for j, r in enumerate(m.R) if j != p[0] and (r is None or r.typ in l.slot[n.typ, i])]
                if not ok: continue
                self.emit(["P", ch.pick(ok), p + [i]])
            elif k == "D": self.emit(["D", ch.pick(full)])
            elif k == "C":
                p = self.path(ch.pick(full))
                self.emit(["C", ch.pick(empty), p])
                self.emit(["D", p[0]]); self.emit(["D", self.out[-2][1]])
            elif k == "F":
                r = ch.pick(full)
                if ch.bool(0.5): self.emit(["D", r])
                self.emit(["F", r]); self.emit(["L"])
            elif k == "T":
                r = ch.pick(full) if ch.bool(0.95) or not empty else ch.pick(empty)
                self.emit(["T", r, ch.pick(l.travs)])
                if m.R[r] is not None: self.emit(["D", r])
            elif k == "L": self.emit(["L"])
        for i, r in enumerate(m.R):
            if r is not None: self.emit(["D", i])
        self.emit(["L"])
        self.emit(["Z"])
        return self.out

class TreeCheck(Check):
    """Specification and scripts; the compiled program must print what the model prints."""
    profile = {}
    ops, micro, scripts, nops, asan = OPS, MICRO, (3, 6), (3, 12), False
    text_notation = False

    def prepare(self):
        return cprog.prepare(plain=not self.asan, asan=self.asan)

    def gen(self, ch):
        spec = Gen(ch, **self.profile).all()
        lay = Lay(spec)
        out = []
        for _ in range(ch.int(*self.scripts)):
            out.append(ScriptGen(ch, lay, self.ops, self.micro).script(ch.int(*self.nops)))
        return {"spec": spec, "scripts": out}

    def interesting(self, spec, lay, m):
        return True

    def run(self, case, env):
        spec = case["spec"]
        lay = Lay(spec)
        p = cprog.Project(env)
        text = render(spec)
        p.accept(text)
        c = p.write("prog.c", program(lay))
        p.must_compile([c], asan=self.asan)
        good, cl = 0, set()
        for sc in case["scripts"]:
            m = Machine(lay)
            want = m.run(sc)
            if m.unclear:
                cl.add("unclear")
                continue
            r = p.run(stdin=enc(lay, sc))
            compare(m, r, text)
            if m.status == 0 and r.err.strip(): raise Violation("stderr of a clean run: %s\n%s" % (r.err[:500], text))
            if self.interesting(spec, lay, m): good += 1
            cl.update(m.stats)
        return Result(good > 0, cl, len(case["scripts"]), {"spec": text[:2500], "script": enc(lay, case["scripts"][0])[:800]})

    def show(self, case):
        lay = Lay(case["spec"])
        return render(case["spec"]) + "\n" + "\n".join(enc(lay, s) for s in case["scripts"])
