import copy
from ..ag import AgGen, AgLay, Eval, load, program, circular, ordered, Limit
from .. import cprog
from ..engine import Check, Result, Violation
from ..sem import low
from ..spec import render
from .c14 import judge

def ref(o, lay, n, r):
    """Original spelling of an attribute occurrence of node n."""
    a = lay.attr(n, r)
    return [None if r[0] is None else lay.kids[n][lay.kid(n, r[0])]["name"], a["name"]]

def occurrences(lay, n):
    out = [(None, a) for a in lay.attrs[n]]
    for k in lay.kids[n]: out += [(low(k["name"]), a) for a in lay.of_type(k["type"])]
    return [((c, low(a["name"])), a) for c, a in out]

def computed(a): return bool(a.get("inh") or a.get("syn"))

class Edits:
    """Each method changes the specification and returns what is wrong with it, or None if it does not apply."""
    def __init__(self, g): self.g, self.ch, self.s = g, g.ch, g.spec
    def nodes(self): return [n for n in self.s["nodes"] if n["eqs"]]
    def eq(self):
        ns = self.nodes()
        if not ns: return None, None
        n = self.ch.pick(ns)
        return n, self.ch.pick(n["eqs"])
    def missing(self):
        n, e = self.eq()
        if not n: return None
        n["eqs"].remove(e)
        return "no equation for an attribute"
    def duplicate(self):
        n, e = self.eq()
        if not n: return None
        d = copy.deepcopy(e)
        if self.ch.bool(): d["args"] = []
        n["eqs"].insert(self.ch.below(len(n["eqs"]) + 1), d)
        return "two equations for an attribute"
    def position(self):
        """Equation for an attribute that is not defined by this node."""
        lay, opts = AgLay(self.s), []
        for n in self.s["nodes"]:
            for r, a in occurrences(lay, low(n["name"])):
                if (a.get("syn") if r[0] is not None else not a.get("syn")) or not computed(a): opts.append((n, r))
        if not opts: return None
        n, r = self.ch.pick(opts)
        n["eqs"].insert(self.ch.below(len(n["eqs"]) + 1), {"t": ref(None, lay, low(n["name"]), r), "args": []})
        return "an equation for an attribute that is not an own synthesized or an inherited one of a child"
    def bad_ref(self, n):
        """A reference to an attribute that does not exist in node n."""
        lay, ch = AgLay(self.s), self.ch
        have = {r for r, _ in occurrences(lay, low(n["name"]))}
        names = sorted({a["name"] for x in self.s["nodes"] + self.s["nodesets"] for a in x["attrs"]}) + ["nowhere"]
        kids = [None] + [k["name"] for k in n["children"]] + ["nobody"] + [k["name"] for x in self.s["nodes"] for k in x["children"]] + [x["name"] for x in self.s["nodes"]]
        for _ in range(20):
            r = [ch.pick(kids), ch.pick(names)]
            if (low(r[0]) if r[0] else None, low(r[1])) not in have: return r
        return [None, "nowhere"]
    def target(self):
        n = self.ch.pick(self.s["nodes"])
        n["eqs"].insert(self.ch.below(len(n["eqs"]) + 1), {"t": self.bad_ref(n), "args": []})
        return "an equation for an attribute that does not exist"
    def argument(self):
        n, e = self.eq()
        if not n: return None
        e["args"].insert(self.ch.below(len(e["args"]) + 1), self.bad_ref(n))
        return "an argument that does not exist"
    def twice(self):
        n, e = self.eq()
        if not n or not e["args"]: return None
        e["args"].insert(self.ch.below(len(e["args"]) + 1), list(self.ch.pick(e["args"])))
        return "an argument twice"
    def defines(self, typ, name):
        """Gives every child of exactly this node type an equation for a new inherited attribute."""
        for n in self.s["nodes"]:
            for k in n["children"]:
                if low(k["type"]) == low(typ): n["eqs"].append({"t": [k["name"], name], "args": []})
    def rootinh(self):
        n = next(x for x in self.s["nodes"] if x["root"])
        n["attrs"].append({"t": ["prim", "int"], "name": "zz1", "inh": True, "lts": []})
        self.defines(n["name"], "zz1")
        return "an inherited attribute of the root"
    def extrainh(self):
        lay, sem = AgLay(self.s), AgLay(self.s).sem
        used = {low(c["type"]) for n in self.s["nodes"] for c in n["children"]}
        opts = []
        for x in self.s["nodesets"]:
            if low(x["name"]) in used or any(a.get("inh") for a in sem.nodeset_attrs(low(x["name"]))):
                opts += [m for m in sorted(sem.members(x["expr"])) if m != sem.root]
        if not opts: return None
        n = sem.node[self.ch.pick(opts)]
        n["attrs"].append({"t": ["prim", "int"], "name": "zz1", "inh": True, "lts": []})
        self.defines(n["name"], "zz1")
        return "a member with an inherited attribute that its nodeset lacks"
    def both(self):
        opts = [a for x in self.s["nodes"] for a in x["attrs"] if computed(a)]
        if not opts: return None
        a = self.ch.pick(opts)
        a["cons"] = True
        return "a computed attribute in the constructor"

    def lifetime(self):
        opts = [a for x in self.s["nodes"] + self.s["nodesets"] for a in x["attrs"] if computed(a) and a["t"] == ["prim", "string"]]
        if not opts: return None
        k = self.ch.pick(["mandatory", "disallowed", "optional", "allowed"])
        self.ch.pick(opts)["lts"].append({"kind": k, "begin": None, "end": None, "long": k in ("optional", "allowed") or self.ch.bool()})
        return "a computed attribute with a lifetime"
    def again(self):
        """A computed attribute of a nodeset declared again, in a member or in a nodeset that includes it."""
        sem = AgLay(self.s).sem
        opts = []
        for x in self.s["nodesets"]:
            for a in x["attrs"]:
                if not computed(a): continue
                opts += [(a, sem.node[m]) for m in sorted(sem.members(x["expr"]))] + [(a, y) for y in self.s["nodesets"] if low(x["name"]) in sem.refs(y["expr"])]
        if not opts: return None
        a, h = self.ch.pick(opts)
        d = {k: v for k, v in a.items()}
        d["lts"], d["cons"] = [], False
        k = self.ch.below(3)
        if k == 1:
            for f in ("inh", "syn"): d.pop(f, None)
            d["cons"] = h in self.s["nodes"] and self.ch.bool()
        if k == 2:
            f = "inh" if a.get("inh") else "syn"
            d.pop(f); d["syn" if f == "inh" else "inh"] = True
        h["attrs"].insert(self.ch.below(len(h["attrs"]) + 1), d)
        return "a computed attribute of a nodeset declared again in %s" % h["name"]

    # ---- edits whose effect the reference decides
    def edge(self):
        """A new argument, often against the order in which the grammar was made."""
        lay, opts = AgLay(self.s), []
        for n in self.nodes():
            ln = low(n["name"])
            for e in n["eqs"]:
                t = (low(e["t"][0]) if e["t"][0] else None, low(e["t"][1]))
                have = {(low(a[0]) if a[0] else None, low(a[1])) for a in e["args"]}
                for r, a in occurrences(lay, ln):
                    if computed(a) and r not in have and len(lay.optional(ln, [((low(x[0]) if x[0] else None), low(x[1])) for x in e["args"]] + [r])) <= 3:
                        opts.append((ln, e, r))
        if not opts: return False
        n, e, r = self.ch.pick(opts)
        e["args"].insert(self.ch.below(len(e["args"]) + 1), ref(None, lay, n, r))
        return True

KINDS = [(3, "none"), (14, "edge"), (2, "missing"), (1, "duplicate"), (2, "position"), (2, "target"), (2, "argument"), (1, "twice"), (1, "rootinh"),
         (2, "extrainh"), (1, "both"), (3, "lifetime"), (2, "again")]

class C15(Check):
    id = "C15"
    quick, thorough = 1200, 24000
    rule = ("a case is an attribute grammar that can be evaluated in a fixed order by construction, or one changed by a single rule-breaking edit or by one to "
            "four new arguments against that order, which Knuth's circularity test over all trees judges; it is non-trivial if the grammar was changed, "
            "or has at least six equations")
    assumptions = ["a grammar that is not circular but has no such order may be rejected; if it is accepted its evaluation is compared on three trees"]
    def prepare(self): return cprog.prepare()

    def gen(self, ch):
        kind = ch.weighted(KINDS)
        g = AgGen(ch, **(dict(args=3, visits=2) if kind == "edge" and ch.bool() else {}))
        spec = g.all()
        trees, bad = g.trees(3), None
        if kind == "edge":
            e = Edits(g)
            n = ch.size(1, 4)
            k = sum(e.edge() for _ in range(n))
            if not k: kind = "none"
        elif kind != "none":
            bad = getattr(Edits(g), kind)()
            if bad is None: kind = "none"
        return {"spec": spec, "notation": ch.below(1 << 20), "trees": trees, "kind": kind, "bad": bad}

    def run(self, case, env):
        text = self.show(case)
        kind = case["kind"]
        p = cprog.Project(env)
        cl = {kind}
        if case["bad"]:
            cprog.must_reject(p.generate(text), text, case["bad"])
            return Result(True, cl, 1, {"spec": text[:2500], "rejected": case["bad"]})
        lay = AgLay(case["spec"])
        size = len(lay.eqs)
        if kind == "none":
            p.accept(text)
            return Result(size >= 6, cl, 1, {"spec": text[:2500], "accepted": True})
        try: c = circular(lay)
        except Limit: return Result(False, {"too many dependency graphs"}, 0)
        r = p.generate(text)
        if c is not None:
            cl.add("circular")
            direct = any(t in a for (n, t), a in lay.eqs.items())
            if not direct: cl.add("circular through several equations")
            cprog.must_reject(r, text, "circular attributes (in a tree below node %s)" % c)
            return Result(True, cl, 1, {"spec": text[:2500], "rejected": "circular"})
        if ordered(lay):
            p.accepted(r, text)
            cl.add("ordered after changes")
        if r.rc != 0:
            cprog.must_reject(r, text, "no order of evaluation")
            return Result(False, {"not circular, rejected"}, 1)
        cl.add("not circular, evaluated")
        exp = []
        for t in case["trees"]:
            ev, out = Eval(lay), []
            ev.whole(load(lay, t), out)
            exp.append((ev, out))
        p.must_compile([p.write("prog.c", program(lay, case["trees"]))], what="program (%s)" % text)
        for i, (ev, out) in enumerate(exp): judge(ev, out, p.run([str(i), "0"]), 1, text, case["trees"][i])
        return Result(size >= 6, cl, 1 + len(exp), {"spec": text[:2500], "accepted and evaluated": True})

    def show(self, case):
        return render(case["spec"], case["notation"], ("order", "short", "case"))

check = C15()
