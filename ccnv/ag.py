"""Attribute grammars: a generator of grammars that are evaluable in ordered visits by construction, a
demand-driven reference evaluator, Knuth's circularity test over all trees, and the program under test."""
import copy
from .sem import Sem, low, up
from .gen import ALIKE, FIELDS, Gen
from .tree import CT
from .spec import PRIMS, USER_TYPES, empty

M32 = 0xffffffff
TYPES = ["int", "int64", "uint8", "bool", "double", "string", "enum", "uint32", "int16", "int8", "uint16", "uint64", "float", "int32"]

def mandatory(c): return any(l["kind"] == "mandatory" and not l["begin"] and not l["end"] for l in c["lts"])

class AgLay:
    def __init__(self, spec):
        self.spec = spec
        s = self.sem = Sem(spec)
        self.types = list(s.order)
        self.kids = {n: s.children(n) for n in self.types}
        self.attrs = {n: s.attrs(n) for n in self.types}
        self.eqs = {}
        self.eqid = {}
        for n in self.types:
            for e in s.node[n]["eqs"]:
                t = (low(e["t"][0]) if e["t"][0] else None, low(e["t"][1]))
                args = [(low(a[0]) if a[0] else None, low(a[1])) for a in e["args"]]
                self.eqs[n, t] = args
                self.eqid[n, t] = len(self.eqid) + 1
        self.slot = {(n, i): s.typ(c["type"]) for n in self.types for i, c in enumerate(self.kids[n])}
    def kid(self, n, name):
        return next(i for i, c in enumerate(self.kids[n]) if low(c["name"]) == name)
    def of_type(self, t):
        t = low(t)
        return self.sem.attrs(t) if t in self.sem.node else self.sem.nodeset_attrs(t)
    def attr(self, n, ref):
        if ref[0] is None: return next(a for a in self.attrs[n] if low(a["name"]) == ref[1])
        return next(a for a in self.of_type(self.kids[n][self.kid(n, ref[0])]["type"]) if low(a["name"]) == ref[1])
    def vk(self, a):
        return a["t"][1] if a["t"][0] == "prim" else "enum"
    def ctype(self, a):
        return CT[a["t"][1]] if a["t"][0] == "prim" else "enum " + self.sem.enum[low(a["t"][1])]["name"]
    def optional(self, n, args):
        """Optional children among the arguments, in order of first appearance."""
        out = []
        for c, _ in args:
            if c is not None and c not in out and not mandatory(self.kids[n][self.kid(n, c)]): out.append(c)
        return out

    # ---- rules on inherited attributes of members of nodesets
    def extra_inherited(self):
        used = {low(c["type"]) for n in self.types for c in self.kids[n]}
        for k in self.sem.nodeset:
            a = self.sem.nodeset_attrs(k)
            names = {low(x["name"]) for x in a}
            if k in used or any(x.get("inh") for x in a):
                for m in self.sem.typ(k):
                    if any(x.get("inh") and low(x["name"]) not in names for x in self.attrs[m]): return True
        return False

    def productive(self):
        p = set()
        while True:
            q = {n for n in self.types if all(not mandatory(c) or self.slot[n, i] & p for i, c in enumerate(self.kids[n]))}
            if q == p: return p
            p = q

# ---------------------------------------------------------------- hashing, as in the program
def hval(k, v):
    if k == "string":
        h = 7
        for c in (v or "\1nil"): h = (h * 16777619 ^ ord(c)) & M32
        return h
    if k in ("double", "float"): return int(v) & M32
    if k == "uint64" and int(v) >> 63: v = int(v) - 2**64
    return (int(v) ^ int(v) >> 32) & M32
def mix(h, x): return (h * 16777619 + (x ^ x >> 15) + 0x9e3779b9) & M32
def fin(h):
    h ^= h >> 16; h = h * 0x7feb352d & M32; h ^= h >> 15
    return h
def from_hash(k, h, nval=0):
    if k == "string": return "s%08x" % h
    if k in ("int", "int32"): return h - (1 << 32) if h >> 31 else h
    if k == "uint64": return (h * 0x100000001b3) & (2**64 - 1)
    if k == "int8": return (h & 0xff) - (0x100 if h & 0x80 else 0)
    if k == "uint16": return h & 0xffff
    if k == "float": return float(h & 0xffffff)
    if k == "int64":
        x = (h * 0x100000001b3) & (2**64 - 1)
        return x - 2**64 if x >> 63 else x
    if k == "uint8": return h & 255
    if k == "int16": return (h & 0xffff) - (0x10000 if h & 0x8000 else 0)
    if k == "bool": return h & 1
    if k == "double": return float(h)
    if k == "enum": return h % nval
    return h

class Tree:
    __slots__ = ("typ", "ch", "vals", "parent", "slot", "memo", "hash")
    def __init__(self, typ): self.typ, self.ch, self.vals, self.parent, self.slot, self.memo, self.hash = typ, [], {}, None, None, {}, {}

def load(lay, t, parent=None, slot=None):
    if t is None: return None
    n = Tree(t[0])
    n.parent, n.slot = parent, slot
    n.vals = dict(t[2])
    n.ch = [load(lay, c, n, i) for i, c in enumerate(t[1])]
    return n

class Eval:
    """Demand-driven evaluation."""
    def __init__(self, lay): self.l, self.must, self.may = lay, set(), set()
    def nval(self, a): return len(self.l.sem.enum[low(a["t"][1])]["values"]) + 1 if a["t"][0] == "ref" else 0
    def apply(self, n, tgt, a):
        l = self.l
        args = l.eqs[n.typ, tgt]
        opt = l.optional(n.typ, args)
        h = mix(l.eqid[n.typ, tgt], 0)
        for i, c in enumerate(opt):
            if n.ch[l.kid(n.typ, c)] is None: h = mix(h, i + 1000)
        for c, x in args:
            m = n if c is None else n.ch[l.kid(n.typ, c)]
            if m is None: continue
            b = next(q for q in l.attrs[m.typ] if low(q["name"]) == x)
            h = mix(h, hval(l.vk(b), self.get(m, b)))
        return fin(h)
    def get(self, n, a):
        l, k = self.l, low(a["name"])
        if not a.get("inh") and not a.get("syn"): return n.vals[k]
        if k not in n.memo:
            n.memo[k] = "pending"
            if a.get("syn"): h = self.apply(n, (None, k), a)
            else: h = self.apply(n.parent, (low(l.kids[n.parent.typ][n.slot]["name"]), k), a)
            self.must.add(h)
            n.hash[k] = h
            n.memo[k] = from_hash(l.vk(a), h, self.nval(a))
        elif n.memo[k] == "pending": raise RecursionError("circular")
        return n.memo[k]
    def whole(self, n, out):
        l = self.l
        vals = [(a, self.get(n, a)) for a in l.attrs[n.typ]]
        out.append("%d%s" % (l.types.index(n.typ), "".join(" " + show(l.vk(a), v) for a, v in vals)))
        for i, c in enumerate(n.ch):
            if c is None:
                for a in l.of_type(l.kids[n.typ][i]["type"]):
                    if a.get("inh"): self.may.add(self.apply(n, (low(l.kids[n.typ][i]["name"]), low(a["name"])), a))
            else: self.whole(c, out)

def show(k, v):
    if k == "string": return "-" if v is None else v
    if k in ("double", "float"): return "%.17g" % v
    return "%d" % v

# ---------------------------------------------------------------- circularity over all trees
class Limit(Exception): pass

def circular(lay, limit=4000):
    """A production whose attributes depend on themselves in some tree, or None. Knuth's test: the set of
    dependency graphs (from inherited to synthesized attributes) that trees of each type can induce."""
    prod = lay.productive()
    ios = {n: set() for n in lay.types}        # type -> set of frozenset((inh, syn))
    reach_circ = {}
    work = 0
    changed = True
    circ = set()
    seen = set()
    while changed:
        changed = False
        for n in lay.types:
            if n not in prod: continue
            kids = lay.kids[n]
            choices = []
            for i, c in enumerate(kids):
                o = set()
                for t in lay.slot[n, i]:
                    for g in ios[t]: o.add(g)
                o = [("g", g) for g in sorted(o, key=sorted)]
                if not mandatory(c): o.append(None)
                choices.append(o)
            def combos(i, cur):
                if i == len(choices): yield list(cur); return
                for o in choices[i]:
                    cur.append(o)
                    yield from combos(i + 1, cur)
                    cur.pop()
            for cb in combos(0, []):
                key = (n, tuple(cb))
                if key in seen: continue
                seen.add(key)
                work += 1
                if work > limit: raise Limit()
                g = {}
                def edge(a, b): g.setdefault(a, set()).add(b)
                for (m, t), args in lay.eqs.items():
                    if m != n or (t[0] is not None and cb[lay.kid(n, t[0])] is None): continue
                    for a in args:
                        if a[0] is not None and cb[lay.kid(n, a[0])] is None: continue
                        edge(a, t)
                for i, o in enumerate(cb):
                    if o is not None:
                        for x, y in o[1]: edge((low(kids[i]["name"]), x), (low(kids[i]["name"]), y))
                clo = closure(g)
                if any(a in clo.get(a, ()) for a in clo): circ.add(n)
                own = frozenset((a[1], b[1]) for a in clo if a[0] is None for b in clo[a] if b[0] is None and
                                lay.attr(n, a).get("inh") and lay.attr(n, b).get("syn"))
                if own not in ios[n]:
                    ios[n].add(own); changed = True
    # only productions that occur in a tree under the root
    reach, todo = set(), [lay.sem.root]
    while todo:
        n = todo.pop()
        if n in reach or n not in prod: continue
        reach.add(n)
        for i in range(len(lay.kids[n])): todo += list(lay.slot[n, i])
    c = sorted(circ & reach)
    return c[0] if c else None

def closure(g):
    out = {}
    for a in g:
        seen, st = set(), list(g[a])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            st += list(g.get(x, ()))
        out[a] = seen
    return out

# ---------------------------------------------------------------- ordered grammars (Kastens), nodesets included
def induced(lay):
    """({type: {attribute: inh or syn}}, productions, {type: dependencies between its attributes}), or None if there is a cycle.
    A production is (type, occurrences {child or None or "m": type}, direct dependencies, all dependencies). The dependencies
    of a type are those that any production induces. A nodeset has one production per member, whose attributes of the same name
    are the same."""
    sem = lay.sem
    comp = {t: {low(a["name"]): ("inh" if a.get("inh") else "syn") for a in lay.of_type(t) if a.get("inh") or a.get("syn")}
            for t in list(lay.types) + list(sem.nodeset)}
    prods = []                                   # ({occurrence: type}, edges)
    for n in lay.types:
        occ = {None: n}
        occ.update({low(k["name"]): low(k["type"]) for k in lay.kids[n]})
        e = {(a, t) for (m, t), args in lay.eqs.items() if m == n for a in args if a[1] in comp[occ[a[0]]]}
        prods.append((n, occ, set(e), e))
    for x in sem.nodeset:
        for m in sem.typ(x):
            e = {((None, a), ("m", a)) if k == "inh" else (("m", a), (None, a)) for a, k in comp[x].items()}
            prods.append((x, {None: x, "m": m}, set(e), e))
    ids = {t: set() for t in comp}
    while True:
        grown = False
        for _, occ, _, edges in prods:
            for o, t in occ.items(): edges |= {((o, a), (o, b)) for a, b in ids[t]}
            edges |= trans(edges)
            if any(a == b for a, b in edges): return None
            for (o, a), (q, b) in edges:
                if o == q and (a, b) not in ids[occ[o]]: ids[occ[o]].add((a, b)); grown = True
        if not grown: return comp, prods, ids

def trans(edges):
    g = {}
    for a, b in edges: g.setdefault(a, set()).add(b)
    return {(a, b) for a, bs in closure(g).items() for b in bs}

def ordered(lay):
    """Whether every visit order follows from the dependencies alone: the attributes of each type get the earliest visit
    that the dependencies between them (induced by all productions) allow, and with these visits no production has a cycle."""
    found = induced(lay)
    if not found: return False
    comp, prods, ids = found
    part = {}
    for t in comp:
        p = part[t] = {}
        while len(p) < len(comp[t]):
            for a, k in comp[t].items():
                deps = [x for x, y in ids[t] if y == a]
                if a in p or any(x not in p for x in deps): continue
                p[a] = max([0 if k == "inh" else 1] + [p[x] + (comp[t][x] != k) for x in deps])
    def after(t): return {(a, b) for a in comp[t] for b in comp[t] if part[t][a] < part[t][b]}
    for _, occ, _, edges in prods:
        if "m" in occ:                            # the order of the nodeset determines when the member is visited
            x, m = occ[None], occ["m"]
            edges = edges | {((None, a), (None, b)) for a, b in after(x)} | {(("m", a), ("m", b)) for a, b in after(m)}
        else:
            edges = edges | {((o, a), (o, b)) for o, t in occ.items() for a, b in after(t)}
        if any(a == b for a, b in trans(edges)): return False
    return True

# ---------------------------------------------------------------- generation
class AgGen(Gen):
    PROF = dict(nodes=(2, 5), children=3, attrs=3, enums=(0, 1), nodesets=(0, 3), nsattrs=0.8, passes=(1, 1), travs=(0, 0), phases=(0, 0),
                gates=False, cycles=False, visits=3, args=4, mand=0.35, classic=0.25, order=True, wide=False, deep=0.08, ladder=0.1, big=0.06, lifetimes=0.15)
    def __init__(self, ch, **prof):
        p = dict(AgGen.PROF); p.update(prof)
        super().__init__(ch, **p)
        if self.big: self.p["visits"] = ch.int(p["visits"], 6)

    def lifetimes(self):
        """Lifetimes of children, which leave it as it was whether evaluation finds them."""
        ch, pr = self.ch, self.p["lifetimes"]
        if not ch.bool(0.3): return
        acts = [a for a in Sem(self.spec).tree().walk() if a.parent is not None]
        for n in self.spec["nodes"]:
            for c in n["children"]:
                for _ in range(ch.int(1, 2) if ch.bool(pr * 2) else 0):
                    l = self.lifetime(["disallowed", "allowed", "mandatory", "mandatory", "optional"], acts)
                    if mandatory(c) or l["begin"] or l["end"] or l["kind"] != "mandatory": c["lts"].insert(ch.below(len(c["lts"]) + 1), l)

    def atype(self):
        ch = self.ch
        if self.p["wide"] and ch.bool(0.4):             # types the evaluator does not know
            k = ch.below(4)
            if k == 0: return ["user", ch.pick(sorted(USER_TYPES))]
            if k == 1: return ["ref", ch.pick(self.spec["nodes"] + self.spec["nodesets"])["name"]]
            return ["prim", ch.pick(sorted(PRIMS))]
        t = ch.pick(TYPES)
        if t == "enum": t = "enum" if self.spec["enums"] else "int"
        return ["ref", ch.pick(self.spec["enums"])["name"]] if t == "enum" else ["prim", t]

    def types(self):
        ch, p, s = self.ch, self.p, self.spec
        for _ in range(ch.int(*p["enums"])):
            s["enums"].append({"name": self.name(["kind", "Op"]), "prefix": self.name(["EP", "k"]), "values": ch.sample(["a1", "B2", "c3"], ch.int(1, 3))})
        nn = ch.int(*p["nodes"])
        names = [self.name(["Expr", "Stmt", "fun", "VAR", "decl_"]) for _ in range(nn)]
        for i, n in enumerate(names):
            s["nodes"].append({"name": n, "root": i == 0, "children": [], "attrs": [], "eqs": [], "lts": []})
        for _ in range(ch.int(*p["nodesets"]) if ch.bool(0.7) else 0):
            if ch.bool(0.7): e = ["lit", ch.sample(names, ch.size(1, min(4, nn)))]
            else:
                e = self.expr(names, [x["name"] for x in s["nodesets"]], 2)
                if not Sem(s).members(e): e = ["lit", [ch.pick(names)]]
            s["nodesets"].append({"name": self.name(["Set", "any"]), "expr": e, "attrs": []})
        # children
        tnames = names + [x["name"] for x in s["nodesets"]] * 2
        for n in s["nodes"]:
            f = ch.shuffle(FIELDS if ch.bool(0.7) else ALIKE)
            for _ in range(ch.int(1 if n["root"] else 0, p["children"])):
                t = ch.pick(tnames)
                n["children"].append({"type": t, "name": self.field(f.pop()), "cons": ch.bool(), "lts":
                                      [{"kind": "mandatory", "begin": None, "end": None}] if ch.bool(p["mand"]) else []})
        lay = AgLay(s)
        while True:            # every type has a finite tree
            pr = lay.productive()
            bad = [n for n in lay.types if n not in pr]
            if not bad: break
            for c in lay.kids[bad[0]]: c["lts"] = []
        # attributes
        self.ph = {}
        sem = Sem(s)
        def fits(holder, name):
            """Whether an attribute of that name can be added."""
            for n in s["nodes"]:
                if holder is n or (holder in s["nodesets"] and low(n["name"]) in sem.members(holder["expr"])):
                    if any(low(a["name"]) == name for a in Sem(s).attrs(low(n["name"]))): return False
            # also in the nodesets that get the attributes of this one
            return not (holder in s["nodesets"] and any(low(a["name"]) == name for x in s["nodesets"] for a in x["attrs"]
                                                        if x is holder or low(x["name"]) in sem.refs(holder["expr"]) or low(holder["name"]) in sem.refs(x["expr"])))
        def add(holder, pool, k=0):
            if self.ph and ch.bool(0.35):            # the name of an attribute of another node
                old = ch.pick(sorted(self.ph))
                if fits(holder, old): pool = old
            a = {"t": self.atype(), "name": self.field(pool), "cons": False, "lts": []}
            k = k or ch.weighted([(3, "syn"), (3, "inh"), (2, None)])
            if k: a[k] = True
            elif holder in s["nodes"]: a["cons"] = ch.bool()
            if low(a["name"]) not in self.ph: self.ph[low(a["name"])] = (ch.below(p["visits"]), ch.below(100), low(a["name"]))
            holder["attrs"].append(a)
            if k == "inh" and (self.root_inherits() or AgLay(s).extra_inherited()):
                a.pop("inh"); a["syn"] = True
        for x in s["nodesets"]:
            if sem.ops(x["expr"]) - {"|"} or not ch.bool(p["nsattrs"]): continue
            for _ in range(ch.int(1, 3)): add(x, "n%d" % self.num())
        for n in s["nodes"]:
            if n["root"]: add(n, "v%d" % self.num(), "syn")       # something to evaluate
            for _ in range(ch.int(0, p["attrs"])): add(n, "v%d" % self.num())
        # inherited attributes of nodesets may clash with later extras; checked above for each addition
        self.equations()

    def root_inherits(self):
        s = Sem(self.spec)
        return any(a.get("inh") for a in s.attrs(s.root))

    def production(self, lay, n):
        """Attribute occurrences of a production in an order that respects the visits of every node in it."""
        ch = self.ch
        seqs = []
        for c, attrs in [(None, lay.attrs[n])] + [(low(k["name"]), lay.of_type(k["type"])) for k in lay.kids[n]]:
            q = []
            for v in range(self.p["visits"]):
                for kind in ("inh", "syn"):
                    q += sorted([(c, low(a["name"]), kind) for a in attrs if a.get(kind) and self.ph[low(a["name"])][0] == v],
                                key=lambda x: self.ph[x[1]])
            if q: seqs.append(q)
        out = []
        while seqs:
            q = ch.pick(seqs)
            out.append(q.pop(0))
            if not q: seqs.remove(q)
        return out

    def equations(self):
        ch, s = self.ch, self.spec
        lay = AgLay(s)
        name = {}
        for n in s["nodes"]:
            ln = low(n["name"])
            order = self.production(lay, ln)
            classic = [(None, low(a["name"])) for a in lay.attrs[ln] if not a.get("inh") and not a.get("syn")]
            for k in n["children"]:
                classic += [(low(k["name"]), low(a["name"])) for a in lay.of_type(k["type"]) if not a.get("inh") and not a.get("syn")]
            orig = {(None, low(a["name"])): [None, a["name"]] for a in lay.attrs[ln]}
            for k in n["children"]:
                orig.update({(low(k["name"]), low(a["name"])): [k["name"], a["name"]] for a in lay.of_type(k["type"])})
            eqs = []
            for pos, (c, a, kind) in enumerate(order):
                if (kind == "syn") != (c is None): continue
                pool = [x[:2] for x in order[:pos]]
                args = []
                for _ in range(ch.size(0, self.p["args"]) if not pool else ch.int(0, self.p["args"])):
                    if pool and ch.bool(0.8):
                        r = pool[max(ch.below(len(pool)), ch.below(len(pool)))]
                    elif classic: r = ch.pick(classic)
                    else: continue
                    if r not in args and len(lay.optional(ln, args + [r])) <= 3: args.append(r)
                eqs.append({"t": orig[c, a], "args": [orig[x] for x in args]})
            n["eqs"] = ch.shuffle(eqs)
        self.chain = set()
        if ch.bool(self.p["deep"]): self.stretch(ch.int(1, 14))
        if ch.bool(self.p["ladder"]): self.climb(ch.int(2, 4))
        while not ordered(AgLay(s)):              # about one grammar in a thousand
            e = ch.pick([e for n in s["nodes"] for e in n["eqs"] if e["args"]])
            e["args"].pop(ch.below(len(e["args"])))

    def climb(self, k):
        """A node that takes K visits of its own where the nodeset it is in has one."""
        ch, s = self.ch, self.spec
        def attr(kind): return {"t": self.atype(), "name": self.field("n%d" % self.num()), "cons": False, "lts": [], kind: True}
        inh, out, steps = [attr("inh") for _ in range(k)], attr("syn"), [attr("syn") for _ in range(k - 1)]
        names = [self.name(["Rung", "step_", "LADDER"]) for _ in range(ch.int(1, 3))]
        def own(xs): return [[None, x["name"]] for x in xs]
        for i, x in enumerate(names):
            n = {"name": x, "root": False, "children": [], "attrs": [], "lts": [], "eqs": [{"t": [None, out["name"]], "args": own(ch.sample(inh, ch.int(0, 2)))}]}
            if i == 0:
                n["attrs"] = ch.shuffle(steps)
                for j, a in enumerate(steps): n["eqs"].append({"t": [None, a["name"]], "args": own([inh[j]] + (steps[j - 1:j] if ch.bool(0.3) else []))})
                n["eqs"][0]["args"] = own(ch.sample(inh + steps, ch.int(0, 3)))
            s["nodes"].insert(ch.below(len(s["nodes"]) + 1), n)
        t = self.name(["Stairs", "any"])
        s["nodesets"].append({"name": t, "expr": ["lit", ch.shuffle(names)], "attrs": ch.shuffle(inh + [out])})
        n = ch.pick([x for x in s["nodes"] if x["name"] not in names])
        taken = {low(x["name"]) for x in n["children"] + n["attrs"]} | {low(a["name"]) for a in Sem(s).attrs(low(n["name"]))}
        d, e = [self.field(f) for f in ch.sample([f for f in FIELDS if f not in taken], 2)]
        for f, typ in ch.shuffle([(d, names[0]), (e, t)]):
            n["children"].insert(ch.below(len(n["children"]) + 1), {"type": typ, "name": f, "cons": ch.bool(), "lts":
                                 [{"kind": "mandatory", "begin": None, "end": None}] if ch.bool(0.7) else []})
        for j, a in enumerate(inh):
            n["eqs"].append({"t": [d, a["name"]], "args": [[d, steps[j - 1]["name"]]] if j else []})
            n["eqs"].append({"t": [e, a["name"]], "args": [[d, x["name"]] for x in ch.sample(steps + [out], ch.int(0, 2))]})
        n["eqs"] = ch.shuffle(n["eqs"])
        for q in n["eqs"]:
            if q["t"][0] is None and len(AgLay(s).optional(low(n["name"]), [(a[0] and low(a[0]), low(a[1])) for a in q["args"]])) < 2 and ch.bool(): q["args"].append([e, out["name"]])

    def stretch(self, length):
        """A chain of nodes between a node and one of its children, each of which passes on the attributes of the child's type."""
        ch, s = self.ch, self.spec
        lay, opts = AgLay(s), []
        for n in s["nodes"]:
            for c in n["children"]:
                plain = {low(a["name"]) for a in lay.of_type(c["type"]) if not a.get("inh") and not a.get("syn")}
                if not any(a[0] and low(a[0]) == low(c["name"]) and low(a[1]) in plain for e in n["eqs"] for a in e["args"]): opts.append(c)
        if not opts: return
        c = ch.pick(opts)
        attrs, end, must = [a for a in lay.of_type(c["type"]) if a.get("inh") or a.get("syn")], c["type"], ch.bool()
        names = [self.name(["Mid", "link", "BETWEEN"]) for _ in range(length)]
        self.chain = {low(x) for x in names}
        for x, to in zip(names, names[1:] + [end]):
            f = self.field(ch.pick(FIELDS))
            own = [dict(copy.deepcopy(a), cons=False, lts=[]) for a in attrs]
            s["nodes"].insert(ch.below(len(s["nodes"]) + 1), {"name": x, "root": False, "children": [{"type": to, "name": f, "cons": ch.bool(),
                "lts": [{"kind": "mandatory", "begin": None, "end": None}] if must else []}], "attrs": ch.shuffle(own), "lts": [],
                "eqs": [{"t": [f, a["name"]], "args": [[None, a["name"]]]} if a.get("inh") else {"t": [None, a["name"]], "args": [[f, a["name"]]]} for a in own]})
        c["type"] = names[0]

    def tree(self, lay, typ, depth):
        ch = self.ch
        if typ not in self.chain: depth -= 1
        kids = []
        for i, c in enumerate(lay.kids[typ]):
            opts = sorted(lay.slot[typ, i])
            ok = [t for t in opts if self.h[t] <= depth]
            if not ok and mandatory(c): ok = [min(opts, key=lambda t: self.h[t])]
            if not ok or (not mandatory(c) and ch.bool(0.25)): kids.append(None)
            else: kids.append(self.tree(lay, ch.pick(ok), depth))
        vals = {}
        for a in lay.attrs[typ]:
            if not a.get("inh") and not a.get("syn"):
                k = lay.vk(a)
                self.m = getattr(self, "m", 0) + 1
                x = self.m * 2654435761 & M32
                vals[low(a["name"])] = from_hash(k, fin(x), len(lay.sem.enum[low(a["t"][1])]["values"]) + 1 if k == "enum" else 0)
        return [typ, kids, vals]

    def trees(self, k, depth=4, nodes=60):
        lay = AgLay(self.spec)
        self.h = {}                                 # height of the lowest tree, without the links of the chain
        for _ in range(len(lay.types) + 1):
            for n in lay.types:
                low_ = [min((self.h.get(t, 99) for t in lay.slot[n, i])) for i, c in enumerate(lay.kids[n]) if mandatory(c) and lay.slot[n, i]]
                h = (n not in self.chain) + max(low_, default=0)
                if h < self.h.get(n, 99): self.h[n] = h
        return [self.tree(lay, lay.sem.root, self.ch.int(3, depth)) for _ in range(k)]

# ---------------------------------------------------------------- the program
def columns(l, n):
    """The macros that read a computed attribute of a node: (attribute, macro)."""
    s, out = l.sem, []
    for a in l.attrs[n]:
        if not a.get("inh") and not a.get("syn"): continue
        out.append((a, "%s_%s" % (up(n), up(a["name"]))))
        for k in s.nodeset:
            if n in s.typ(k) and any(low(b["name"]) == low(a["name"]) for b in s.nodeset_attrs(k)): out.append((a, "%s_%s" % (up(k), up(a["name"]))))
    return out

PROBE = r'''
static char *text[1 << 14]; static int ntext;
static void found(int i, int c, const char *v) {
    for (int k = 0; k < ntext; k++) if (!strcmp(text[k], v)) return;
    if (ntext < 1 << 14) text[ntext++] = cs(v);
    printf("P %s\n", v);
}
static void probe(void) {
    char v[256]; signal(SIGABRT, onabort);
    for (int i = 0; i < nreg; i++) for (int c = 0;; c++) {
        int k;
        if (sigsetjmp(back, 1)) continue;
        k = value(reg[i], c, v, i);
        if (k < 0) break;
        found(i, c, v);
    }
    signal(SIGABRT, SIG_DFL);
}
'''
def printed(k, m, to):
    """A statement that prints the value of an expression."""
    return (to % ('%s', '%s ? %s : "-"' % (m, m)) if k == "string" else to % ("%.17g", m) if k in ("double", "float")
            else to % ("%llu", "(unsigned long long)%s" % m) if k == "uint64" else to % ("%lld", "(long long)%s" % m))

def program(l, trees, probe=False, skeleton=False):
    o = ['#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include "ccn/ccn.h"\n'
         '#include "ccn/phase_driver.h"\n#include "ccngen/ast.h"\n#include "ccngen/enum.h"\n#include "ccngen/ag.h"\n#include "ccngen/equation.h"\n'
         '#include "cvctl.h"\n',
         'static uint32_t seen[1 << 20]; static int nseen;\n'
         'static uint32_t mix(uint32_t h, uint32_t x) { return h * 16777619u + (x ^ x >> 15) + 0x9e3779b9u; }\n'
         'static uint32_t fin(uint32_t h) { h ^= h >> 16; h *= 0x7feb352du; h ^= h >> 15; if (nseen < 1 << 20) seen[nseen++] = h; return h; }\n'
         'static uint32_t hi(int64_t v) { return (uint32_t)(v ^ v >> 32); }\n'
         'static uint32_t hs(const char *s) { uint32_t h = 7; for (s = s ? s : "\\1nil"; *s; s++) h = h * 16777619u ^ (unsigned char)*s; return h; }\n'
         'static char *cs(const char *s) { char *p = malloc(strlen(s) + 1); return strcpy(p, s); }\n'
         'static char *str(uint32_t h) { char b[16]; snprintf(b, sizeof b, "s%08x", h); return cs(b); }\n'
         'static int cmp(const void *a, const void *b) { uint32_t x = *(uint32_t *)a, y = *(uint32_t *)b; return x < y ? -1 : x > y; }\n'
         'void BreakpointHandler(node_st *n) { (void)n; }\n']
    w = o.append
    if probe:
        w("#include <signal.h>\n#include <setjmp.h>\nstatic node_st *reg[1 << 12]; static int nreg; static sigjmp_buf back;\n"
          "static void onabort(int s) { (void)s; siglongjmp(back, 1); }\n"
          "static int value(node_st *n, int c, char *v, int i) { switch (NODE_TYPE(n)) {\n")
        for n in l.types:
            w("case NT_%s: switch (c) {\n" % up(n))
            for c, (a, m) in enumerate(columns(l, n)):
                w("case %d: { %s x = %s(n); %s return 0; }\n" % (c, l.ctype(a), m, printed(l.vk(a), "x", 'snprintf(v, 256, "%%d %%d %s", i, c, %s);')))
            w("} return -1;\n")
        w("default: return -1; } }\n" + PROBE)
    for n in l.types:
        for (m, t), args in l.eqs.items():
            if m != n or skeleton: continue
            a = l.attr(n, t)
            opt = l.optional(n, args)
            for mask in range(1 << len(opt)):
                gone = [c for i, c in enumerate(opt) if mask >> i & 1]
                ps = [(c, x) for c, x in args if c not in gone]
                nm = "EVAL%s_%s_%s%s" % (n, t[0] or "this", t[1], "".join("_%s_NULL" % c for c in gone))
                w(("%s %s(%s) { uint32_t h = mix(%du, 0);" + " probe();" * probe + "") % (l.ctype(a), nm, ", ".join("%s a%d" % (l.ctype(l.attr(n, p)), i) for i, p in enumerate(ps)) or "void",
                                                         l.eqid[n, t]))
                for i, c in enumerate(opt):
                    if c in gone: w(" h = mix(h, %d);" % (i + 1000))
                for i, p in enumerate(ps):
                    k = l.vk(l.attr(n, p))
                    w(" h = mix(h, %s);" % ("hs(a%d)" % i if k == "string" else "(uint32_t)a%d" % i if k in ("double", "float") else "hi((int64_t)a%d)" % i))
                k = l.vk(a)
                nv = len(l.sem.enum[low(a["t"][1])]["values"]) + 1 if k == "enum" else 0
                if probe: w(' printf("C %08x\\n", fin(h));')
                w(" h = fin(h); return %s; }\n" % {"string": "str(h)", "int": "(int32_t)h", "int64": "(int64_t)(h * 0x100000001b3ull)", "uint8": "(uint8_t)(h & 255)",
                  "int8": "(int8_t)(h & 0xff)", "uint16": "(uint16_t)h", "uint64": "(uint64_t)(h * 0x100000001b3ull)", "float": "(float)(h & 0xffffff)", "int32": "(int32_t)h",
                  "int16": "(int16_t)(h & 0xffff)", "bool": "(bool)(h & 1)", "double": "(double)h", "enum": "(%s)(h %% %d)" % (l.ctype(a), max(1, nv)), "uint32": "h"}[k])
    w("static void dump(node_st *n) { if (!n) return; switch (NODE_TYPE(n)) {\n")
    for i, n in enumerate(l.types):
        w('case NT_%s: printf("%d");' % (up(n), i))
        for a in l.attrs[n]:
            m, k = "%s_%s(n)" % (up(n), up(a["name"])), l.vk(a)
            w(' printf(" %%s", %s ? %s : "-");' % (m, m) if k == "string" else ' printf(" %%.17g", %s);' % m if k in ("double", "float") else ' printf(" %%llu", (unsigned long long)%s);' % m if k == "uint64" else ' printf(" %%lld", (long long)%s);' % m)
        w(' printf("\\n");')
        for c in l.kids[n]: w(" dump(%s_%s(n));" % (up(n), up(c["name"])))
        w(" break;\n")
    w('default: printf("?\\n"); } }\n')
    # trees
    num = [0]
    def lit(a, v):
        k = l.vk(a)
        if k == "string": return 'cs("%s")' % v
        if k == "enum": return "(%s)%d" % (l.ctype(a), v)
        if k == "int64": return "(int64_t)%dull" % (v & (2**64 - 1))
        if k in ("double", "float"): return "%.17g" % v
        if k == "uint64": return "%dull" % v
        if k in ("int", "int32"): return "(int)%du" % (v & M32)
        return "%d" % v
    def build(t):
        if t is None: return "NULL"
        n = t[0]
        ks = [build(k) for k in t[1]]
        num[0] += 1
        me = "x%d" % num[0]
        node = l.sem.node[n]
        args = [k for k, c in zip(ks, l.kids[n]) if c["cons"]]
        own = [a for a in node["attrs"]]
        args += [lit(a, t[2][low(a["name"])]) for a in own if a.get("cons")]
        w("  node_st *%s = AST%s(%s);" % (me, n, ", ".join(args)))
        for k, c in zip(ks, l.kids[n]):
            if not c["cons"]: w(" %s_%s(%s) = %s;" % (up(n), up(c["name"]), me, k))
        for a in l.attrs[n]:
            if low(a["name"]) in t[2] and not (a.get("cons") and any(a is b for b in own)):
                w(" %s_%s(%s) = %s;" % (up(n), up(a["name"]), me, lit(a, t[2][low(a["name"])])))
        w(" reg[nreg++] = %s;\n" % me if probe else "\n")
        return me
    for i, t in enumerate(trees):
        w("static node_st *tree%d(void) {\n" % i)
        r = build(t)
        w("  return %s;\n}\n" % r)
    for p in l.spec["passes"]: w("node_st *%s(node_st *n) { return n; }\n" % l.sem.pass_func(p))
    w("int main(int argc, char **argv) { node_st *n; switch (atoi(argv[1])) {")
    for i in range(len(trees)): w(" case %d: n = tree%d(); break;" % (i, i))
    w(' default: return 9; }\n int again = atoi(argv[2]);\n do { nseen = 0; CCNevaluateAttributes(n); dump(n); qsort(seen, nseen, 4, cmp);\n'
      ' for (int i = 0; i < nseen; i++) if (!i || seen[i] != seen[i - 1]) printf("E %08x\\n", seen[i]); printf("end\\n"); } while (again--);\n'
      ' CCNfree(n); printf("freed\\n"); return 0; }\n')
    return "".join(o)
