"""Generators of well-formed specifications: every rule is met by construction."""
import copy, itertools
from .spec import PRIMS, USER_TYPES, empty
from .sem import Sem, low

NODEW = ["Expr", "Stmt", "fun", "VAR", "BinOp", "decl_", "Loop", "arg"]
FIELDS = ["left", "right", "next", "body", "kid", "opt_part", "val", "name", "decl", "xs", "info_", "tail", "value", "kids", "nex"]
ALIKE = ["kid", "kids", "ki", "kid2", "kid_x", "val", "value", "left", "lef", "leftmost", "kid_x2", "va"]        # each starts another one
SETW = ["Set", "any", "GRP", "Some_"]
# names that generated or runtime code uses in some other way
SPECIAL = ["cleanup", "Cleanup", "free", "check", "Copy", "data", "error", "opt", "nop", "type", "entry", "table", "List", "file", "line", "ast", "ccn", "trav", "run",
           "size", "ID", "x", "next_", "key", "string_", "true_", "null_", "ptr", "pass_", "main"]
VALW = ["add", "Sub", "MUL", "div", "rem", "x1", "y_2", "last", "none_", "first", "int", "while", "node", "enum", "values", "string", "true", "Null"]

DEFAULT = dict(nodes=(2, 7), children=4, attrs=4, enums=(0, 2), nodesets=(0, 4), nsattrs=0.4, passes=(0, 3), travs=(0, 3),
               phases=(0, 3), prims=list(PRIMS), links=True, user=False, data=True, gates=True, cycles=True, actions=4,
               lifetimes=0.0, uidrefs=0.15, expanded=40, nodecase=True, transets=True, mixedfields=0.15, special=0.06,
               big=0.03)              # chance of a specification several times as large

class Gen:
    def __init__(self, ch, **prof):
        self.ch = ch
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.big = bool(self.p["big"]) and ch.bool(self.p["big"])
        if self.big:
            for k in ("nodes", "enums", "nodesets", "passes", "travs", "phases"):
                lo, hi = self.p[k]
                if hi > 1: self.p[k] = (lo, 2 * hi + ch.int(0, 6))
            for k in ("children", "attrs"):
                if self.p[k] > 1: self.p[k] = ch.int(self.p[k], 9)
            self.p["expanded"] = 90
        self.n = 0
        self.used = set()
        self.spec = empty()

    def num(self):
        self.n += 1
        return self.n

    def name(self, words, special=False):
        if special and self.ch.bool(self.p["special"]):
            w = self.ch.pick(SPECIAL)
            if low(w) not in self.used:
                self.used.add(low(w))
                return w
        return "%s%d" % (self.ch.pick(words), self.num())

    def all(self):
        self.types()
        self.actions()
        if self.p["lifetimes"]:
            self.lifetimes()
        return self.spec

    # ---- types
    def types(self):
        ch, p, s = self.ch, self.p, self.spec
        for _ in range(ch.int(*p["enums"])):
            s["enums"].append({"name": self.name(["kind", "op_t", "Mode", "BIN"]), "prefix": self.name(["EP", "k", "Pr_"]),
                               "values": ch.sample(VALW, ch.int(1, 6))})
        nn = ch.int(*p["nodes"])
        names = [self.name(NODEW, True) for _ in range(nn)]
        root = ch.below(nn)
        for i, n in enumerate(names):
            s["nodes"].append({"name": n, "root": i == root, "children": [], "attrs": [], "eqs": [], "lts": []})
        for _ in range(ch.int(*p["nodesets"])):
            sets = s["nodesets"]
            e = self.expr(names, [x["name"] for x in sets], 2)
            sets.append({"name": self.name(SETW, True), "expr": e, "attrs": []})
            if not Sem(s).members(e):
                sets[-1]["expr"] = ["op", "|", e, ["lit", [ch.pick(names)]]]
        tnames = names + [x["name"] for x in s["nodesets"]]
        for n in s["nodes"]:
            fields = ch.shuffle((FIELDS if ch.bool(0.85) else ALIKE) + (["f_%d" % i for i in range(8)] if self.big else []))
            for _ in range(ch.size(0, p["children"]) if not n["root"] else ch.size(1, p["children"])):
                t = ch.pick(tnames if ch.bool(0.7) or not s["nodesets"] else [x["name"] for x in s["nodesets"]])
                n["children"].append({"type": t, "name": self.field(fields.pop()), "cons": ch.bool(0.6), "lts": []})
            for _ in range(ch.size(0, p["attrs"])):
                n["attrs"].append({"t": self.atype(), "name": self.field(fields.pop()), "cons": ch.bool(0.5), "lts": []})
        self.nodeset_attrs()

    def field(self, f):
        if self.p["mixedfields"] and self.ch.bool(self.p["mixedfields"]):
            return f.capitalize() if self.ch.bool() else f.upper()
        return f

    def atype(self):
        ch, p, s = self.ch, self.p, self.spec
        opts = [(6, "prim")]
        if s["enums"]: opts.append((2, "enum"))
        if p["links"]: opts.append((2, "link"))
        if p["user"]: opts.append((1, "user"))
        k = ch.weighted(opts)
        if k == "prim":
            if "string" in p["prims"] and ch.bool(0.25): return ["prim", "string"]
            return ["prim", ch.pick(p["prims"])]
        if k == "enum": return ["ref", ch.pick(s["enums"])["name"]]
        if k == "user": return ["user", ch.pick(sorted(USER_TYPES))]
        return ["ref", ch.pick(s["nodes"] + s["nodesets"])["name"]]

    def nodeset_attrs(self):
        ch, p, s = self.ch, self.p, self.spec
        if not p["nsattrs"]: return
        sem = Sem(s)
        for x in s["nodesets"]:
            if sem.ops(x["expr"]) - {"|"} or not ch.bool(p["nsattrs"]): continue
            # the nodesets inside it get the attributes as well, so they are unions too (ops is transitive)
            for _ in range(ch.int(1, 2)):
                x["attrs"].append({"t": self.atype(), "name": self.field("sv%d" % self.num()), "lts": []})
                if ch.bool(0.3):
                    m = sorted(sem.members(x["expr"]))
                    n = sem.node[ch.pick(m)]
                    n["attrs"].insert(ch.below(len(n["attrs"]) + 1), dict(x["attrs"][-1], name=self.field(x["attrs"][-1]["name"]), cons=True, lts=[]))

    def expr(self, names, sets, depth):
        ch = self.ch
        k = ch.weighted([(4, "lit"), (3 if sets else 0, "ref"), (4 if depth else 0, "op")])
        if k == "lit": return ["lit", ch.sample(names, ch.size(1, min(4, len(names))))]
        if k == "ref": return ["ref", ch.pick(sets)]
        return ["op", ch.weighted([(5, "|"), (3, "&"), (3, "-")]), self.expr(names, sets, depth - 1), self.expr(names, sets, depth - 1)]

    def target(self, union=False):
        """Traversal target: a non-empty set expression, or None for every node."""
        ch, s = self.ch, self.spec
        if ch.bool(0.3): return None
        names, sets = [n["name"] for n in s["nodes"]], [x["name"] for x in s["nodesets"]]
        e = self.expr(names, sets, 2)
        if not Sem(s).members(e):
            e = ["op", "|", e, ["lit", [ch.pick(names)]]]
        return e

    # ---- actions
    def trav(self, data=None):
        ch, p, s = self.ch, self.p, self.spec
        t = {"name": self.name(["Rename", "check_all", "Opt", "walk"], True), "uid": self.name(["TV", "Tr_", "w"]), "nodes": self.target(), "data": []}
        if (data is None and p["data"] and ch.bool(0.4)) or data:
            for f in ch.sample(FIELDS, ch.int(1, 4)):
                w = self.field(f)
                t["data"].append({"t": self.atype(), "name": w})
        s["travs"].append(t)
        return t

    def pas(self):
        ch, s = self.ch, self.spec
        p = {"name": self.name(["scan", "Parse", "EMIT", "fold_"]), "uid": None, "func": None}
        if ch.bool(0.4): p["uid"] = self.name(["PS", "q", "Pp"])
        if ch.bool(0.4): p["func"] = self.name(["doIt", "run_pass", "F"])
        s["passes"].append(p)
        return p

    def actions(self):
        ch, p, s = self.ch, self.p, self.spec
        for _ in range(ch.int(*p["passes"])): self.pas()
        for _ in range(ch.int(*p["travs"])): self.trav()
        if not s["passes"] and not s["travs"]: self.pas()
        leaves = s["passes"] + s["travs"]
        sizes = {low(x["name"]): 1 for x in leaves}
        np = ch.int(*p["phases"])
        for i in range(np + 1):
            last = i == np
            ph = {"name": self.name(["Stage", "phase_", "LOOP", "Main"], True), "uid": None, "gate": None, "cycle": False, "start": last, "actions": []}
            if ch.bool(0.4): ph["uid"] = self.name(["PH", "s", "Cy_"])
            if p["cycles"] and not last and ch.bool(0.35): ph["cycle"] = True
            if last and p["cycles"] and ch.bool(0.1): ph["cycle"] = True
            if p["gates"] and not ph["cycle"] and ch.bool(0.35):
                ph["gate"] = ch.pick([x["gate"] for x in s["phases"] if x["gate"]]) if ch.bool(0.2) and any(x["gate"] for x in s["phases"]) else self.name(["isOn", "gate_", "G"])
            phases = list(s["phases"])
            for _ in range(ch.int(1, p["actions"])):
                opts = phases if phases and ch.bool(0.45 if not last else 0.6) else leaves
                a = ch.pick(opts)
                if sum(sizes[low(x)] for x in ph["actions"]) + sizes[low(a["name"])] > p["expanded"]: a = ch.pick(leaves)
                ph["actions"].append(a["name"])
            sizes[low(ph["name"])] = 1 + sum(sizes[low(x)] for x in ph["actions"])
            s["phases"].append(ph)
        # some references use the uid
        byname = {low(x["name"]): x for x in leaves + s["phases"]}
        for ph in s["phases"]:
            ph["actions"] = [byname[low(a)]["uid"] if byname[low(a)].get("uid") and p["uidrefs"] and ch.bool(p["uidrefs"]) else a for a in ph["actions"]]

    # ---- lifetimes
    def path(self, acts):
        """A target and how it is written: a dotted path whose every step is inside the previous one."""
        ch = self.ch
        a = ch.pick(acts)
        chain, q = [], a.parent
        while q is not None and q.parent is not None:      # the start phase itself is not named
            chain.append(q); q = q.parent
        chain.reverse()
        names = [c for c in chain if ch.bool(0.35)] + [a]
        return [x.uid if x.uid and ch.bool(0.5) else x.name for x in names]

    def lifetime(self, kinds, acts):
        ch = self.ch
        k = ch.pick(kinds)
        l = {"kind": k, "begin": None, "end": None}
        if ch.bool(0.15) and k in ("disallowed", "mandatory"): return l
        if ch.bool(0.7): l["begin"] = {"path": self.path(acts), "incl": ch.bool()}
        if ch.bool(0.7): l["end"] = {"path": self.path(acts), "incl": ch.bool()}
        l["long"] = True
        return l

    def lifetimes(self):
        ch, p, s = self.ch, self.p, self.spec
        sem = Sem(s)
        acts = [a for a in sem.tree().walk() if a.parent is not None]
        pr = p["lifetimes"]
        full = ["disallowed", "allowed", "mandatory", "optional"]
        for n in s["nodes"]:
            if not n["root"] and ch.bool(pr):
                n["lts"] = [self.lifetime(["disallowed", "allowed"], acts) for _ in range(ch.int(1, 2))]
            for c in n["children"]:
                if ch.bool(pr): c["lts"] = [self.lifetime(full, acts) for _ in range(ch.int(1, 2))]
        for x in s["nodes"] + s["nodesets"]:
            for a in x["attrs"]:
                if low(a["name"]).startswith("sv") and x in s["nodes"]: continue
                if sem.attr_kind(a) in ("string", "link") and ch.bool(pr):
                    a["lts"] = [self.lifetime(full, acts) for _ in range(ch.int(1, 2))]

# ---- names that are made of the same few parts
PARTS = ["a", "b", "c"]
def macro_clash(spec):
    """A field whose macro is also one of another node or nodeset: (owner, field) of the later one, or None."""
    sem, seen = Sem(spec), {}
    for x in spec["nodes"] + spec["nodesets"]:
        k = low(x["name"])
        fs = [c["name"] for c in x["children"]] + [a["name"] for a in sem.attrs(k)] if x in spec["nodes"] else [a["name"] for a in sem.nodeset_attrs(k)]
        for f in fs:
            m = low(x["name"] + "_" + f)
            if m in seen and seen[m] != k: return x["name"], f
            seen[m] = k
    return None

def eval_clash(spec):
    """An equation whose evaluation function is also one of another equation: its attribute, or None."""
    seen = set()
    for n in spec["nodes"]:
        for e in n["eqs"]:
            c, a = e["t"]
            m = low("%s_%s_%s" % (n["name"], c or "this", a))
            if m in seen: return a
            seen.add(m)
    return None

def variable_clash(spec):
    """Two attributes of a node and its children whose variables have the same name: the later one, or None."""
    sem = Sem(spec)
    kinds = {low(x["name"]): sem.attrs if x in spec["nodes"] else sem.nodeset_attrs for x in spec["nodes"] + spec["nodesets"]}
    for n in spec["nodes"]:
        seen = {}
        occ = [(None, a["name"]) for a in sem.attrs(low(n["name"])) if a.get("inh") or a.get("syn")]
        for c in n["children"]:
            if low(c["type"]) in kinds: occ += [(c["name"], a["name"]) for a in kinds[low(c["type"])](low(c["type"])) if a.get("inh") or a.get("syn")]
        occ += [tuple(a) for e in n["eqs"] for a in e["args"]]
        for c, a in occ:
            c = low(c or "this")
            if seen.setdefault(c + "_" + low(a), c) != c: return a
    return None

def rename(spec, types, fields):
    """Renames nodes, nodesets and fields everywhere."""
    t = lambda n: types.get(low(n), n)
    f = lambda n: fields.get(low(n), n)
    def expr(e):
        if e[0] == "lit": return ["lit", [t(n) for n in e[1]]]
        if e[0] == "ref": return ["ref", t(e[1])]
        return ["op", e[1], expr(e[2]), expr(e[3])]
    def ref(r): return [f(r[0]) if r[0] else None, f(r[1])]
    def attr(a):
        a["name"] = f(a["name"])
        if a["t"][0] == "ref": a["t"] = ["ref", t(a["t"][1])]
    for x in spec["nodes"] + spec["nodesets"]:
        x["name"] = t(x["name"])
        for a in x["attrs"]: attr(a)
    for x in spec["nodesets"]: x["expr"] = expr(x["expr"])
    for n in spec["nodes"]:
        for c in n["children"]: c["name"], c["type"] = f(c["name"]), t(c["type"])
        for e in n["eqs"]: e["t"], e["args"] = ref(e["t"]), [ref(a) for a in e["args"]]
    for x in spec["travs"]:
        if x["nodes"]: x["nodes"] = expr(x["nodes"])
        for a in x["data"]:
            if a["t"][0] == "ref": a["t"] = ["ref", t(a["t"][1])]

def crowd(ch, spec):
    """Gives nodes, nodesets and fields names such as a, a_b and b_c, without making two macros or functions the same."""
    pool = ["_".join(p) for k in (1, 2, 3) for p in itertools.product(PARTS, repeat=k)]
    used = {low(x[k]) for kind in ("enums", "passes", "travs", "phases") for x in spec[kind] for k in ("name", "uid") if x.get(k)}
    tn = sorted({low(x["name"]) for x in spec["nodes"] + spec["nodesets"]})
    tm = [n for n in pool + ["readonly_a", "this_b", "a_this", "a_null", "cs"] if n not in used]
    types = dict(zip(tn, ch.sample(tm[:12] if len(tn) < 6 and ch.bool(0.7) else tm, len(tn))))
    fn = sorted({low(f["name"]) for x in spec["nodes"] for f in x["children"]} | {low(a["name"]) for x in spec["nodes"] + spec["nodesets"] for a in x["attrs"]})
    fm = pool + ["%s_children" % n for n in sorted(types.values())[:3]] + ["this_a", "b_this", "a_null", "null_b", "null", "a_children_st"]
    fields = {}
    if len(fn) <= len(fm): fields = dict(zip(fn, ch.sample(fm, len(fn))))
    types = {k: v if ch.bool() else v.upper() for k, v in types.items()}
    while True:
        s = copy.deepcopy(spec)
        rename(s, types, fields)
        m = macro_clash(s)
        bad = m[1] if m else eval_clash(s) or variable_clash(s)
        if bad is None: return s
        k = next((k for k, v in fields.items() if v == low(bad)), None)
        if k is None: return spec
        del fields[k]
