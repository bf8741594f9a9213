import copy
from .. import cprog
from ..engine import Check, Result
from ..gen import Gen
from ..sem import Sem, low, up
from ..spec import render, KEYWORDS, CKEYWORDS

UIDS = ["TRAV", "TRV", "CCN", "PASS", "CPY", "CHK", "DEL", "EVAL"]
PREFIXES = ["NT", "NS", "TRAV", "PASS", "CCN"]
CWORDS = sorted(CKEYWORDS - KEYWORDS)
DSLWORDS = sorted(KEYWORDS)
INT = ["prim", "int"]

class Breaker:
    """One method per rule. Each breaks the rule once, at a random place, and returns what is wrong, or None if the
    specification offers no place."""
    def __init__(self, g):
        self.g, self.ch, self.s = g, g.ch, g.spec
        self.sem = Sem(g.spec)

    # ---- helpers
    def pick(self, xs): return self.ch.pick(list(xs)) if xs else None
    def recase(self, n):
        k = self.ch.below(4)
        out = [n, n.lower(), n.upper(), n.swapcase()][k]
        return n if out in KEYWORDS or out in CKEYWORDS else out
    def new(self): return "zq%d" % self.g.num()
    def actions(self): return self.s["passes"] + self.s["travs"] + self.s["phases"]
    def names(self, kinds=("enums", "nodes", "nodesets", "passes", "travs", "phases")): return [x["name"] for k in kinds for x in self.s[k]]
    def uids(self): return [x["uid"] for x in self.actions() if x.get("uid")]
    def insert(self, xs, x): xs.insert(self.ch.below(len(xs) + 1), x)
    def node(self): return self.pick(self.s["nodes"])
    def attr(self, name, t=INT): return {"t": t, "name": name, "cons": False, "lts": []}
    def child(self, name): return {"type": self.node()["name"], "name": name, "cons": self.ch.bool(), "lts": []}
    def add(self, kind, name, uid=None):
        """A new definition that is well-formed apart from its name or uid."""
        s = self.s
        if kind == "enums": d = {"name": name, "prefix": self.new(), "values": ["q1"]}
        elif kind == "nodes": d = {"name": name, "root": False, "children": [], "attrs": [self.attr("q")], "eqs": [], "lts": []}
        elif kind == "nodesets": d = {"name": name, "expr": ["lit", [self.node()["name"]]], "attrs": []}
        elif kind == "passes": d = {"name": name, "uid": uid, "func": self.new() if self.ch.bool() else None}
        elif kind == "travs": d = {"name": name, "uid": uid or self.new(), "nodes": None, "data": []}
        else: d = {"name": name, "uid": uid, "gate": None, "cycle": self.ch.bool(), "start": False, "actions": [(s["passes"] + s["travs"])[0]["name"]]}
        self.insert(s[kind], d)
        return d
    def exprs(self):
        """(holder, key, expression) of every set expression and, recursively, of its operands."""
        out = []
        def walk(h, k):
            out.append((h, k, h[k]))
            if h[k][0] == "op": walk(h[k], 2); walk(h[k], 3)
        for x in self.s["nodesets"]: walk(x, "expr")
        for t in self.s["travs"]:
            if t["nodes"]: walk(t, "nodes")
        return out
    def lifetimes(self):
        out = []
        for n in self.s["nodes"]:
            out += n["lts"] + [l for c in n["children"] for l in c["lts"]]
        for n in self.s["nodes"] + self.s["nodesets"]: out += [l for a in n["attrs"] for l in a["lts"]]
        return out

    # ---- names
    def same_name(self):
        old = self.pick(self.names())
        self.add(self.ch.pick(["enums", "nodes", "nodesets", "passes", "travs", "phases"]), self.recase(old))
        return "two definitions named %s" % old
    def same_uid(self):
        if not self.uids(): return None
        old = self.pick(self.uids())
        if self.ch.bool(): self.add(self.ch.pick(["passes", "travs", "phases"]), self.new(), self.recase(old))
        else: self.add(self.ch.pick(["enums", "nodes", "nodesets", "passes", "travs", "phases"]), self.recase(old))
        return "the uid %s used twice" % old
    def uid_is_name(self):
        old = self.pick(self.names())
        self.add(self.ch.pick(["passes", "travs", "phases"]), self.new(), self.recase(old))
        return "a uid that is the name %s" % old
    def same_field(self):
        n = self.node()
        have = [x["name"] for x in n["children"] + n["attrs"]]
        if not have: return None
        f = self.recase(self.pick(have))
        if self.ch.bool(): self.insert(n["children"], self.child(f))
        else: self.insert(n["attrs"], self.attr(f, ["prim", self.ch.pick(["int", "string"])]))
        return "the field %s twice" % f
    def nodeset_field(self):
        """A nodeset attribute that has the name of a child or attribute of a member."""
        opts = []
        for x in self.s["nodesets"]:
            if self.sem.ops(x["expr"]) - {"|"}: continue
            for m in sorted(self.sem.members(x["expr"])):
                for c in self.sem.node[m]["children"]: opts.append((x, c["name"]))
        if not opts: return None
        x, f = self.ch.pick(opts)
        self.insert(x["attrs"], self.attr(self.recase(f), ["prim", self.ch.pick(["int", "string"])]))
        return "a nodeset attribute with the name of child %s of a member" % f
    def nodeset_twice(self):
        xs = [x for x in self.s["nodesets"] if x["attrs"]]
        if not xs: return None
        x = self.ch.pick(xs)
        self.insert(x["attrs"], self.attr(self.recase(self.ch.pick(x["attrs"])["name"])))
        return "a nodeset attribute twice"
    def same_travdata(self):
        ts = [t for t in self.s["travs"] if t["data"]]
        if not ts: return None
        t = self.ch.pick(ts)
        self.insert(t["data"], {"t": ["prim", self.ch.pick(["int", "bool"])], "name": self.recase(self.pick(t["data"])["name"])})
        return "traversal data of one name twice"
    def same_func(self):
        ps = [p for p in self.s["passes"] if p["func"]]
        if not ps: return None
        self.add("passes", self.new())["func"] = self.ch.pick(ps)["func"]
        return "two passes with one function"
    def same_value(self):
        if not self.s["enums"]: return None
        e = self.pick(self.s["enums"])
        self.insert(e["values"], self.recase(self.pick(e["values"])))
        return "an enum value twice"
    def same_prefix(self):
        if not self.s["enums"]: return None
        self.add("enums", self.new())["prefix"] = self.recase(self.pick(self.s["enums"])["prefix"])
        return "an enum prefix twice"
    def reserved_uid(self):
        u = self.recase(self.ch.pick(UIDS))
        if self.ch.bool() or not self.uids(): self.add(self.ch.pick(["passes", "travs", "phases"]), self.new(), u)
        else: self.pick([x for x in self.actions() if x.get("uid")])["uid"] = u
        self.fixrefs = True
        return "the reserved uid %s" % u
    def reserved_prefix(self):
        p = self.recase(self.ch.pick(PREFIXES))
        self.add("enums", self.new())["prefix"] = p
        return "the reserved enum prefix %s" % p
    def word(self, w, what):
        k = self.ch.pick(["enums", "nodes", "nodesets", "passes", "travs", "phases", "child", "attr", "uid", "func", "gate", "prefix", "data", "nsattr"])
        n = self.node()
        if k in ("child", "attr"): self.insert(n["children" if k == "child" else "attrs"], self.child(w) if k == "child" else self.attr(w))
        elif k == "uid": self.add(self.ch.pick(["passes", "travs", "phases"]), self.new(), w)
        elif k == "func": self.add("passes", self.new())["func"] = w
        elif k == "gate":
            p = self.add("phases", self.new())
            p["gate"], p["cycle"] = w, False
        elif k == "prefix": self.add("enums", self.new())["prefix"] = w
        elif k == "data": self.add("travs", self.new())["data"].append({"t": INT, "name": w})
        elif k == "nsattr": self.add("nodesets", self.new())["attrs"].append(self.attr(w))
        else: self.add(k, w)
        return "the %s %s as a name (%s)" % (what, w, k)
    def c_keyword(self): return self.word(self.ch.pick(CWORDS), "C keyword")
    def dsl_keyword(self): return self.word(self.ch.pick(DSLWORDS), "keyword")
    def node_node(self):
        self.add("nodes", self.ch.pick(["Node", "NODE", "nodE"]))
        return "a node named node"

    def null_name(self):
        """Every generated enumeration has a NULL member of its own."""
        w = self.ch.pick(["null", "NULL", "Null"])
        k = self.ch.pick(["nodes", "nodesets", "passes", "travs", "phases", "uid"])
        if k == "uid": self.add("travs", self.new(), w)
        else: self.add(k, w)
        return "the name %s (%s)" % (w, k)
    def helper_name(self):
        """TRAV<child> is a function of the runtime."""
        w = self.recase(self.ch.pick(["start", "Error", "nop", "opt", "push", "pop", "Node", "Children"]))
        if w in KEYWORDS: w = w.upper()
        self.insert(self.node()["children"], self.child(w))
        return "a child named %s" % w

    def field_keyword(self):
        """Fields and the data of traversals are members of C structures, in lower case."""
        w = self.ch.pick(CWORDS + ["bool", "true", "false"])
        w = self.ch.pick([w.capitalize(), w.upper(), w[:-1] + w[-1].upper()])
        k = self.ch.pick(["child", "attr", "nsattr", "trav"])
        if k == "child": self.insert(self.node()["children"], self.child(w))
        elif k == "attr": self.insert(self.node()["attrs"], self.attr(w))
        elif k == "nsattr": self.add("nodesets", self.new())["attrs"].append(self.attr(w))
        else: self.add("travs", w, self.new())["data"].append({"t": INT, "name": "q"})
        return "the name %s (%s)" % (w, k)
    def same_macro(self):
        """The field b_c of A and the field c of A_b have the same macro."""
        n = self.pick(self.s["nodes"] + [x for x in self.s["nodesets"] if not self.sem.ops(x["expr"]) - {"|"}])
        b, c = self.new(), self.new()
        f = self.attr(self.recase("%s_%s" % (b, c)))
        if n in self.s["nodesets"] or self.ch.bool():
            if n in self.s["nodesets"]: f.pop("cons")
            self.insert(n["attrs"], f)
        else: self.insert(n["children"], self.child(f["name"]))
        other = self.recase("%s_%s" % (n["name"], b))
        k = self.ch.pick(["attr", "child", "nodeset", "member"])
        if k == "attr": self.add("nodes", other)["attrs"].append(self.attr(c))
        elif k == "child": self.add("nodes", other)["children"].append(self.child(c))
        elif k == "nodeset": self.add("nodesets", other)["attrs"].append({"t": INT, "name": c, "lts": []})
        else:
            self.add("nodes", other)
            x = self.add("nodesets", self.new())
            x["expr"] = ["lit", [other]]
            x["attrs"].append({"t": INT, "name": c, "lts": []})
        return "two fields with the macro of %s_%s (%s)" % (other, c, k)
    def same_eval(self):
        """k.x_y and k_x.y in one node have the same evaluation function."""
        k, x, y = self.new(), self.new(), self.new()
        ts = []
        for a in ("%s_%s" % (x, y), y):
            t = self.add("nodes", self.new())
            t["attrs"] = [dict(self.attr(a), inh=True)]
            ts.append(t["name"])
        p = self.add("nodes", self.new())
        p["children"] = [{"type": ts[0], "name": k, "cons": False, "lts": []}, {"type": ts[1], "name": "%s_%s" % (k, x), "cons": False, "lts": []}]
        p["eqs"] = [{"t": [k, "%s_%s" % (x, y)], "args": []}, {"t": ["%s_%s" % (k, x), y], "args": []}]
        if self.ch.bool(): p["eqs"].reverse()
        return "two equations with one function"

    def same_variable(self):
        """k.x_y and k_x.y in one node have the same variable."""
        k, x, y = self.new(), self.new(), self.new()
        how = self.ch.pick(["syn", "inh", "this", "args"])
        def typ(a, **x):
            t = self.add("nodes", self.new())
            t["attrs"] = [dict(self.attr(a), **x)]
            if x.get("syn"): t["eqs"] = [{"t": [None, a], "args": []}]
            return {"type": t["name"], "name": k, "cons": False, "lts": []}
        p = self.add("nodes", self.new())
        if how == "this":
            p["attrs"] = [dict(self.attr("%s_%s" % (x, y)), syn=True)]
            p["eqs"] = [{"t": [None, "%s_%s" % (x, y)], "args": []}]
            p["children"] = [dict(typ(y, syn=True), name="this_" + x)]
            return "an own and a child's attribute with one variable"
        a, b = "%s_%s" % (x, y), y
        kw = {} if how == "args" else {"syn": True}
        p["children"] = [typ(a, **kw), dict(typ(b, **(kw if how != "inh" else {"inh": True})), name="%s_%s" % (k, x))]
        if how == "args":
            p["attrs"] = [dict(self.attr(self.new()), syn=True)]
            args = [[k, a], ["%s_%s" % (k, x), b]]
            if self.ch.bool(): args.reverse()
            p["eqs"] = [{"t": [None, p["attrs"][0]["name"]], "args": args}]
        if how == "inh": p["eqs"] = [{"t": ["%s_%s" % (k, x), b], "args": []}]
        if self.ch.bool(): p["children"].reverse()
        return "two attributes with one variable (%s)" % how

    # ---- references
    def wrong(self, kinds):
        """An undefined name, or a name of another kind."""
        opts = self.names([k for k in kinds if k != "uid"])
        if "uid" in kinds: opts = opts + self.uids()
        if not opts or self.ch.bool(0.4): return self.new(), "an undefined name"
        r = self.ch.pick(opts)
        return self.recase(r), "%s, which is of another kind" % r
    def child_type(self):
        r, w = self.wrong(("enums", "passes", "travs", "phases", "uid"))
        cs = [c for n in self.s["nodes"] for c in n["children"]]
        if cs and self.ch.bool(0.7): self.ch.pick(cs)["type"] = r
        else: self.insert(self.node()["children"], dict(self.child(self.new()), type=r))
        return "a child of type " + w
    def attr_type(self):
        r, w = self.wrong(("passes", "travs", "phases", "uid"))
        x = self.pick(self.s["nodes"] + [y for y in self.s["nodesets"] if not self.sem.ops(y["expr"]) - {"|"}])
        self.insert(x["attrs"], self.attr(self.new(), ["ref", r]))
        return "an attribute of type " + w
    def data_type(self):
        r, w = self.wrong(("passes", "travs", "phases", "uid"))
        t = self.pick(self.s["travs"]) or self.add("travs", self.new())
        self.insert(t["data"], {"t": ["ref", r], "name": self.new()})
        return "traversal data of type " + w
    def set_member(self):
        es = [e for _, _, e in self.exprs() if e[0] == "lit"]
        if not es: return None
        r, w = self.wrong(("enums", "nodesets", "passes", "travs", "phases", "uid"))
        self.insert(self.ch.pick(es)[1], r)
        return "a set with " + w
    def set_ref(self):
        es = self.exprs()
        if not es: return None
        h, k, e = self.ch.pick(es)
        r, w = self.wrong(("enums", "nodes", "passes", "travs", "phases", "uid"))
        h[k] = ["ref", r] if self.ch.bool() else ["op", self.ch.pick("|&-"), e, ["ref", r]]
        return "a set expression with " + w
    def action_ref(self):
        r, w = self.wrong(("enums", "nodes", "nodesets"))
        self.insert(self.pick(self.s["phases"])["actions"], r)
        return "an action " + w
    def recursion(self):
        xs = self.s["nodesets"]
        if not xs: return None
        x = self.ch.pick(xs)
        deps = [y for y in xs if y is x or low(y["name"]) in self.sem.refs(x["expr"])]     # x refers to each of these
        y = self.ch.pick(deps)
        y["expr"] = ["op", self.ch.pick("|&-"), ["ref", self.recase(x["name"])], y["expr"]] if self.ch.bool() else ["op", "|", y["expr"], ["ref", self.recase(x["name"])]]
        return "the nodeset %s that contains itself" % x["name"]
    def phase_loop(self):
        ps = {low(p["name"]): p for p in self.s["phases"]}
        ps.update({low(p["uid"]): p for p in self.s["phases"] if p.get("uid")})
        p = self.ch.pick(self.s["phases"])
        chain, q = [], p
        while q is not None and not any(q is x for x in chain):      # a path upwards
            chain.append(q)
            over = [x for x in self.s["phases"] if any(ps.get(low(a)) is q for a in x["actions"])]
            q = self.ch.pick(over) if over else None
        up_ = self.ch.pick(chain)
        self.insert(p["actions"], self.recase(up_["uid"] if up_.get("uid") and self.ch.bool() else up_["name"]))
        return "the phase %s that contains itself" % up_["name"]
    def target(self):
        """A lifetime whose end does not exist."""
        sem, acts = self.sem, list(self.sem.tree().walk())
        k = self.ch.below(5)
        run = {low(a.name) for a in acts} | {low(a.uid) for a in acts if a.uid}
        if k == 0: path = [self.new()]
        elif k == 1: path = [self.pick(self.names(("nodes",)))]
        elif k == 2:
            p = self.ch.pick([a for a in acts if a.kind == "phase"])
            path = [self.recase(p.name), self.new()] if p.parent else [self.new(), self.new()]
        elif k == 3:
            # the first part is no phase
            ps = [a for a in acts if a.kind != "phase"]
            path = [self.recase(self.ch.pick(ps).name), self.recase(self.ch.pick(acts).name)]
        else:
            # an action that does not occur in this phase
            ps = [a for a in acts if a.kind == "phase" and a.parent]
            out = []
            for p in ps:
                inside = {id(x.x) for q in acts if q.x is p.x for x in q.walk()}
                out += [(p, a) for a in acts if id(a.x) not in inside and a.parent]
            if not out: return None
            p, a = self.ch.pick(out)
            path = [self.recase(p.name), self.recase(a.name)]
        l = {"kind": self.ch.pick(["disallowed", "allowed"]), "begin": None, "end": None, "long": True}
        l[self.ch.pick(["begin", "end"])] = {"path": path, "incl": self.ch.bool()}
        n = self.node()
        holders = [n["lts"]] + [c["lts"] for c in n["children"]] + [a["lts"] for a in n["attrs"] if sem.attr_kind(a) in ("string", "link") and not self.redeclared(a)]
        self.insert(self.ch.pick(holders), l)
        return "a lifetime that refers to %s" % ".".join(path)
    def redeclared(self, a): return low(a["name"]).startswith("sv")

    # ---- structure
    def no_root(self):
        for n in self.s["nodes"]: n["root"] = False
        return "no root node"
    def two_roots(self):
        ns = [n for n in self.s["nodes"] if not n["root"]]
        n = self.ch.pick(ns) if ns and self.ch.bool(0.7) else self.add("nodes", self.new())
        n["root"] = True
        return "two root nodes"
    def no_start(self):
        for p in self.s["phases"]: p["start"] = False
        return "no start phase"
    def two_starts(self):
        ps = [p for p in self.s["phases"] if not p["start"]]
        p = self.ch.pick(ps) if ps and self.ch.bool(0.7) else self.add("phases", self.new())
        p["start"] = True
        return "two start phases"
    def node_lifetime(self):
        k = self.ch.pick(["mandatory", "optional"])
        l = {"kind": k, "begin": None, "end": None, "long": self.ch.bool() or k == "optional"}
        acts = [a for a in self.sem.tree().walk() if a.parent]
        if l["long"] and self.ch.bool(): l["begin"] = {"path": [self.ch.pick(acts).name], "incl": self.ch.bool()}
        self.insert(self.node()["lts"], l)
        return "a node lifetime that is %s" % k
    def attr_lifetime(self):
        opts = [a for x in self.s["nodes"] + self.s["nodesets"] for a in x["attrs"] if self.sem.attr_kind(a) not in ("string", "link") and not (self.redeclared(a) and x in self.s["nodes"])]
        a = self.ch.pick(opts) if opts else None
        if a is None:
            a = self.attr(self.new(), ["prim", self.ch.pick(["int", "bool", "double", "uint8"])])
            self.insert(self.node()["attrs"], a)
        k = self.ch.pick(["mandatory", "optional", "allowed", "disallowed"])
        self.insert(a["lts"], {"kind": k, "begin": None, "end": None, "long": self.ch.bool() or k in ("optional", "allowed")})
        return "a lifetime for an attribute that is neither a string nor a node"
    def computed(self):
        """An inherited or synthesized attribute that has a lifetime, or is an argument of the constructor."""
        x, name, kid = self.node(), self.new(), self.ch.pick([None, "inh"])
        a = self.attr(name, ["prim", "string"])
        if kid and not x["root"]:
            a["inh"] = True                     # (also with an equation in every node that has x as a child)
            sem = Sem(self.s)
            for n in self.s["nodes"]:
                for c in n["children"]:
                    if low(c["type"]) in [low(x["name"])]: n["eqs"].append({"t": [c["name"], name], "args": []})
        else:
            a["syn"] = True
            x["eqs"].append({"t": [None, name], "args": []})
        k = self.ch.pick(["mandatory", "optional", "allowed", "disallowed", "constructor"])
        if k == "constructor": a["cons"] = True
        else: a["lts"] = [{"kind": k, "begin": None, "end": None, "long": self.ch.bool() or k in ("optional", "allowed")}]
        self.insert(x["attrs"], a)
        return "an evaluated attribute with a lifetime or in the constructor"
    def nodeset_constructor(self):
        xs = [x for x in self.s["nodesets"] if not self.sem.ops(x["expr"]) - {"|"}]
        if not xs: return None
        x = self.ch.pick(xs)
        if not x["attrs"] or self.ch.bool(): self.insert(x["attrs"], self.attr(self.new()))
        self.ch.pick(x["attrs"])["cons"] = True
        return "a nodeset attribute with constructor"
    def nodeset_ops(self):
        xs = [x for x in self.s["nodesets"] if x["attrs"] or self.sem.ops(x["expr"]) - {"|"}]
        if not xs: return None
        x = self.ch.pick(xs)
        if self.sem.ops(x["expr"]) - {"|"}:
            if x["attrs"]: return None
            x["attrs"].append(self.attr(self.new()))
        else:
            hs = [(h, k) for h, k, _ in self.exprs_of(x)]
            h, k = self.ch.pick(hs)
            h[k] = ["op", "-", h[k], ["lit", [self.node()["name"]]]] if self.ch.bool() else ["op", "&", ["lit", self.names(("nodes",))], h[k]]
        return "attributes of a nodeset that uses & or -"
    def exprs_of(self, x):
        out = []
        def walk(h, k):
            out.append((h, k, h[k]))
            if h[k][0] == "op": walk(h[k], 2); walk(h[k], 3)
        walk(x, "expr")
        return out
    def redeclare(self):
        opts = [(x, a, m) for x in self.s["nodesets"] for a in x["attrs"] for m in sorted(self.sem.members(x["expr"]))
                if not any(low(b["name"]) == low(a["name"]) for b in self.sem.node[m]["attrs"])]
        if not opts: return None
        x, a, m = self.ch.pick(opts)
        d = dict(self.attr(self.recase(a["name"]), a["t"]), cons=True)
        if self.ch.bool(): d["cons"] = False; w = "constructor"
        else:
            d["t"] = ["prim", "uint16" if a["t"] != ["prim", "uint16"] else "int8"]
            w = "the same type"
        self.insert(self.sem.node[m]["attrs"], d)
        return "a nodeset attribute declared again without " + w
    def nodeset_again(self):
        """A nodeset and one in its expression with an attribute of the same name."""
        opts = [(x, y) for x in self.s["nodesets"] for y in self.s["nodesets"] if low(y["name"]) in self.sem.refs(x["expr"]) and not self.sem.ops(x["expr"]) - {"|"}
                and (x["attrs"] or y["attrs"])]
        if not opts: return None
        x, y = self.ch.pick(opts)
        a, to = self.ch.pick([(a, y) for a in x["attrs"]] + [(a, x) for a in y["attrs"]])
        self.insert(to["attrs"], self.attr(self.recase(a["name"]), a["t"] if self.ch.bool() else INT))
        return "an attribute of nodeset %s and of %s, which includes it" % (y["name"], x["name"])

    # ---- the text
    def braces(self, text):
        t = text.split(" ")
        i = self.ch.pick([j for j, x in enumerate(t) if x in ("{", "}")])
        del t[i]
        return " ".join(t), "a brace missing"
    def stray(self, text):
        t = text.split(" ")
        c = self.ch.pick(["$", "?", "@", "#", "%", "+", "*", "\\", "`", "~", "^", "<", ":", "'", "\x01", "\xe9", "!", "\"", "12", "-3", "1.5", "->", "NULL"])
        t.insert(self.ch.below(len(t)), c)
        return " ".join(t), "a stray %s" % c
    def empty(self, text):
        t = text.split(" ")
        opens = [j for j, x in enumerate(t) if x == "{" and "{" not in t[j + 1:t.index("}", j)] and t[j - 1] in ("children", "attributes", "equations", "lifetime", "actions", "values", "travdata", "=", "|", "&", "-")
                 and t[j - 2] != "args"]
        if not opens: return None
        j = self.ch.pick(opens)
        del t[j + 1:t.index("}", j)]
        return " ".join(t), "an empty block (%s)" % t[j - 1]
    def required(self, text):
        """A part that every definition of the kind must have is left out."""
        t = text.replace("\n", " \n").split(" ")
        ks = [j for j, x in enumerate(t) if x in ("prefix", "uid", "values", "nodes") and (x != "uid" or self.of(t, j) == "traversal") and (x != "nodes" or self.of(t, j) == "nodeset")]
        if not ks: return None
        j = self.ch.pick(ks)
        w = t[j]
        e = j + 3 if w in ("prefix", "uid") else t.index("}", j) + 1
        if w == "nodes":
            return None
        if t[e] == ",": e += 1
        elif t[j - 1] == ",": j -= 1
        del t[j:e]
        return " ".join(t), "no %s" % w
    def of(self, t, j):
        """Keyword of the innermost definition around token j."""
        d = 0
        for i in range(j - 1, -1, -1):
            if t[i] == "}": d += 1
            if t[i] == "{":
                if d == 0: return t[i - 2].strip()
                d -= 1
        return None

SPEC = ["same_name", "same_uid", "uid_is_name", "same_field", "nodeset_field", "nodeset_twice", "same_travdata", "same_func", "same_value", "same_prefix",
        "reserved_uid", "reserved_prefix", "c_keyword", "dsl_keyword", "node_node", "null_name", "helper_name", "field_keyword", "same_macro", "same_eval", "same_variable", "child_type", "attr_type", "data_type", "set_member", "set_ref", "action_ref",
        "recursion", "phase_loop", "target", "no_root", "two_roots", "no_start", "two_starts", "node_lifetime", "attr_lifetime", "computed", "nodeset_constructor",
        "nodeset_ops", "redeclare", "nodeset_again"]
TEXT = ["braces", "stray", "empty", "required"]

class C02(Check):
    id = "C02"
    quick, thorough = 14000, 200000
    rule = ("a case is a generated well-formed specification with one rule broken once, at a random place and in random letter case, of %d rules; it is "
            "non-trivial if the rule could be broken there, and the unbroken specification is accepted" % (len(SPEC) + len(TEXT)))
    assumptions = ["rules are those of the documentation and of the messages of the meta-compiler"]
    def prepare(self): return cprog.prepare(plain=False)

    def gen(self, ch):
        rule = ch.pick(SPEC + TEXT)
        g = Gen(ch, user=True, lifetimes=ch.pick([0, 0.3]), nodes=(1, 6), enums=(0, 3), nodesets=(0, 5), nsattrs=0.7, passes=(0, 3), travs=(0, 3), phases=(0, 4))
        spec = copy.deepcopy(g.all())
        b = Breaker(g)
        good = spec if ch.bool(0.1) else None
        notation = ch.below(1 << 20) if ch.bool(0.8) else 0
        if rule in SPEC:
            bad = getattr(b, rule)()
            return {"rule": rule, "spec": g.spec, "bad": bad, "good": good, "notation": notation}
        r = getattr(b, rule)(render(g.spec, 0))
        return {"rule": rule, "text": r and r[0], "bad": r and r[1], "good": good, "notation": 0}

    def run(self, case, env):
        p = cprog.Project(env)
        if case["good"]: p.accept(render(case["good"], case["notation"]))
        if not case["bad"]: return Result(False, {"rule not applicable"}, 0)
        text = self.show(case)
        cprog.must_reject(p.generate(text), text, case["bad"])
        return Result(True, {case["rule"]}, 1, {"rejected": case["bad"], "spec": text[:2000]})

    def show(self, case):
        return case["text"] if "text" in case else render(case["spec"], case["notation"])

check = C02()
