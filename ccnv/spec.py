"""Specifications as JSON data, and their rendering in the CoCoNut DSL.

spec = {enums, nodes, nodesets, passes, travs, phases}
 enum    {name, prefix, values}
 node    {name, root, children:[{type,name,cons,lts}], attrs:[attr], eqs:[{t:[child|None,attr], args:[[..]]}], lts}
 attr    {t:["prim",x]|["ref",name]|["user",name], name, cons, inh, syn, lts}
 nodeset {name, expr, attrs}          expr ["lit",[n..]] | ["ref",n] | ["op","|&-",l,r]
 pass    {name, uid, func}
 trav    {name, uid, nodes: expr|None, data:[{t,name}]}
 phase   {name, uid, gate, cycle, start, actions:[name..]}
 lt      {kind, begin, end}  begin/end None | {path:[..], incl}   (bare: begin=end=None)
"""
import random

PRIMS = {"int": "int", "int8": "int8_t", "int16": "int16_t", "int32": "int32_t", "int64": "int64_t",
         "uint8": "uint8_t", "uint16": "uint16_t", "uint32": "uint32_t", "uint64": "uint64_t",
         "bool": "bool", "float": "float", "double": "double", "string": "char *"}
USER_TYPES = {"uval": "unsigned long long", "uptr": "void *", "uint_t2": "short", "Umix_T": "unsigned short"}
KEYWORDS = set("""args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes
pass passes phase phases actions prefix subphases synthesized this to traversal travdata values info func root start
double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime disallowed optional
allowed false true gate user uid NULL""".split())
CKEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline
int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile
while""".split())
USER_TYPES_H = "#pragma once\n" + "".join("typedef %s %s;\n" % (c, n) for n, c in USER_TYPES.items())

def empty():
    return {"enums": [], "nodes": [], "nodesets": [], "passes": [], "travs": [], "phases": []}

class Style:
    """Notation choices. seed 0 is the canonical notation."""
    def __init__(self, seed=0, what=("case", "space", "comment", "order", "inline", "short", "info")):
        self.seed = seed
        self.r = random.Random(seed)
        self.what = set(what) if seed else set()
    def on(self, k, p=0.5):
        return k in self.what and self.r.random() < p

class Renderer:
    def __init__(self, spec, style=None):
        self.s, self.st = spec, style or Style(0)
        self.done = set()

    # references may be written in any letter case
    def ref(self, name):
        if not self.st.on("case"):
            return name
        k = self.st.r.randrange(4)
        out = name.lower() if k == 0 else name.upper() if k == 1 else name.swapcase() if k == 2 else \
            "".join(self.st.r.choice((c.lower(), c.upper())) for c in name)
        return name if out in KEYWORDS or out in CKEYWORDS else out

    def info(self):
        if not self.st.on("info"):
            return []
        t = self.st.r.choice(["", "some info", "x = {1}; -> [a)", "don't; // no comment", "/* */ %d %s", "*/", "**/ int", "two\nlines", 'a \\" b', "\\\\", "*/" * 40, "x" * 5000])
        return ["info", "=", '"' + t + '"']

    def comma(self, groups):
        out = []
        for g in groups:
            if not g:
                continue
            if out:
                out.append(",")
            out += g
        return out

    def typ(self, t):
        if t[0] == "prim":
            return [t[1]]
        if t[0] == "user":
            return ["user", t[1]]
        return [self.ref(t[1])]

    def expr(self, e, top=False):
        if e[0] == "lit":
            return ["{"] + self.comma([[self.ref(n)] for n in e[1]]) + ["}"]
        if e[0] == "ref":
            return [self.ref(e[1])]
        body = self.sub(e[2], left=True) + [e[1]] + self.sub(e[3], left=False)
        if top and self.st.on("short", 0.3):
            return ["("] + body + [")"]
        return body

    def sub(self, e, left):
        toks = self.expr(e)
        # operators have one rank and group to the left
        if e[0] == "op" and (not left or self.st.on("short", 0.5)):
            return ["("] + toks + [")"]
        return toks

    def lt(self, l):
        if l["begin"] is None and l["end"] is None and l["kind"] in ("disallowed", "mandatory") and not l.get("long"):
            return [l["kind"]]
        def path(p):
            return self.comma_dot([self.ref(x) for x in p["path"]])
        out = [l["kind"]]
        if l["begin"] is None:
            out += [] if self.st.on("short", 0.3) else ["("]
        else:
            out += ["[" if l["begin"]["incl"] else "("] + path(l["begin"])
        out.append("->")
        if l["end"] is None:
            out += [] if self.st.on("short", 0.3) else [")"]
        else:
            out += path(l["end"]) + ["]" if l["end"]["incl"] else ")"]
        return out

    def comma_dot(self, xs):
        out = []
        for x in xs:
            if out:
                out.append(".")
            out.append(x)
        return out

    def attr(self, a):
        opts = [[k] for k, f in (("constructor", "cons"), ("inherited", "inh"), ("synthesized", "syn")) if a.get(f)]
        if self.st.on("order"):
            self.st.r.shuffle(opts)
        opts += [self.lt(l) for l in a.get("lts", [])]
        out = self.typ(a["t"]) + [a["name"]]
        if opts or self.st.on("short", 0.2):
            out += ["{"] + self.comma(opts) + ["}"]
        return out

    def child(self, c):
        opts = ([["constructor"]] if c.get("cons") else []) + [self.lt(l) for l in c.get("lts", [])]
        out = [self.ref(c["type"]), c["name"]]
        if opts or self.st.on("short", 0.2):
            out += ["{"] + self.comma(opts) + ["}"]
        return out

    def aref(self, r):
        return ["this" if r[0] is None else self.ref(r[0]), ".", self.ref(r[1])]

    def eq(self, e):
        out = self.aref(e["t"]) + ["=", "{"]
        if e["args"] or not self.st.on("short"):
            out += ["args", "=", "{"] + self.comma([self.aref(a) for a in e["args"]]) + ["}"]
        return out + ["}"]

    def block(self, kw, items):
        return [kw, "{"] + self.comma(items) + ["}"] if items else []

    def node(self, n):
        body = self.comma([self.block("children", [self.child(c) for c in n["children"]]),
                           self.block("attributes", [self.attr(a) for a in n["attrs"]]),
                           self.block("equations", [self.eq(e) for e in n["eqs"]]),
                           self.block("lifetime", [self.lt(l) for l in n["lts"]])])
        return (["root"] if n.get("root") else []) + ["node", n["name"], "{"] + body + ["}"]

    def nodeset(self, n):
        inf = self.info()
        if not n["attrs"] and not inf and self.st.on("short"):
            return ["nodeset", n["name"], "="] + self.expr(n["expr"], True)
        return ["nodeset", n["name"], "{"] + self.comma([inf, ["nodes", "="] + self.expr(n["expr"], True),
                self.block("attributes", [self.attr(a) for a in n["attrs"]])]) + ["}"]

    def enum(self, e):
        return ["enum", e["name"], "{"] + self.comma([self.info(), ["prefix", "=", e["prefix"]],
                ["values", "{"] + self.comma([[v] for v in e["values"]]) + ["}"]]) + ["}"]

    def pas(self, p):
        inf = self.info() if p.get("uid") or p.get("func") else []
        g = [inf, ["uid", "=", p["uid"]] if p.get("uid") else [], ["func", "=", p["func"]] if p.get("func") else []]
        if not any(g):
            return ["pass", p["name"]]
        if p.get("func") and not p.get("uid") and not inf and self.st.on("short"):
            return ["pass", p["name"], "=", p["func"]]
        return ["pass", p["name"], "{"] + self.comma(g) + ["}"]

    def trav(self, t):
        return ["traversal", t["name"], "{"] + self.comma([self.info(), ["uid", "=", t["uid"]],
                (["nodes", "="] + self.expr(t["nodes"], True)) if t["nodes"] else [],
                self.block("travdata", [self.typ(d["t"]) + [d["name"]] for d in t["data"]])]) + ["}"]

    def phase(self, p):
        acts = []
        for a in p["actions"]:
            if self.inline.get(a.lower()) == p["name"].lower() and a.lower() not in self.done:
                self.done.add(a.lower())
                acts += self.action(a) + [";"]
            else:
                acts += [self.ref(a), ";"]
        gate = ["gate", "=", p["gate"]] if p.get("gate") else []
        inf = self.info()
        return (["start"] if p.get("start") else []) + ["cycle" if p.get("cycle") else "phase", p["name"], "{"] + \
            self.comma([inf, ["uid", "=", p["uid"]] if p.get("uid") else [], gate,
                        ["actions", "{"] + acts + ["}"]]) + ["}"]

    def action(self, name):
        for p in self.s["passes"]:
            if p["name"].lower() == name.lower():
                return self.pas(p)
        for t in self.s["travs"]:
            if t["name"].lower() == name.lower():
                return self.trav(t)
        for p in self.s["phases"]:
            if p["name"].lower() == name.lower():
                return self.phase(p)
        raise KeyError(name)

    def choose_inline(self):
        """Pick, for some actions, the phase that defines them inline (its first reference there)."""
        self.inline = dict(self.s.get("inline", {}))
        if "inline" not in self.st.what:
            return
        start = [p["name"].lower() for p in self.s["phases"] if p.get("start")]
        every = [x["name"].lower() for k in ("passes", "travs", "phases") for x in self.s[k]]
        names = {n for n in every if every.count(n) == 1}       # a broken specification may define one twice
        for p in self.s["phases"]:
            for a in p["actions"]:
                n = a.lower()
                if n not in names or n in self.inline or n in start or not self.st.on("inline"):
                    continue
                # never make a phase inline in a phase that is (transitively) inline in it
                q = p["name"].lower()
                while q is not None and q != n:
                    q = self.inline.get(q)
                if q is None:
                    self.inline[n] = p["name"].lower()

    def entries(self):
        self.choose_inline()
        s, out = self.s, []
        for e in s["enums"]: out.append(lambda e=e: self.enum(e))
        for n in s["nodes"]: out.append(lambda n=n: self.node(n))
        for n in s["nodesets"]: out.append(lambda n=n: self.nodeset(n))
        for p in s["passes"]:
            if p["name"].lower() not in self.inline: out.append(lambda p=p: self.pas(p))
        for t in s["travs"]:
            if t["name"].lower() not in self.inline: out.append(lambda t=t: self.trav(t))
        for p in s["phases"]:
            if p["name"].lower() not in self.inline: out.append(lambda p=p: self.phase(p))
        if "order" in self.st.what:
            self.st.r.shuffle(out)
        return [f() for f in out]

    def tokens(self):
        ents = self.entries()
        out = []
        for i, e in enumerate(ents):
            out += e
            if i + 1 < len(ents) or not self.st.on("short", 0.3):
                out.append(";")
        return out

    def text(self):
        return self.join(self.tokens())

    def join(self, toks):
        out, r, st = [], self.st.r, self.st
        depth = 0
        for i, t in enumerate(toks):
            out.append(t)
            if st.what & {"space", "comment"}:
                word = lambda x: x[:1].isalnum() or x[:1] == '"' or x[-1:] == "_"
                nxt = toks[i + 1] if i + 1 < len(toks) else ""
                need = word(t) and word(nxt) or (t == "-" or nxt in ("-", "->"))
                sep = ""
                if st.on("space", 0.8):
                    sep = r.choice([" ", "\n", "\t", "  ", "\n\n  ", " \r\n"])
                if st.on("comment", 0.06):
                    sep += r.choice(["// no ; } { \"\n", "/* x */", "/* a\n * b }\n */", "//\n", "/***/", "/* // */"])
                out.append(sep if sep or not need else " ")
            elif t == ";" and (i + 1 == len(toks) or toks[i + 1] in ("root", "node", "nodeset", "enum", "pass", "traversal",
                               "phase", "cycle", "start", "}")):
                out.append("\n")
            else:
                out.append(" ")
        return "".join(out)

def render(spec, seed=0, what=None):
    st = Style(seed) if what is None else Style(seed, what)
    return Renderer(spec, st).text()
