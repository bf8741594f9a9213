"""The diagram of the tree and the listing that cocogen writes."""
import os, re
from .. import cprog
from ..ag import AgGen
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..sem import low, up
from ..spec import render
from ..tree import Lay

# names that mean something in the DOT language, with words around them
DOTWORDS = ["graph", "Digraph", "subgraph", "edge", "STRICT", "Graph", "Edge", "digraph", "Strict", "subGraph"]

# ---------------------------------------------------------------- DOT
TOKEN = re.compile(r'\s+|//[^\n]*|#[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_\x80-\xff][A-Za-z_0-9\x80-\xff]*)|(?P<num>-?(?:\.\d+|\d+(?:\.\d*)?))|(?P<str>"(?:[^"\\]|\\.)*")|(?P<op>->|--|[][{};,=:])', re.S)
KEY = {"node", "edge", "graph", "digraph", "subgraph", "strict"}

def dot(text):
    """Vertices and edges (from, to, attributes) of a flat digraph in the DOT language."""
    toks, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m: raise Violation("ast.dot is not in the DOT language at %r\n%s" % (text[i:i + 30], text[:3000]))
        i = m.end()
        if m.lastgroup == "str": toks.append(("name", re.sub(r'\\"', '"', m.group("str")[1:-1])))
        elif m.lastgroup == "id": toks.append(("key", m.group().lower()) if m.group().lower() in KEY else ("name", m.group()))
        elif m.lastgroup == "num": toks.append(("name", m.group()))
        elif m.lastgroup == "op": toks.append(("op", m.group()))
    toks.append(("end", ""))
    p = [0]
    def bad(): raise Violation("ast.dot is not in the DOT language: unexpected %r after %r\n%s" % (toks[p[0]][1], " ".join(t for _, t in toks[max(0, p[0] - 6):p[0]]), text[:3000]))
    def take(*want):
        t = toks[p[0]]
        if t[0] == want[0] and (len(want) == 1 or t[1] == want[1]):
            p[0] += 1
            return t[1]
        return None
    def need(*want):
        t = take(*want)
        if t is None: bad()
        return t
    def attrs():
        out = {}
        while take("op", "[") is not None:
            while take("op", "]") is None:
                k = need("name"); need("op", "="); out[k] = need("name")
                if take("op", ",") is None: take("op", ";")
        return out
    vertices, edges = set(), []
    take("key", "strict"); need("key", "digraph"); take("name"); need("op", "{")
    while take("op", "}") is None:
        if any(take("key", k) is not None for k in ("graph", "node", "edge")): attrs()
        else:
            chain = [need("name")]
            if take("op", "=") is not None: need("name")
            else:
                while take("op", "->") is not None: chain.append(need("name"))
                vertices |= set(chain)
                a = attrs()
                edges += [(x, y, a) for x, y in zip(chain, chain[1:])]
        take("op", ";")
    need("end")
    return vertices, edges

def drawn(spec, l):
    """What the diagram has to show."""
    s, e = l.sem, []
    name = lambda r: (s.node.get(low(r)) or s.nodeset[low(r)])["name"]
    for n in spec["nodes"]:
        k = low(n["name"])
        e += [(n["name"], name(c["type"]), "", low(c["name"])) for c in n["children"]]
        e += [(n["name"], name(a["t"][1]), "red", low(a["name"])) for a in l.attrs[k] if l.vk(a) == "link"]
    for n in spec["nodesets"]: e += [(n["name"], name(m), "blue", "") for m in s.members(["ref", n["name"]])]
    return {x["name"] for k in ("nodes", "nodesets") for x in spec[k]}, e

# ---------------------------------------------------------------- the listing
def listing(out):
    """Blocks of the listing: {kind: {name: [lines]}}, lines without white space at their ends."""
    got = {k: {} for k in ("phase", "trav", "node", "nodeset")}
    passes, cur, visits = [], None, False
    for line in out.splitlines():
        t = line.strip()
        m = re.match(r"(Phase|Trav|nodeset) (\w+) (?:\(.*\) )?\{$", line) or re.match(r"(NODE): (\w+)\(\d+\) \{$", line)
        if m:
            k = m.group(1).lower()
            if m.group(2) in got[k]: raise Violation("the listing shows %s %s twice\n%s" % (k, m.group(2), out[:3000]))
            cur = got[k][m.group(2)] = []
        elif line == "Visits {" or line.startswith(("STE:", "Reachability", "-----", "Opening")): cur = None
        elif line.startswith("Pass: "): passes.append(line[6:].strip()); cur = None
        elif cur is not None and t: cur.append(t)
    return got, passes

def sections(lines, name):
    """The lines of a section of a block."""
    out, depth, on = [], 0, False
    for t in lines:
        if on:
            d = t.count("{") - t.count("}")
            if depth + d < 1: break
            depth += d; out.append(t)
        elif t == name + " {": on, depth = True, 1
    else:
        if not on: raise Violation("no section %s in %s" % (name, lines))
    return out

def words(x): return sorted(low(t) for t in x)

class C26(Check):
    id = "C26"
    quick, thorough = 6000, 120000
    rule = ("a case is a well-formed specification in a random notation (references in any letter case; names among them that are words of the DOT language), with or "
            "without equations; the check parses ast.dot by the grammar of DOT and the output of --show-ast and compares the vertices, edges, colours and labels, "
            "and the phases, traversals, passes, children, attributes, lifetimes, equations and nodesets listed, with a reference built from the specification; "
            "non-trivial: at least two edges of different kinds are due")
    assumptions = []
    def prepare(self): return cprog.prepare(plain=False)

    def gen(self, ch):
        g = AgGen(ch, deep=0.05) if ch.bool(0.25) else Gen(ch, user=True, lifetimes=0.5, enums=(0, 2), nodes=(1, 8), nodesets=(0, 5), travs=(0, 4), phases=(0, 4), passes=(0, 3))
        spec = g.all()
        if ch.bool(0.15):
            taken = {low(x["name"]) for k in ("enums", "nodes", "nodesets", "passes", "travs", "phases") for x in spec[k]} | \
                    {low(x["uid"]) for k in ("passes", "travs", "phases") for x in spec[k] if x.get("uid")}
            x = ch.pick(spec["nodes"] + spec["nodesets"])
            new = ch.pick(DOTWORDS)
            if low(new) not in taken: rename_type(spec, x["name"], new)
        return {"spec": spec, "notation": ch.below(1 << 20) if ch.bool(0.8) else 0}

    def run(self, case, env):
        spec, text = case["spec"], self.show(case)
        p, q = cprog.Project(env), cprog.Project(env, "q")
        p.accept(text)
        r = cprog.Project.accept(q, text, args=["--show-ast"])
        for top, _, fs in os.walk(p.gen):
            for f in fs:
                a = os.path.join(top, f)
                b = os.path.join(q.gen, os.path.relpath(a, p.gen))
                if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read(): raise Violation("--show-ast changes the generated file %s\n%s" % (os.path.relpath(a, p.gen), text))
        try: d = open(os.path.join(p.gen, "ast.dot"), encoding="latin-1").read()
        except OSError: raise Violation("no ast.dot is generated\n%s" % text)
        l = Lay(spec)
        want_v, want_e = drawn(spec, l)
        got_v, got_e = dot(d)
        if got_v != want_v: raise Violation("the diagram has the vertices %s, not %s\n%s\n%s" % (sorted(got_v - want_v), sorted(want_v - got_v), text, d))
        got_e = sorted((x, y, a.get("color", ""), low(a.get("label", ""))) for x, y, a in got_e)
        if got_e != sorted(want_e): raise Violation("the diagram has the edges %s and lacks %s\n%s\n%s" % (minus(got_e, want_e), minus(want_e, got_e), text, d))
        n = len(want_v) + len(want_e) + self.listed(spec, l, r.out, text)
        cl = {k for k, c in (("child edge", ""), ("link edge", "red"), ("member edge", "blue")) if any(e[2] == c for e in want_e)}
        nt = len(cl) >= 2
        if any(low(v) in KEY for v in want_v): cl.add("DOT keyword")
        if any(nd["eqs"] for nd in spec["nodes"]): cl.add("equations")
        if any(e[0] == e[1] for e in want_e): cl.add("loop")
        return Result(nt, cl, n, {"spec": text[:2000], "edges": want_e[:12]})

    def listed(self, spec, l, out, text):
        s, n = l.sem, 0
        got, passes = listing(out)
        def same(what, a, b):
            if a != b: raise Violation("the listing has for %s\n%s\nnot\n%s\n%s\n%s" % (what, a, b, text, out[:6000]))
        same("the passes", sorted(passes), sorted(x["name"] for x in spec["passes"]))
        for k, key in (("phase", "phases"), ("trav", "travs"), ("node", "nodes"), ("nodeset", "nodesets")):
            same("the names of " + key, sorted(got[k]), sorted(x["name"] for x in spec[key]))
        seen = {}
        for a in l.tree.walk(): seen.setdefault(low(a.name) if a.kind == "phase" else None, []).append(a)
        for x in spec["phases"]:
            lines = [re.match(r"(\w+): (\d+)$", t) for t in sections(got["phase"][x["name"]], "Actions")]
            if not all(lines): raise Violation("actions of phase %s in the listing\n%s" % (x["name"], out[:4000]))
            same("the actions of phase " + x["name"], [low(m.group(1)) for m in lines], [low(a) for a in x["actions"]])
            at = seen.get(low(x["name"]), [])
            if len(at) == 1: same("the action numbers of phase " + x["name"], [int(m.group(2)) for m in lines], [a.id for a in at[0].sub])
            n += len(lines)
        for x in spec["travs"]:
            same("the nodes of traversal " + x["name"], words(sections(got["trav"][x["name"]], "nodes")) or None, sorted(s.targets(x)) if x["nodes"] and s.targets(x) else None)
        for x in spec["nodesets"]:
            k, b = low(x["name"]), got["nodeset"][x["name"]]
            same("the members of nodeset " + x["name"], words(b[:b.index("Child nodesets {")] if "Child nodesets {" in b else b), sorted(s.members(["ref", k])))
            self.attrs(l, {low(a["name"]): a for a in s.nodeset_attrs(k)}, sections(b, "Attributes"), "nodeset " + x["name"], same)
        for x in spec["nodes"]:
            k, b = low(x["name"]), got["node"][x["name"]]
            same("the children of node " + x["name"], words(sections(b, "Children")), words(c["name"] for c in x["children"]))
            self.attrs(l, {low(a["name"]): a for a in l.attrs[k]}, sections(b, "Attributes"), "node " + x["name"], same)
            n += len(l.attrs[k])
            def ref(r):
                if r[0] is None: return "<this>." + low(r[1])
                c = next(c for c in x["children"] if low(c["name"]) == low(r[0]))
                return "%s<%s>.%s" % (low(c["name"]), low(c["type"]), low(r[1]))
            body = low(" ".join(sections(b, "Equations")))
            eqs = sorted((t, tuple(a.split(", ")) if a else ()) for t, a in re.findall(r"(\S+) = \{ args = \{([^}]*)\} \}", body))
            same("the equations of node " + x["name"], eqs, sorted((ref(e["t"]), tuple(ref(a) for a in e["args"])) for e in x["eqs"]))
            n += len(eqs)
        return n

    def attrs(self, l, want, lines, what, same):
        """Attribute lines: type name {flags, lifetimes {..}}. Lifetimes get their action numbers when nodes have taken over the attributes of nodesets."""
        nums = what.startswith("node ")
        got = {}
        for t, name, rest in re.findall(r"(\S+) (\w+) \{((?:(?!lifetimes)\w+(?:, )?)*(?:lifetimes \{[^}]*\})?)\}", " ".join(lines)):
            m = re.search(r"lifetimes \{([^}]*)\}", rest)
            lts = re.findall(r"(\w+)\((\d*) -> (\d*)\)", m.group(1)) if m else []
            flags = set(re.split(r", ", rest.split("lifetimes")[0].rstrip(", "))) - {""}
            if low(name) in got: same("attribute %s of %s" % (name, what), "two lines", "one line")
            got[low(name)] = (low(t), flags, sorted(lts if nums else [x[0] for x in lts]))
        exp = {}
        for k, a in want.items():
            flags = {f for f, y in (("constructor", "cons"), ("synthesized", "syn"), ("inherited", "inh")) if a.get(y)}
            num = lambda e: str(l.resolve(e["path"]).id) if e else ""
            exp[k] = (low(a["t"][1]), flags, sorted((x["kind"], num(x["begin"]), num(x["end"])) if nums else x["kind"] for x in a.get("lts", [])))
        same("the attributes of " + what, sorted((k, v[0], sorted(v[1]), v[2]) for k, v in got.items()), sorted((k, v[0], sorted(v[1]), v[2]) for k, v in exp.items()))

    def show(self, case): return render(case["spec"], case["notation"])

def minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b: b.remove(x)
        else: out.append(x)
    return out

def rename_type(spec, old, new):
    """Gives a node or nodeset another name."""
    o = low(old)
    f = lambda n: new if low(n) == o else n
    def expr(e):
        if e is None: return None
        return ["lit", [f(n) for n in e[1]]] if e[0] == "lit" else ["ref", f(e[1])] if e[0] == "ref" else ["op", e[1], expr(e[2]), expr(e[3])]
    def typ(x):
        if x["t"][0] == "ref": x["t"] = ["ref", f(x["t"][1])]
    for n in spec["nodes"]:
        n["name"] = f(n["name"])
        for c in n["children"]: c["type"] = f(c["type"])
        for a in n["attrs"]: typ(a)
    for n in spec["nodesets"]:
        n["name"], n["expr"] = f(n["name"]), expr(n["expr"])
        for a in n["attrs"]: typ(a)
    for t in spec["travs"]:
        t["nodes"] = expr(t["nodes"])
        for x in t["data"]: typ(x)

check = C26()
