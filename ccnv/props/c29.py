"""The graphs of attribute dependencies and partitions that cocogen writes."""
import os, re
from .. import cprog
from ..ag import AgGen, AgLay, induced
from ..engine import Check, Result, Violation
from ..sem import low
from ..spec import render
from .c26 import rename_type

TOKEN = re.compile(r'\s+|//[^\n]*|#[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_\x80-\xff][A-Za-z_0-9\x80-\xff]*)|(?P<num>-?(?:\.\d+|\d+(?:\.\d*)?))|(?P<str>"(?:[^"\\]|\\.)*")|(?P<op>->|--|[][{};,=:])', re.S)
KEY = {"node", "edge", "graph", "digraph", "subgraph", "strict"}

class Cluster:
    def __init__(self, up=None): self.up, self.subs, self.vertices, self.edges, self.attr = up, [], {}, [], {}

def dot(text, what):
    """A digraph with nested subgraphs in the DOT language."""
    toks, i = [], 0
    def wrong(msg): raise Violation("%s is not in the DOT language: %s\n%s" % (what, msg, text[:3000]))
    while i < len(text):
        if text[i] == "<" :                          # HTML text
            d, j = 0, i
            while j < len(text):
                d += (text[j] == "<") - (text[j] == ">"); j += 1
                if not d: break
            if d: wrong("unbalanced < at %r" % text[i:i + 30])
            toks.append(("name", text[i:j])); i = j
            continue
        m = TOKEN.match(text, i)
        if not m: wrong("at %r" % text[i:i + 30])
        i = m.end()
        if m.lastgroup == "str": toks.append(("name", m.group("str")[1:-1]))
        elif m.lastgroup == "id": toks.append(("key", m.group().lower()) if m.group().lower() in KEY else ("name", m.group()))
        elif m.lastgroup == "num": toks.append(("name", m.group()))
        elif m.lastgroup == "op": toks.append(("op", m.group()))
    toks.append(("end", ""))
    p = [0]
    def take(*want):
        t = toks[p[0]]
        if t[0] == want[0] and (len(want) == 1 or t[1] == want[1]):
            p[0] += 1
            return t[1]
        return None
    def need(*want):
        t = take(*want)
        if t is None: wrong("unexpected %r after %r" % (toks[p[0]][1], " ".join(t for _, t in toks[max(0, p[0] - 6):p[0]])))
        return t
    def attrs():
        out = {}
        while take("op", "[") is not None:
            while take("op", "]") is None:
                k = need("name"); need("op", "="); out[k] = need("name")
                if take("op", ",") is None: take("op", ";")
        return out
    ids = {}
    def body(c):
        need("op", "{")
        while take("op", "}") is None:
            if take("key", "subgraph") is not None:
                s = Cluster(c)
                name = take("name") or ""
                if name in ids: wrong("two subgraphs %s" % name)
                ids[name] = s
                c.subs.append(s)
                body(s)
            elif any(take("key", k) is not None for k in ("graph", "node", "edge")): attrs()
            else:
                chain = [need("name")]
                if take("op", "=") is not None: c.attr[chain[0]] = need("name")
                else:
                    while take("op", "->") is not None: chain.append(need("name"))
                    a = attrs()
                    if len(chain) == 1: c.vertices.setdefault(chain[0], []).append(a)
                    c.edges += [(x, y, a) for x, y in zip(chain, chain[1:])]
            take("op", ";")
    top = Cluster()
    take("key", "strict"); need("key", "digraph"); take("name")
    body(top)
    need("end")
    return top

def plain(s): return re.sub(r"\s+", " ", re.sub(r"<[^<>]*>", " ", s[1:-1] if s.startswith("<") else s)).strip()
PART = re.compile(r"^(\S+)(?: ([IS]) ?(\d+))?$")

class C29(Check):
    id = "C29"
    quick, thorough = 3000, 60000
    rule = ("a case is an attribute grammar that can be evaluated in a fixed order (nodesets with attributes, children of nodeset type, chains of nodes, "
            "several visits, children named as their parent); it is non-trivial if a type has a dependency that another production induces")
    assumptions = ["the names of subgraphs and vertices are free; labels identify nodes, children and attributes"]

    def prepare(self): return cprog.prepare(plain=False)

    def gen(self, ch):
        g = AgGen(ch, wide=ch.bool(0.3), deep=0.2, visits=ch.int(2, 5))
        g.all()
        if ch.bool(0.08):
            n = ch.pick(g.spec["nodes"])
            names = {low(c["name"]) for c in n["children"]} | {low(a["name"]) for a in AgLay(g.spec).attrs[low(n["name"])]}
            if n["children"] and low(n["name"]) not in names and low(n["name"]) not in ("node",):
                c = ch.pick(n["children"])
                for e in n["eqs"]:
                    for r in [e["t"]] + e["args"]:
                        if r[0] and low(r[0]) == low(c["name"]): r[0] = n["name"]
                c["name"] = n["name"]
        sets = [x for x in g.spec["nodesets"] if len(AgLay(g.spec).sem.members(x["expr"])) > 1]
        if sets and ch.bool(0.08):                   # a node named like a production of a nodeset
            n, new = ch.pick(g.spec["nodes"]), "%s_%d" % (ch.pick(sets)["name"], ch.int(1, 2))
            if low(new) not in {low(x["name"]) for k in ("nodes", "nodesets", "enums", "passes", "phases", "travs") for x in g.spec[k]}:
                rename_type(g.spec, n["name"], new)
        return {"spec": g.spec, "notation": ch.below(1 << 20)}

    def run(self, case, env):
        spec, text = case["spec"], self.show(case)
        p = cprog.Project(env)
        p.accept(text)
        lay = AgLay(spec)
        comp, prods, ids = induced(lay)
        name = {low(x["name"]): x["name"] for k in ("nodes", "nodesets") for x in spec[k]}
        d = os.path.join(p.gen, "ag_dot")
        def read(f):
            try: t = open(os.path.join(d, f), encoding="latin-1").read()
            except OSError: raise Violation("no ag_dot/%s\n%s" % (f, text))
            return dot(t, f), t
        # what the graphs have to show: {label of the production: [({label of the occurrence: (type, attributes)}, direct, induced)]}
        want = {}
        for x, occ, direct, edges in prods:
            label = {o: (name[t] if o in (None, "m") else "%s %s" % (name[t], next(k["name"] for k in lay.kids[x] if low(k["name"]) == o))) for o, t in occ.items()}
            at = {o: comp[x] if o == "m" else comp[t] for o, t in occ.items()}       # of a member: those of the nodeset
            both = {(a, b) for a, b in edges if a[0] == b[0] and (a, b) not in direct and a[1] in at[a[0]] and b[1] in at[b[0]]}
            want.setdefault(name[x], []).append(({label[o]: (t, at[o]) for o, t in occ.items() if at[o]},
                {((label[a], x1), (label[b], x2)) for (a, x1), (b, x2) in direct}, {((label[a], x1), (label[b], x2)) for (a, x1), (b, x2) in both}))
        parts = {}
        for f in ["pre_induce.dot", "partitioned.dot"]:
            top, t = read(f)
            def bad(msg): raise Violation("ag_dot/%s: %s\n%s\n%s" % (f, msg, t[:4000], text))
            got = {}
            for c in top.subs:
                m = re.match(r"Production of (\S+)$", plain(c.attr.get("label", "")))
                if not m: bad("a subgraph with the label %r" % c.attr.get("label"))
                where, occs = {}, {}
                for s in c.subs:
                    l = plain(s.attr.get("label", ""))
                    if l in occs: bad("%s: two subgraphs %s" % (m.group(1), l))
                    occs[l] = {}
                    for v, labels in s.vertices.items():
                        q = {plain(a.get("label", "")) for a in labels}
                        if len(q) != 1 or v in where: bad("vertex %s has several labels" % v)
                        q = PART.match(q.pop())
                        if not q: bad("vertex %s has the label %s" % (v, labels))
                        a = low(q.group(1))
                        if a in occs[l]: bad("%s: two vertices for %s of %s" % (m.group(1), a, l))
                        where[v] = (l, a)
                        occs[l][a] = (q.group(1), q.group(2), q.group(3))
                if any(x not in where or y not in where for x, y, _ in c.edges): bad("%s: an edge between vertices outside its boxes" % m.group(1))
                es = [((where[x], where[y]), "dotted" in a.get("style", "")) for x, y, a in c.edges]
                name1 = m.group(1)
                if name1 not in want: name1 = re.sub(r"^_|_\d+$", "", name1)
                if name1 not in want: bad("a production of %s" % m.group(1))
                got.setdefault(name1, []).append((occs, {e for e, x in es if not x}, {e for e, x in es if x}))
            if top.edges or top.vertices: bad("vertices or edges outside the productions")
            for x in want:
                if not want[x] or not any(o for o, _, _ in want[x]): continue     # nothing to show
                rest = list(got.get(x, []))
                for occ, direct, ind in want[x]:
                    hit = [c for c in rest if set(c[0]) == set(occ)]
                    if len(hit) != 1: bad("%d graphs of %s with boxes for %s" % (len(hit), x, sorted(occ)))
                    rest.remove(hit[0])
                    occs, solid, dotted = hit[0]
                    for l, (typ, at) in occ.items():
                        if set(occs[l]) != set(at): bad("production %s, %s: attributes %s, expected %s" % (x, l, sorted(occs[l]), sorted(at)))
                        for a, (orig, kind, num) in occs[l].items():
                            if f == "pre_induce.dot":
                                continue
                            if kind is None: bad("production %s, %s: no partition for %s" % (x, l, a))
                            if (kind == "I") != (at[a] == "inh"): bad("production %s, %s: %s is in partition %s%s" % (x, l, a, kind, num))
                            k = 2 * int(num) + (kind == "S")
                            if parts.setdefault((typ, a), k) != k: bad("production %s, %s: another partition for %s than elsewhere" % (x, l, a))
                    if solid != direct: bad("production %s: dependencies %s, expected %s" % (x, sorted(solid), sorted(direct)))
                    if f == "partitioned.dot" and dotted != ind: bad("production %s: induced dependencies %s, expected %s" % (x, sorted(dotted), sorted(ind)))
                    if dotted - ind: bad("production %s: induced dependencies %s are not among %s" % (x, sorted(dotted), sorted(ind)))
                if rest: bad("another graph of %s" % x)
        for t1, deps in ids.items():
            for a, b in deps:
                if (t1, a) in parts and (t1, b) in parts and parts[t1, a] > parts[t1, b]:
                    raise Violation("%s.%s depends on %s, which is in a later partition\n%s" % (t1, b, a, text))
        ind = any(i for x in want.values() for _, _, i in x)
        cl = {"partitions: %d" % min(4, len(set(parts.values())))}
        if ind: cl.add("induced")
        if any(len(x) > 1 for x in want.values()): cl.add("nodeset of several nodes")
        return Result(ind, cl, 1, {"spec": text[:2500]})

    def show(self, case): return render(case["spec"], case["notation"], ("order", "short", "case"))

check = C29()
