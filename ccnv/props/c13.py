from ..treegen import TreeCheck
from ..gen import Gen, SETW
from ..sem import Sem, low
from ..spec import render
from ..tree import Lay, Machine, enc, program, compare
from .. import cprog
from ..engine import Result
from ..cprog import must_reject

class SetGen(Gen):
    """Many nodesets, each of which is the type of a child; sets may be empty."""
    def expr(self, names, sets, depth):
        ch = self.ch
        k = ch.weighted([(4, "lit"), (4 if sets else 0, "ref"), (9 if depth else 0, "op")])
        if k == "lit": return ["lit", ch.sample(names, ch.size(1, min(5, len(names))))]
        if k == "ref": return ["ref", ch.pick(sets)]
        return ["op", ch.weighted([(4, "|"), (3, "&"), (4, "-")]), self.expr(names, sets, depth - 1), self.expr(names, sets, depth - 1)]

    def target(self, union=False):
        names, sets = [n["name"] for n in self.spec["nodes"]], [x["name"] for x in self.spec["nodesets"]]
        return self.full(lambda: self.expr(names, sets, self.ch.int(0, 3)), 0.95)

    def full(self, make, p=0.8):
        e = make()
        if not Sem(self.spec).members(e) and self.ch.bool(p):
            e = ["op", "|", e, ["lit", [self.ch.pick(self.spec["nodes"])["name"]]]]
        return e

    def types(self):
        ch, s = self.ch, self.spec
        nn = ch.int(2, 7)
        for i in range(nn):
            s["nodes"].append({"name": self.name(["Expr", "Stmt", "fun", "VAR", "BinOp", "decl_"]), "root": False, "children": [], "attrs": [], "eqs": [], "lts": []})
        s["nodes"][ch.below(nn)]["root"] = True
        names = [n["name"] for n in s["nodes"]]
        for _ in range(ch.int(2, 8)):
            sets = [x["name"] for x in s["nodesets"]]
            e = self.full(lambda: self.expr(names, sets, ch.int(0, 4)))
            s["nodesets"].append({"name": self.name(SETW), "expr": e, "attrs": []})
        for i, x in enumerate(s["nodesets"]):
            ch.pick(s["nodes"])["children"].append({"type": x["name"], "name": "kid%d" % i, "cons": ch.bool(0.3), "lts": []})
        self.nodeset_attrs()

class C13(TreeCheck):
    id = "C13"
    quick, thorough = 500, 8000
    rule = ("a case is a system of two to eight nodesets and up to three traversal targets defined by nested set expressions that refer to each other in any "
            "definition order; every (child, node type) pair is put to the generated consistency check, every (traversal, node type) pair to the "
            "dispatch, and every nodeset attribute to every route; it is non-trivial if some set that is neither empty nor everything uses an operator")
    assumptions = ["membership is observed through the generated consistency check, traversal dispatch and attribute macros"]
    profile = dict(passes=(1, 1), travs=(1, 3), phases=(0, 0), nsattrs=0.6, links=False, data=False, gates=False, cycles=False, uidrefs=0,
                   prims=["int", "string", "bool"])

    def gen(self, ch):
        g = SetGen(ch, **self.profile)
        spec = g.all()
        lay = Lay(spec)
        check, disp, attrs = [], [], []
        for n in lay.types:
            for i in range(len(lay.kids[n])):
                for t in lay.types:
                    check += [["G", 0, bare(lay, n)], ["G", 1, bare(lay, t)], ["P", 1, [0, i]], ["X", 0], ["F", 0]]
        for v in lay.travs:
            for t in lay.types:
                disp += [["G", 0, bare(lay, t)], ["T", 0, v], ["F", 0]]
        k = 1
        for t in lay.types:
            attrs.append(["G", 0, bare(lay, t)])
            for f, a in enumerate(lay.attrs[t]):
                for r in range(len(lay.routes[t, f])):
                    vk = lay.vk(a)
                    attrs.append(["W", [0], f, r, str(k) if vk == "string" else k % 2 if vk == "bool" else k, vk])
                    attrs.append(["D", 0])
                    k += 1
            attrs.append(["F", 0])
        return {"spec": spec, "notation": ch.below(1 << 20), "scripts": [check, disp, attrs]}

    def run(self, case, env):
        spec = case["spec"]
        lay = Lay(spec)
        p = cprog.Project(env)
        text = self.text(case)
        if any(t["nodes"] and not lay.sem.members(t["nodes"]) for t in spec["travs"]):
            must_reject(p.generate(text), text, "a traversal without target nodes")
            return Result(True, {"empty target"}, 1, {"spec": text[:2500]})
        p.accept(text)
        p.must_compile([p.write("prog.c", program(lay))])
        for sc in case["scripts"]:
            m = Machine(lay)
            m.run(sc)
            compare(m, p.run(stdin=enc(lay, sc)), text)
        cl, good = set(), False
        for x in spec["nodesets"]:
            mem, ops = lay.sem.members(x["expr"]), lay.sem.ops(x["expr"])
            cl |= {"op " + o for o in ops}
            if not mem: cl.add("empty")
            if x["expr"][0] == "op" and 0 < len(mem) < len(lay.types): good = True
            if x["attrs"]: cl.add("attributes")
            if lay.sem.refs(x["expr"]): cl.add("references")
        return Result(good, cl, sum(1 for sc in case["scripts"] for o in sc if o[0] in "XTW"), {"spec": text[:2500]})

    def text(self, case):
        return render(case["spec"], case["notation"], ("order", "short", "case", "space"))
    def show(self, case):
        return self.text(case)

def bare(lay, t):
    """A node with no children and fixed values."""
    ck, ca = lay.ctor(t)
    return [t, [None] * len(ck), [None if lay.vk(lay.attrs[t][i]) in ("string", "link") else 0 for i in ca], []]

check = C13()
