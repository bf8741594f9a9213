import os, re, subprocess
from .. import build, cprog, proc
from ..engine import Check, Result, Violation
from ..gen import FIELDS, Gen
from ..sem import Sem, low, up
from ..spec import PRIMS, USER_TYPES, USER_TYPES_H, render

class DeclGen(Gen):
    """Mixed letter case everywhere: uids, functions, fields, traversal data, enums."""
    def recase(self, w):
        k = self.ch.below(4)
        return w if k < 2 else w.upper() if k == 2 else w.capitalize()
    def types(self):
        super().types()
        for e in self.spec["enums"]: e["prefix"] = self.name(["EP", "k", "Pr_", "tX"])
    def trav(self, data=None):
        t = super().trav(data)
        from ..spec import CKEYWORDS, KEYWORDS
        for f in t["data"]:
            w = self.recase(f["name"])
            if w not in KEYWORDS and w not in CKEYWORDS: f["name"] = w
        return t

def ctype(sem, a):
    k = a["t"]
    if k[0] == "prim": return PRIMS[k[1]]
    if k[0] == "user": return k[1]
    return "enum " + sem.enum[low(k[1])]["name"] if low(k[1]) in sem.enum else "node_st *"

def handlers(sem, t): return {up(t["uid"]) + n for n in sem.targets(t)}
def lifecycle(t): return {up(t["uid"]) + "init", up(t["uid"]) + "fini"} if t["data"] else set()
def helpers(spec): return {"TRAV" + low(c["name"]) for n in spec["nodes"] for c in n["children"]}

def program(spec):
    sem = Sem(spec)
    a = []
    def same(expr, typ): a.append("__builtin_types_compatible_p(__typeof__(%s), %s)" % (expr, typ))
    N = "(node_st *)0"
    for n in spec["nodes"]:
        kids, attrs = sem.ctor(low(n["name"]))
        args = ["node_st *"] * len(kids) + [ctype(sem, x) for x in attrs]
        same("&AST" + low(n["name"]), "node_st *(*)(%s)" % (", ".join(args) or "void"))
        for c in n["children"]: same("&%s_%s(%s)" % (up(n["name"]), up(c["name"]), N), "node_st **")
        for x in sem.attrs(low(n["name"])): same("&%s_%s(%s)" % (up(n["name"]), up(x["name"]), N), ctype(sem, x) + " *")
    for s in spec["nodesets"]:
        for x in sem.nodeset_attrs(low(s["name"])): same("&%s_%s(%s)" % (up(s["name"]), up(x["name"]), N), ctype(sem, x) + " *")
    for m, t in (("FILENAME", "char *"),): same("NODE_%s(%s)" % (m, N), t)
    a.append("(__typeof__(NODE_TYPE(%s)))NT_NULL == NT_NULL" % N)
    fn = "node_st *(*)(node_st *)"
    for t in spec["travs"]:
        for h in sorted(handlers(sem, t)): same("&" + h, fn)
        if t["data"]:
            u = low(t["uid"])
            for f in t["data"]: same("&((struct data_%s *)0)->%s" % (u, f["name"]), ctype(sem, f) + " *")
            same("DATA_%s_GET()" % up(u), "struct data_%s *" % u)
            # nothing but the declared fields: the same fields in any order fit in no less, one more would not fit
            a.append("sizeof(struct data_%s) <= %s" % (u, " + ".join("sizeof(%s) + 7" % ctype(sem, f) for f in t["data"])))
    for p in spec["passes"]: same("&" + sem.pass_func(p), fn)
    for h in sorted(helpers(spec)): same("&" + h, fn)
    inc = ["ccn/ccn.h", "ccngen/ast.h", "ccngen/enum.h", "ccngen/trav.h", "ccngen/trav_data.h", "ccngen/actions.h"]
    return "".join('#include "%s"\n' % i for i in inc) + "".join('_Static_assert(%s, "%s");\n' % (x, x) for x in a), len(a)

def nm(paths, cwd):
    r = subprocess.run(["nm", "-P"] + paths, cwd=cwd, capture_output=True, text=True, check=True)
    d, u = set(), set()
    for l in r.stdout.splitlines():
        w = l.split()
        if len(w) < 2: continue
        if w[1] == "U": u.add(w[0])
        elif w[1].isupper() or w[1] in "uvw": d.add(w[0])
    return d, u

def libc_symbols():
    out = set()
    for lib in ("libc.so.6", "libm.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + lib], capture_output=True, text=True).stdout.strip()
        r = subprocess.run(["nm", "-DP", "--defined-only", p], capture_output=True, text=True)
        out |= {l.split()[0].split("@")[0] for l in r.stdout.splitlines() if l}
    return out

class C24(Check):
    id = "C24"
    quick, thorough = 900, 16000
    rule = ("a case is a specification with nodes, nodesets, traversals with and without data, passes with and without uid and func, in mixed letter case; the types "
            "of all constructors, fields, handlers, pass functions, helpers and data structures are stated as static assertions about the generated headers, and "
            "in a third of the cases the functions that the generated code leaves to the user and those its skeletons define are read from the object files; it "
            "is non-trivial if it has a traversal with data, a pass with a uid or func, and at least ten assertions")
    assumptions = ["user types are scalar typedefs in user_types.h"]

    def prepare(self):
        env = cprog.prepare(alloc=False)
        env["libc"] = libc_symbols()
        return env

    def gen(self, ch):
        g = DeclGen(ch, user=True, nodes=(1, 6), enums=(0, 3), nodesets=(0, 4), passes=(0, 4), travs=(1, 4), phases=(0, 3), mixedfields=0.5)
        return {"spec": g.all(), "notation": ch.below(1 << 20) if ch.bool(0.8) else 0, "link": ch.bool(0.35)}

    def run(self, case, env):
        spec, text = case["spec"], self.show(case)
        sem = Sem(spec)
        p = cprog.Project(env)
        p.accept(text)
        src, n = program(spec)
        f = p.write("decl.c", src)
        inc = ["-I", p.gen, "-I", p.dir, "-I", os.path.join(build.REPO, "copra"), "-I", os.path.join(build.REPO, "palm", "include")]
        r = proc.run(["gcc", "-fsyntax-only", "-w", "-Werror=implicit-function-declaration"] + inc + [f], p.dir, cpu=60)
        if r.rc != 0:
            bad = [l for l in r.err.splitlines() if "error" in l]
            raise Violation("generated declarations: %s\n%s" % ("; ".join(bad)[:800] or r.why(), text))
        cl = set()
        if case["link"]:
            self.objects(p, spec, sem, env, inc, text)
            cl.add("object files read")
        if any(t["data"] for t in spec["travs"]): cl.add("traversal data")
        if any(f["name"] != low(f["name"]) for t in spec["travs"] for f in t["data"]): cl.add("mixed-case data")
        if any(ps["uid"] and not ps["func"] for ps in spec["passes"]): cl.add("pass with uid")
        if any(ps["func"] for ps in spec["passes"]): cl.add("pass with func")
        names = [c["name"] for nd in spec["nodes"] for c in nd["children"]]
        if len({low(x) for x in names}) < len(set(names)): cl.add("children that differ in case")
        return Result("traversal data" in cl and bool(cl & {"pass with uid", "pass with func"}) and n >= 10, cl, n, {"spec": text[:2000], "assertions": n})

    def objects(self, p, spec, sem, env, inc, text):
        d = os.path.join(p.dir, "obj")
        os.makedirs(os.path.join(d, "user"), exist_ok=True)
        user = os.path.join(p.gen, "user")
        us = sorted(x for x in os.listdir(user) if x.endswith(".c"))
        gs = p.csources()
        core = os.path.join(build.REPO, "copra", "src")
        cs = [os.path.join(core, x) for x in sorted(os.listdir(core)) if x.endswith(".c")]
        objs = []
        for sub, files in (("gen", gs), ("user", [os.path.join(user, u) for u in us]), ("core", cs)):
            w = os.path.join(d, sub)
            os.makedirs(w, exist_ok=True)
            for x in os.listdir(w): os.unlink(os.path.join(w, x))
            r = proc.run(["gcc", "-c", "-O0", "-w"] + inc + files, w, cpu=120, aux=p.dir)
            if r.rc != 0: raise Violation("generated code does not compile: %s\n%s" % (cprog.squeeze(r.err), text))
            objs.append([os.path.join(w, os.path.basename(x)[:-2] + ".o") for x in files])
        gd, gu = nm(objs[0], d)
        cd, cu = nm(objs[2], d)
        pd, pu = nm(env["palm-plain"], d)
        passes = {sem.pass_func(x) for x in spec["passes"]}
        gates = {x["gate"] for x in spec["phases"] if x.get("gate")}
        want = set().union(passes, gates, *[handlers(sem, t) | lifecycle(t) for t in spec["travs"]])
        left = gu - gd - cd - pd
        left = {x for x in left if x in want or (x not in env["libc"] and not x.startswith("_GLOBAL_"))}
        if left != want:
            raise Violation("functions for the user to write: %s not needed by the generated code, %s not documented\n%s" % (sorted(want - left), sorted(left - want), text))
        have = {x for x in gd if x.startswith("TRAV") and x not in cd and not x.startswith("TRAVdata")}
        if have != helpers(spec): raise Violation("helpers for children %s instead of %s\n%s" % (sorted(have), sorted(helpers(spec)), text))
        ast = {x for x in gd if x.startswith("AST")}
        if ast != {"AST" + x for x in sem.order}: raise Violation("constructors %s\n%s" % (sorted(ast), text))
        for u, o in zip(us, objs[1]):
            defd, _ = nm([o], d)
            if u == "passes.c": exp = passes
            else:
                t = [t for t in spec["travs"] if u == "trav_%s.c" % low(t["name"])]
                if not t: raise Violation("skeleton %s for no traversal\n%s" % (u, text))
                exp = handlers(sem, t[0]) | lifecycle(t[0])
            if defd != exp: raise Violation("skeleton %s: defines %s instead of %s\n%s" % (u, sorted(defd - exp), sorted(exp - defd), text))
        miss = {"trav_%s.c" % low(t["name"]) for t in spec["travs"]} - set(us)
        if miss: raise Violation("no skeleton %s\n%s" % (sorted(miss), text))

    def show(self, case): return render(case["spec"], case["notation"])

check = C24()
