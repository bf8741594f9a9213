from .. import build, cprog, proc
from ..engine import Check, Result, Violation
from ..ag import AgGen
from ..gen import Gen, crowd
from ..spec import render
from ..sem import Sem, low

STRICT = ["-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"]

def main_c(spec):
    gates = sorted({p["gate"] for p in spec["phases"] if p.get("gate")})
    return ('#include <stdbool.h>\n#include "ccn/ccn.h"\n#include "ccn/phase_driver.h"\n#include "ccngen/ast.h"\n'
            + "".join("bool %s() { return true; }\n" % g for g in gates)
            + "void BreakpointHandler(node_st *node) { (void)node; }\nint main() { CCNrun(NULL); return 0; }\n")

def features(spec):
    f = set()
    for n in spec["nodes"]:
        if not n["children"]: f.add("leaf node")
        if not n["attrs"]: f.add("node without attributes")
        if n["lts"]: f.add("node lifetime")
        if n["eqs"]: f.add("equations")
        for c in n["children"]:
            if c["lts"]: f.add("child lifetime")
        for a in n["attrs"]:
            if a.get("inh"): f.add("inherited")
            if a.get("syn"): f.add("synthesized")
            f.add("attr " + (a["t"][1] if a["t"][0] == "prim" else "user" if a["t"][0] == "user" else "ref"))
            if a.get("lts"): f.add("attr lifetime")
    for x in spec["nodesets"]:
        if x["attrs"]: f.add("nodeset attributes")
        if x["expr"][0] != "lit": f.add("set operation")
    for t in spec["travs"]:
        f.add("trav all" if not t["nodes"] else "trav some")
        if t["data"]: f.add("travdata")
    for p in spec["passes"]:
        f.add("pass" + (" uid" if p["uid"] else "") + (" func" if p["func"] else ""))
    for p in spec["phases"]:
        f.add("cycle" if p["cycle"] else "phase")
        if p["gate"]: f.add("gate")
        if p["uid"]: f.add("phase uid")
    if spec["enums"]: f.add("enum")
    return f

class C01(Check):
    id = "C01"
    quick, thorough = 700, 12000
    rule = ("a case is a well-formed specification with random nodes, nodesets, enums, attributes of every kind, lifetimes, equations, passes, "
            "traversals, phases and cycles in random notation (long or short, inline or top-level, any order, letter case and comments), "
            "compiled with its generated skeletons; it is non-trivial if it uses at least six of the counted features")
    assumptions = ["user types are scalar typedefs in user_types.h", "names do not clash with identifiers of C itself, such as linux or malloc"]

    def prepare(self):
        return cprog.prepare(alloc=False)

    def gen(self, ch):
        if ch.bool(0.25):
            spec = AgGen(ch, wide=True, nodes=(1, 6), passes=(0, 3), travs=(0, 3), phases=(0, 3), gates=True, cycles=True).all()
            if ch.bool(0.3): spec = crowd(ch, spec)
            return {"spec": spec, "notation": ch.below(1 << 20) if ch.bool(0.8) else 0}
        big = ch.bool(0.2)
        spec = Gen(ch, user=True, lifetimes=ch.pick([0, 0, 0.2, 0.5]), nodes=(1, 12 if big else 7), enums=(0, 3), nodesets=(0, 5), passes=(0, 4),
                   travs=(0, 4), phases=(0, 6 if big else 4)).all()
        if ch.bool(0.25): spec = crowd(ch, spec)
        return {"spec": spec, "notation": ch.below(1 << 20) if ch.bool(0.8) else 0}

    def run(self, case, env):
        text = render(case["spec"], case["notation"])
        p = cprog.Project(env)
        p.accept(text)
        m = p.write("main.c", main_c(case["spec"]))
        try:
            p.must_compile([m], user=True, alloc=False, strict=True, flags=STRICT)
        except Violation as v:
            raise Violation("%s\n%s" % (v, text))
        f = features(case["spec"])
        return Result(len(f) >= 6, f, 1, text if len(text) < 3000 else text[:3000] + "...")

    def show(self, case):
        return render(case["spec"], case["notation"])

check = C01()
