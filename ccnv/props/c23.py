"""Two generations of the meta-compiler: A is built from the working tree, B from the code A generates for cocogen/main.ccn."""
import os, re, shutil
from .. import build, cprog, proc
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..spec import render
from .c02 import Breaker, SPEC
from .c03 import Soup, Mangle

class Failed(Exception): pass

def second(a):
    """Builds B. Only what A does can make this fail."""
    tree = os.path.join(build.scratch(), "second")
    if not os.path.isdir(tree):
        os.makedirs(tree)
        for n in sorted(os.listdir(build.REPO)):
            if n in (".git", "docs", "idoc", "_build", "build"): continue
            s, d = os.path.join(build.REPO, n), os.path.join(tree, n)
            if os.path.isdir(s): shutil.copytree(s, d, symlinks=True)
            else: shutil.copy(s, d)
        gen = os.path.join(tree, "cocogen", "ccngen")
        shutil.rmtree(gen)
        aux = os.path.join(build.scratch(), "second-aux")
        os.makedirs(aux)
        r = proc.run([a, "--gen-dir", "ccngen", "main.ccn"], os.path.join(tree, "cocogen"), cpu=60, aux=aux)
        if r.rc != 0: raise Failed("does not accept its own specification: %s %s" % (r.why(), r.err[-600:]))
    out = os.path.join(build.scratch(), "build-second")
    exe = os.path.join(out, "cocogen", "cocogen")
    if not os.path.exists(exe):
        try:
            build.sh(["cmake", "-S", tree, "-B", out, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=RelWithDebInfo"])
            build.sh(["ninja", "-C", out])
        except build.BuildError as e: raise Failed("rebuilt from what it generates: " + str(e)[-1500:])
    return exe

def paths(a):
    """The action paths a breakpoint can name, read from what --show-structure prints."""
    aux = os.path.join(build.scratch(), "paths")
    os.makedirs(aux, exist_ok=True)
    out, path = [], []
    for l in proc.run([a, "--show-structure"], aux).out.splitlines():
        m = re.match(r"(\t*)\d+: (\w+)$", l)
        if m:
            path = path[:len(m[1])] + [m[2]]
            out.append(".".join(path))
    return out or ["x"]

def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in ds: out[os.path.relpath(os.path.join(d, f), root)] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as h: out[os.path.relpath(os.path.join(d, f), root)] = h.read()
    return out

class C23(Check):
    id = "C23"
    quick, thorough = 3000, 100000
    rule = ("a case is an input file (a well-formed specification, with or without attribute grammar, a specification with one rule broken, a random sentence of the grammar, "
            "a mangled one, or the meta-compiler's own specification) and a command line; it is non-trivial if the file has more than ten tokens")
    assumptions = ["options --profiling and the like, which are parsed and ignored, are not looked at"]

    def prepare(self):
        env = cprog.prepare(plain=False)
        try: env["second"], env["fail"] = second(env["cocogen"]), None
        except Failed as e: env["fail"] = str(e)
        env["paths"] = paths(env["cocogen"])
        return env

    def options(self, ch):
        o = []
        for _ in range(ch.weighted([(10, 0), (6, 1), (2, 2)])):
            k = ch.weighted([(3, "cc"), (3, "v"), (2, "bp"), (2, "ast"), (1, "struct"), (1, "backend"), (2, "iter"), (1, "help"), (1, "dbg")])
            if k == "cc": o.append(["--consistency-checks"])
            elif k == "v": o.append([ch.pick(["-v", "--verbose"])])
            elif k == "ast": o.append(["--show-ast"])
            elif k == "struct": o.append(["--show-structure"])
            elif k == "backend": o.append(["--backend", ch.pick(["dynamic", "typed", "x"])])
            elif k == "iter": o.append(["--ag-scheduler-max-iter", ch.pick(["0", "1", "3", "20", "1000", "x"])])
            elif k == "help": o.append([ch.pick(["--help", "--version"])])
            elif k == "dbg": o.append(["--debug"])
            else: o.append(["--breakpoint", ["@", ch.below(128), ch.pick(["", "", "", ".x", "start."])]])
        return o

    def gen(self, ch):
        from ..ag import AgGen
        from .c15 import Edits, KINDS
        kind = ch.weighted([(24, "spec"), (20, "ag"), (20, "broken"), (20, "soup"), (8, "mangled"), (1, "self")])
        notation = ch.below(1 << 20) if ch.bool(0.8) else 0
        if kind == "self": text = None
        elif kind in ("soup", "mangled"):
            t = Soup(ch).text()
            if kind == "mangled":
                m = Mangle(ch, t, t[:])
                for _ in range(ch.int(1, 4)): m.soft()
            text = " ".join(t)
        elif kind == "ag":
            g = AgGen(ch, wide=True)
            g.all()
            if ch.bool(0.3):
                k, e = ch.weighted(KINDS), Edits(g)
                if k == "edge":
                    for _ in range(ch.size(1, 6)): e.edge()
                elif k != "none": getattr(e, k)()
            text = render(g.spec, notation)
        else:
            g = Gen(ch, user=True, special=0.06, lifetimes=ch.pick([0, 0.3]), nodes=(1, 8), enums=(0, 3), nodesets=(0, 5), nsattrs=0.7, passes=(0, 3), travs=(0, 4), phases=(0, 4))
            g.all()
            if kind == "broken": getattr(Breaker(g), ch.pick(SPEC))()
            text = render(g.spec, notation)
        return {"kind": kind, "text": text, "opts": self.options(ch)}

    def run(self, case, env):
        if env["fail"]: raise Violation("the meta-compiler " + env["fail"], key="bootstrap")
        text = case["text"]
        if text is None: text = open(os.path.join(build.REPO, "cocogen", "main.ccn"), encoding="latin-1", newline="").read()
        args = []
        for o in case["opts"]:
            if o[0] == "--breakpoint" and isinstance(o[1], list):
                w = env["paths"][o[1][1] % len(env["paths"])]
                o = [o[0], o[1][2] + w if o[1][2].endswith(".") else w + o[1][2]]
            args += o
        got = []
        for k in ("cocogen", "second"):
            p = cprog.Project(env, "p")
            exe = os.path.join(p.dir, "cocogen")
            os.symlink(env[k], exe)
            r = p.generate(text, exe="./cocogen", args=args)
            os.unlink(exe)
            got.append((r, tree(p.dir)))
        (ra, ta), (rb, tb) = got
        d = None
        if ra.rc != rb.rc: d = "status %s, then %s (%s)" % (ra.rc, rb.rc, rb.why())
        elif ra.err != rb.err: d = "diagnostics differ: %r, then %r" % (ra.err[-300:], rb.err[-300:])
        elif ra.out != rb.out: d = "output differs: %r, then %r" % (ra.out[-300:], rb.out[-300:])
        elif sorted(ta) != sorted(tb): d = "files differ: %s" % sorted(set(ta) ^ set(tb))
        else:
            bad = [f for f in sorted(ta) if ta[f] != tb[f]]
            if bad: d = "contents of %s differ" % bad
        if d: raise Violation("the meta-compiler and the one rebuilt from its own output disagree (options %s): %s\n%s" % (args, d, text))
        cl = {case["kind"], "accepted" if ra.rc == 0 else "rejected"} | {a for a in args if a.startswith("-")}
        return Result(len(text.split()) > 10, cl, len(ta), {"text": text[:1500], "options": args, "status": ra.rc, "files": len(ta)})

    def show(self, case): return case["text"] or "(cocogen/main.ccn)"

check = C23()
