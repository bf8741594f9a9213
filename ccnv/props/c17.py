import copy, os, re, shutil
from .. import build, cprog, proc
from ..ag import AgGen
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..spec import render
from .c02 import Breaker, SPEC

PROFILE = dict(user=True, lifetimes=0.2, nodes=(1, 6), enums=(0, 2), nodesets=(0, 4), passes=(1, 3), travs=(0, 3), phases=(0, 4))
DIRS = ["out", "out/", "./out", "a b/out", "deep/er/still/out", "../x/out", "ABS", "ABS/", ".", "gen.d", "-q", "out//in"]

def tree(d):
    """Everything below d: path -> kind and contents."""
    out = {}
    for top, ds, fs in os.walk(d):
        for x in ds:
            p = os.path.join(top, x)
            if os.path.islink(p): fs = fs + [x]
            else: out[os.path.relpath(p, d)] = b"dir"
        for f in fs:
            p = os.path.join(top, f)
            out[os.path.relpath(p, d)] = b"link " + os.readlink(p).encode() if os.path.islink(p) else b"file " + open(p, "rb").read()
    return out

class C17(Check):
    id = "C17"
    quick, thorough = 1500, 30000
    rule = ("a case is a specification (well-formed, an attribute grammar, or one with a broken rule) and five runs of the meta-compiler with different memory "
            "layouts: into an empty directory, twice into the same, and into differently named directories that hold other files or the output of another "
            "specification; it is non-trivial if files were generated, or a specification was rejected over earlier output")
    assumptions = ["memory layouts vary by address space randomisation, allocator fill bytes, size of the environment and the sanitizer's allocator"]
    def prepare(self):
        return {"cocogen": build.cocogen(), "asan": build.cocogen("asan"), "fault": build.fault_library()}

    def gen(self, ch):
        kind = ch.weighted([(5, "spec"), (5, "ag"), (3, "bad")])
        if kind == "ag":
            spec = AgGen(ch).all()
        else:
            spec = Gen(ch, **PROFILE).all()
        case = {"kind": kind, "notation": ch.below(1 << 20)}
        if kind == "bad":
            g = Gen(ch, **PROFILE)
            case["other"] = g.all()
            spec = copy.deepcopy(g.spec)
            g.spec = spec
            b = Breaker(g)
            case["bad"] = getattr(b, ch.pick(SPEC))()
        else: case["other"] = (AgGen(ch) if ch.bool(0.3) else Gen(ch, **PROFILE)).all()
        case["spec"] = spec
        case["dirs"] = [ch.pick(DIRS) for _ in range(2)]
        case["input"] = ch.pick(["s.ccn", "./s.ccn", "ABS", "sub/s.ccn", "../w/s.ccn"])
        case["fill"] = [ch.int(1, 255) for _ in range(3)]
        return case

    def once(self, env, box, text, d, inp, fill=None, exe=None, before=None, missing=True):
        """One run in box/w. Returns (Out, {path relative to the output directory: contents} of what it wrote)."""
        work = os.path.join(box, "w")
        real = os.path.join(box, "abs") if d.startswith("ABS") else os.path.normpath(os.path.join(work, d))
        arg = d.replace("ABS", os.path.join(box, "abs"))
        src = os.path.join(work, "s.ccn") if inp == "ABS" else os.path.join(work, inp)
        os.makedirs(os.path.dirname(os.path.normpath(src)), exist_ok=True)
        open(os.path.normpath(src), "w", encoding="latin-1", newline="").write(text)
        # parents of the output directory exist
        os.makedirs(os.path.dirname(real) if real != work else work, exist_ok=True)
        if before: before(real)
        old = tree(box)
        e = dict(proc.ENV, CCNV_PAD="x" * (fill or 0) * 16)
        if fill: e["MALLOC_PERTURB_"] = str(fill)
        aux = env["dir"]
        r = proc.run([exe or env["cocogen"], "--gen-dir", arg, src if inp == "ABS" else inp], work, cpu=40, env=e, aux=aux)
        new = tree(box)
        rel = os.path.relpath(real, box)
        inside = lambda p: p == rel or p.startswith(rel + "/") or rel == "."
        bad = [p for p in sorted(set(old) | set(new)) if old.get(p) != new.get(p) and not inside(p)]
        if bad: raise Violation("with --gen-dir %r it changed %s, which is outside\n%s" % (arg, bad[:5], text))
        s = os.path.relpath(os.path.normpath(src), box)
        if old[s] != new.get(s): raise Violation("the input file was changed\n%s" % text)
        gone = [p for p in old if p not in new]
        if gone: raise Violation("it removed %s\n%s" % (gone[:5], text))
        out = {os.path.relpath(p, rel): c for p, c in new.items() if inside(p) and p != rel and p != s}
        prev = {os.path.relpath(p, rel): c for p, c in old.items() if inside(p)}
        return r, out, prev

    def run(self, case, env):
        text = self.show(case)
        other = render(case["other"], 0)
        n = [0]
        def box():
            n[0] += 1
            b = os.path.join(env["dir"], "b%d" % n[0])
            shutil.rmtree(b, ignore_errors=True)
            os.makedirs(os.path.join(b, "w"))
            return b
        def check(r, what):
            if r.crashed or r.rc not in (0, 1): raise Violation("%s: %s\n%s\n%s" % (what, r.why(), cprog.squeeze(r.err), text))
            return r
        def compare(a, b, what):
            for p in sorted(set(a) | set(b)):
                if a.get(p) != b.get(p):
                    x, y = a.get(p, b"").decode("latin-1").splitlines(), b.get(p, b"").decode("latin-1").splitlines()
                    i = next((i for i, (u, v) in enumerate(zip(x + ["<end>"], y + ["<end>"])) if u != v), 0)
                    raise Violation("%s: %s differs: %s" % (what, p, "missing" if p not in a or p not in b else "line %d: %r and %r" % (i + 1, x[i:i + 1], y[i:i + 1])) + "\n" + text, key=None)
        inp, fill = case["input"], case["fill"]
        b0 = box()
        r0, out0, _ = self.once(env, b0, text, "out", "s.ccn")
        check(r0, "first run")
        if case["kind"] != "bad" and r0.rc != 0: raise Violation("well-formed specification not accepted: %s\n%s" % (cprog.squeeze(r0.err), text))
        if case["kind"] == "bad" and case["bad"] and r0.rc == 0: raise Violation("accepted although it has %s\n%s" % (case["bad"], text))
        # again into the same directory
        r, out, _ = self.once(env, b0, text, "out", "s.ccn", fill[0])
        if r.rc != r0.rc: raise Violation("status %d, and %d the second time\n%s" % (r0.rc, r.rc, text))
        compare(out0, out, "second run over its own output")
        # into other directories
        r, out, prev = self.once(env, box(), text, case["dirs"][0], inp, fill[1])
        if r.rc != r0.rc: raise Violation("status %d, and %d with --gen-dir %r\n%s" % (r0.rc, r.rc, case["dirs"][0], text))
        compare(out0, {p: c for p, c in out.items() if p in out0 or c != prev.get(p)}, "into the directory %r from %r" % (case["dirs"][0], inp))
        # over the output of another specification and files of the user
        b = box()
        def before(d):
            w = os.path.join(env["dir"], "tmp.ccn")
            open(w, "w", encoding="latin-1").write(other)
            r = proc.run([env["cocogen"], "--gen-dir", d, w], b, cpu=40, aux=env["dir"])
            if r.rc != 0: raise Violation("well-formed specification not accepted: %s\n%s" % (cprog.squeeze(r.err), other))
            open(os.path.join(d, "mine.c"), "w").write("int mine;\n")
            open(os.path.join(d, "user", "mine.c"), "w").write("int mine;\n")
        r, out, prev = self.once(env, b, text, case["dirs"][1], inp, fill[2], before=before)
        if r.rc != r0.rc: raise Violation("status %d, but %d over earlier output\n%s" % (r0.rc, r.rc, text))
        if r.rc == 0: compare(out0, {p: c for p, c in out.items() if p in out0}, "over the output of another specification in %r" % case["dirs"][1])
        for p in out:
            if p not in out0 and out[p] != prev.get(p): raise Violation("over other output it writes %s, into an empty directory it does not\n%s" % (p, text))
        for p in ("mine.c", "user/mine.c"):
            if out.get(p) != prev[p]: raise Violation("it changed %s\n%s" % (p, text))
        # no directory at all: the run is contained by a library that refuses to write outside of the box
        if case["fill"][0] % 8 == 0:
            b = box()
            open(os.path.join(b, "w", "s.ccn"), "w", encoding="latin-1", newline="").write(text)
            old = tree(b)
            r = proc.run([env["cocogen"], "--gen-dir", "", "s.ccn"], os.path.join(b, "w"), cpu=40, aux=env["dir"],
                         env=dict(proc.ENV, LD_PRELOAD=env["fault"], FAULT_BOX=os.path.join(b, "w")))
            check(r, "with --gen-dir ''")
            if "!OUTSIDE" in r.err: raise Violation("with --gen-dir '' it writes outside of the working directory: %s" % cprog.squeeze(r.err))
            if r.rc and tree(b) != old: raise Violation("with --gen-dir '' it exits with %d but writes files" % r.rc)
        # another allocator
        r, out, _ = self.once(env, box(), text, "out", "s.ccn", exe=env["asan"])
        check(r, "with sanitizers")
        if r.rc != r0.rc: raise Violation("status %d, and %d with another memory layout\n%s" % (r0.rc, r.rc, text))
        compare(out0, out, "with another memory layout")
        return Result(True, {case["kind"], "accepted" if r0.rc == 0 else "rejected", "dir " + case["dirs"][0], "input " + inp}, 5,
                      {"spec": text[:1500], "files": len(out0), "dirs": case["dirs"], "input": inp})

    def show(self, case): return render(case["spec"], case["notation"])

check = C17()
