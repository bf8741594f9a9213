import copy, os, re, shutil, struct
from .. import build, cprog, proc
from ..ag import AgGen
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..spec import render
from ..tree import Lay, enc, program
from ..treegen import ScriptGen, MICRO, OPS
from .c02 import Breaker, SPEC
from .c17 import tree

PROFILE = dict(user=True, lifetimes=0.2, nodes=(1, 6), enums=(0, 2), nodesets=(0, 4), passes=(1, 3), travs=(0, 3), phases=(0, 4))
TREES = dict(nodes=(1, 5), passes=(0, 1), travs=(1, 3), phases=(0, 0), nsattrs=0.3, attrs=4, children=4, enums=(0, 1),
             user=False, prims=["string", "int", "string", "double"])
SCALE = 10000

class C27(Check):
    id = "C27"
    quick, thorough = 700, 12000
    rule = ("a case is a specification (well-formed, an attribute grammar, or one with a broken rule) and eight faults for runs of the meta-compiler (an allocation "
            "chosen by number or by the place that asks for it, alone or with all later ones; the creation of a directory or output file; a full device; "
            "a limit on the size of files; an unreadable input), or a program that builds, changes, traverses, copies and frees trees and eight points at which "
            "its memory runs out; it is non-trivial if some fault happened and the run reported it")
    assumptions = ["allocations that fail are those of the program's own code; the C library's internal ones succeed",
                   "a fault that changes nothing (exit status 0, complete output) need not be reported"]

    def prepare(self):
        env = cprog.prepare(asan=True, plain=False)
        env["fault"] = build.fault_library()
        return env

    def gen(self, ch):
        kind = ch.weighted([(5, "spec"), (3, "ag"), (2, "bad"), (4, "program")])
        if kind == "program":
            spec = Gen(ch, **TREES).all()
            lay = Lay(spec)
            return {"kind": kind, "spec": spec, "scripts": [ScriptGen(ch, lay, OPS, MICRO).script(ch.int(4, 16)) for _ in range(2)],
                    "faults": [ch.below(SCALE) for _ in range(8)]}
        case = {"kind": kind, "notation": ch.below(1 << 20)}
        if kind == "ag": spec = AgGen(ch).all()
        else: spec = Gen(ch, **PROFILE).all()
        if kind == "bad":
            g = Gen(ch, **PROFILE)
            g.all()
            spec = g.spec = copy.deepcopy(g.spec)
            case["bad"] = getattr(Breaker(g), ch.pick(SPEC))()
        case["spec"] = spec
        case["show"] = int(ch.bool(0.2))
        case["faults"] = []
        for _ in range(8):
            w = ch.weighted([(6, "mem"), (6, "site"), (2, "open"), (3, "full"), (1, "mkdir"), (1, "read"), (2, "size"), (1, "taken")])
            case["faults"].append([w, ch.below(SCALE), ch.below(SCALE), int(ch.bool(0.4))])
        return case

    def run(self, case, env):
        return self.program(case, env) if case["kind"] == "program" else self.cocogen(case, env)

    def program(self, case, env):
        lay = Lay(case["spec"])
        p = cprog.Project(env)
        text = render(case["spec"])
        p.accept(text)
        p.must_compile([p.write("prog.c", program(lay))], asan=True)
        cl, hit, evals = set(), 0, 0
        for i, sc in enumerate(case["scripts"]):
            inp = enc(lay, sc)
            cnt = os.path.join(p.dir, "count")
            def once(k):
                return proc.run([p.exe], p.dir, stdin=inp, env=dict(proc.ENV, CV_FAIL=str(k), CV_COUNT=cnt))
            base = once(0)
            if base.rc != 0: raise Violation("a program that has enough memory: %s\n%s\n%s" % (base.why(), inp, text))
            n = int(open(cnt).read())
            for f in case["faults"][i::2]:
                if not n: continue
                k = 1 + f * n // SCALE
                r = once(k)
                evals += 1
                what = "allocation %d of %d fails" % (k, n)
                if r.crashed: raise Violation("%s: %s\n%s\n%s" % (what, r.why(), inp, text))
                if r.rc == 0:
                    if r.out != base.out: raise Violation("%s: the program goes on as if nothing happened, with other results\n%s\n%s" % (what, inp, text))
                    cl.add("tolerated")
                    continue
                if r.rc != 1 or "out of memory" not in r.err.lower(): raise Violation("%s: status %d, message %r\n%s\n%s" % (what, r.rc, r.err[:300], inp, text))
                if not base.out.startswith(r.out): raise Violation("%s: it went on and printed %r before it stopped\n%s\n%s" % (what, r.out[-300:], inp, text))
                hit += 1
                cl.add("program")
        return Result(hit > 0, cl, evals, {"spec": text[:1500], "reported": hit})

    def cocogen(self, case, env):
        text = render(case["spec"], case["notation"])
        box = os.path.join(env["dir"], "box")
        shutil.rmtree(box, ignore_errors=True)
        os.makedirs(box)
        log = os.path.join(env["dir"], "fault.log")
        with open(os.path.join(box, "s.ccn"), "w", encoding="latin-1", newline="") as f: f.write(text)
        def once(fault, before=None):
            out = os.path.join(box, "out")
            shutil.rmtree(out, ignore_errors=True)
            if before: before(out)
            if os.path.exists(log): os.unlink(log)
            e = dict(proc.ENV, LD_PRELOAD=env["fault"], FAULT=fault, FAULT_LOG=log, FAULT_BOX=box)
            r = proc.run([env["cocogen"], "--gen-dir", "out"] + (["--show-ast"] if case["show"] else []) + ["s.ccn"], box, cpu=20, env=e, aux=env["dir"])
            return r, tree(out) if os.path.isdir(out) else {}
        base, want = once("none 0 0")
        if base.crashed: raise Violation("without faults: %s\n%s" % (base.why(), text))
        if case["kind"] != "bad" and base.rc != 0: raise Violation("well-formed specification not accepted: %s\n%s" % (cprog.squeeze(base.err), text))
        v = struct.unpack("<%dQ" % (os.path.getsize(log) // 8), open(log, "rb").read())
        count = dict(mem=v[0], open=v[1], full=v[1], read=v[2], mkdir=v[3])
        sites = {}
        for i, a in enumerate(v[5:]): sites.setdefault(a, []).append(i + 1)
        sites = [sites[a] for a in sorted(sites)]
        files = sorted(x for x in want if want[x].startswith(b"file "))
        cl, hits = set(), 0
        for w, a, b, sticky in case["faults"]:
            before = None
            if w == "site":
                if not sites: continue
                l = sites[a * len(sites) // SCALE]
                fault = "mem %d %d" % (l[b * len(l) // SCALE], sticky)
            elif w == "size":
                fault = "size %d 0" % (500 + a * (max([len(want[x]) for x in files] + [1]) + 100) // SCALE)
            elif w == "taken":
                if not files: continue
                x = files[a * len(files) // SCALE]
                before = lambda out: os.makedirs(os.path.join(out, x))
                fault = "none 0 0"
            else:
                if not count[w]: continue
                fault = "%s %d %d" % (w, 1 + a * count[w] // SCALE, sticky)
            r, got = once(fault, before)
            what = "%s (%s)" % (fault, {"mem": "that allocation fails", "site": "that allocation fails", "open": "that output file cannot be created", "full": "that output file is on a full device",
                    "mkdir": "that directory cannot be created", "read": "the input cannot be read", "size": "files can not get longer", "taken": "a directory is in the place of an output file"}[w])
            if r.crashed: raise Violation("%s: %s\n%s\n%s" % (what, r.why(), cprog.squeeze(r.err), text))
            if "!OUTSIDE" in r.err: raise Violation("%s: it writes outside of the directory: %s\n%s" % (what, r.err[:300], text))
            if r.rc == 0:
                if base.rc != 0: raise Violation("%s: it exits with 0, but the specification has %s\n%s" % (what, case.get("bad"), text))
                bad = [x for x in sorted(set(want) | set(got)) if want.get(x) != got.get(x)]
                if bad: raise Violation("%s: it exits with 0, but %s is incomplete or different\n%s" % (what, bad[:4], text))
                cl.add(w + " no effect")
            else:
                if base.rc == 0 and r.err.strip() == base.err.strip(): raise Violation("%s: status %d without a message\n%s" % (what, r.rc, text))
                hits += 1
                cl.add(w)
        return Result(hits > 0, cl | {case["kind"]}, len(case["faults"]), {"spec": text[:1500], "faults": case["faults"], "reported": hits})

    def show(self, case): return render(case["spec"], case.get("notation", 0))

check = C27()
