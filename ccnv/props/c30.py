"""The command line of cocogen: what options mean, however they are spelled."""
import os, re, shutil
from .. import cprog, proc
from ..ag import AgGen
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..spec import render
from .c02 import Breaker, SPEC
from .c23 import paths, tree

NOARG = ["verbose", "consistency-checks", "show-ast"]
EARLY = ("scanAndParse", "semantic", "unpackLifetimes")
FILES = ["s.ccn", "./s.ccn", "sub/s.ccn", "@/s.ccn", "sub/../s.ccn", "sub/a b.ccn", "-s.ccn", "--gen-dir", "s", "v"]
DIRS = ["out", "out/", "./out", "@/out", "sub/out/", "a b", "x=y", "-", "-d", "out.ccn"]

class C30(Check):
    id = "C30"
    quick, thorough = 4000, 100000
    rule = ("a case is a specification (most of them well formed, some with a rule broken) and a list of options with several spellings of it "
            "(order, long or short, joined or apart, place of the file, name of the file and the directory, options given twice), possibly with something wrong; "
            "it is non-trivial if at least two spellings differ and there are two options or more, or something wrong")
    assumptions = ["abbreviated long options, and the options Usage does not list other than --gen-dir and --version, are not looked at"]

    def prepare(self):
        env = cprog.prepare(plain=False)
        env["paths"] = paths(env["cocogen"])
        return env

    def gen(self, ch):
        kind = ch.weighted([(6, "spec"), (3, "ag"), (2, "broken")])
        if kind == "ag":
            g = AgGen(ch, wide=True)
            g.all()
        else:
            g = Gen(ch, user=True, special=0.06, nodes=(1, 4), enums=(0, 2), nodesets=(0, 2), passes=(0, 3), travs=(0, 2), phases=(0, 2))
            g.all()
            if kind == "broken": getattr(Breaker(g), ch.pick(SPEC))()
        # what is asked for
        o = []
        for _ in range(ch.size(0, 5)):
            k = ch.weighted([(4, "flag"), (3, "gen-dir"), (2, "iter"), (2, "breakpoint"), (1, "backend")])
            if k == "flag": o.append([ch.pick(NOARG), None])
            elif k == "gen-dir": o.append([k, ch.pick(DIRS)])
            elif k == "iter": o.append(["ag-scheduler-max-iter", ch.pick(["1000", "2000", "1000000", "+3000", "0900", "08000", "0", "1", "2"])])
            elif k == "backend": o.append([k, "dynamic"])
            else: o.append([k, ch.below(128)])
        wrong = ch.weighted([(6, None), (2, "bad"), (1, "stop")])
        if wrong == "stop": o.insert(ch.below(len(o) + 1), [ch.pick(["help", "version", "show-structure"]), None])
        elif wrong == "bad":
            wrong = ch.pick(["unknown", "missing", "flag", "number", "nofile", "files", "absent", "isdir"])
            at = ch.below(len(o) + 1)
            if wrong == "unknown": o.insert(at, ["!" + ch.pick(["--nonsense", "-x", "-vq", "--gendir=out", "--breakpoint-at", "-0"]), None])
            elif wrong == "missing": o.append(["!" + ch.pick(["--gen-dir", "--breakpoint", "-b", "-vb", "--ag-scheduler-max-iter", "--backend"]), None])
            elif wrong == "flag": o.insert(at, ["!--%s=%s" % (ch.pick(NOARG + ["help", "version", "show-structure"]), ch.pick(["1", "", "s.ccn"])), None])
            elif wrong == "number": o.insert(at, ["ag-scheduler-max-iter", ch.pick(["", "x", "ten", "12abc", "3.5", "--", "5 6"])])
        return {"kind": kind, "spec": g.spec, "notation": ch.below(1 << 20), "opts": o, "wrong": wrong, "file": ch.pick(FILES) if ch.bool(0.5) else "s.ccn",
                "spell": [[ch.below(1 << 30) for _ in range(4)] for _ in range(3)]}

    def args(self, case, env, d, seed):
        """One spelling. Options of one name keep their order, as the last of them counts; the one something is wrong with keeps its neighbours' order too."""
        import random
        r = random.Random(seed)
        o = [list(x) for x in case["opts"]]
        if not any(n[0] == "!" or n in ("help", "version", "show-structure") for n, _ in o) and case["wrong"] != "number":
            names = [n for n, _ in o]
            r.shuffle(names)
            pool = {}
            for n, a in o: pool.setdefault(n, []).append(a)
            o = [[n, pool[n].pop(0)] for n in names]
        words = []                                   # groups that stay together
        for n, a in o:
            if isinstance(a, int): a = env["paths"][a % len(env["paths"])]
            if isinstance(a, str): a = a.replace("@", d)
            if n[0] == "!": words.append([n[1:]])
            elif a is None:
                s = "--" + n
                if n == "verbose" and r.random() < 0.6: s = "-v"
                words.append([s])
                if n == "verbose" and r.random() < 0.2: words.append([r.choice(["-v", "--verbose"])])
            elif n == "breakpoint" and r.random() < 0.6:
                k = r.randrange(2)
                words.append([["-b", a], ["-b" + a]][k])
            elif r.random() < 0.5: words.append(["--%s=%s" % (n, a)])
            else: words.append(["--" + n, a])
        # a -v before a -b may be joined with it
        for i in range(len(words) - 1):
            if words[i] == ["-v"] and words[i + 1][0].startswith("-b") and r.random() < 0.7:
                words[i + 1][0] = "-v" + words[i + 1][0][1:]
                words[i] = []
        f = case["file"].replace("@", d)
        files = {"nofile": [], "files": [f, f], "absent": ["none.ccn"], "isdir": ["sub"]}.get(case["wrong"], [f])
        if case["wrong"] == "missing": at = r.randrange(len(words)) if words else 0
        else: at = r.randrange(len(words) + 1)
        if files and files[0].startswith("-"): 
            if case["wrong"] == "missing": files, at = ["s.ccn"], min(at, max(0, len(words) - 1))
            else: words += [["--"], files]; files = []
        elif case["wrong"] != "missing" and r.random() < 0.2:
            words += [["--"], files]; files = []
        for x in files: words.insert(at, [x])
        return [w for g in words for w in g]

    def run(self, case, env):
        text = self.show(case)
        env2 = dict(proc.ENV)
        env2.pop("POSIXLY_CORRECT", None)
        opts, wrong = case["opts"], case["wrong"]
        ref = cprog.Project(env, "ref")
        r0 = ref.generate(text)
        if case["kind"] != "broken": ref.accepted(r0, text)
        refused = r0.rc != 0
        want = tree(ref.gen)
        gd = ([a for n, a in opts if n == "gen-dir"] or ["ccngen/"])[-1]
        seen, got = set(), []
        for seed in case["spell"]:
            seed = seed[0]
            d = os.path.join(env["dir"], "p")
            aux = os.path.join(env["dir"], "aux")
            for x in (d, aux): shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
            os.makedirs(os.path.join(d, "sub"))
            f = os.path.join(d, case["file"].replace("@/", ""))
            for x in (f, os.path.join(d, "s.ccn")):
                with open(x, "w", encoding="latin-1", newline="") as h: h.write(text)
            before = tree(d)
            a = self.args(case, env, d, seed)
            if tuple(a) in seen: continue
            seen.add(tuple(a))
            r = proc.run([env["cocogen"]] + a, d, cpu=20, env=env2, aux=aux)
            after = tree(d)
            got.append((a, r, after))
            def bad(msg): raise Violation("cocogen %s: %s\n%s\n%s" % (" ".join(repr(x) if " " in x or not x else x for x in a), msg, (r.err or r.out)[-600:], text))
            if r.crashed: bad(r.why())
            new = {k: v for k, v in after.items() if before.get(k, 0) != v}
            if [k for k in before if k not in after or before[k] != after[k]]: bad("the input files have changed")
            code = [k for k in new if k.endswith((".c", ".h"))]
            first = next((n for n, _ in opts if n[0] == "!" or n in ("help", "version", "show-structure") or (n == "ag-scheduler-max-iter" and wrong == "number" and not re.fullmatch(r"\+?\d+", _))), None)
            if first in ("help", "version", "show-structure"):
                if r.rc: bad("status %d" % r.rc)
                if new: bad("generates %s" % sorted(new))
                if not r.out.strip(): bad("prints nothing")
                if first == "help":
                    for n in ["help", "verbose", "breakpoint", "consistency-checks", "backend", "show-ast", "show-structure", "ag-scheduler-max-iter"]:
                        if "--" + n not in r.out: bad("--help does not list --%s" % n)
                continue
            if wrong and wrong != "stop":
                if not r.rc or (r.rc != 1 and wrong != "isdir"): bad("status %d" % r.rc)
                if code or (new and wrong not in ("absent", "isdir")): bad("generates %s" % sorted(new))
                if not (r.err + r.out).strip(): bad("no message")
                continue
            bp = [env["paths"][x % len(env["paths"])] for n, x in opts if n == "breakpoint"]
            its = [x for n, x in opts if n == "ag-scheduler-max-iter"]
            low = case["kind"] == "ag" and its and int(its[-1]) < 1000
            if bp:
                if not refused and not low and r.rc: bad("status %d at a breakpoint" % r.rc)
                if len(set(bp)) == 1 and bp[0].split(".")[0] in EARLY and code: bad("goes on after the breakpoint: %s" % sorted(code))
            elif refused or low:
                if r.rc not in ((0, 1) if low else (1,)): bad("status %d" % r.rc)
            else:
                if r.rc: bad("status %d" % r.rc)
                if not any(n == "consistency-checks" for n, _ in opts):
                    rel = os.path.normpath(os.path.relpath(gd.replace("@", d), d) if gd.startswith("@") else gd)
                    mine = {os.path.relpath(k, rel): v for k, v in new.items() if k != rel}
                    if mine != want:
                        bad("generates other files than without the options: %s" % [k for k in sorted(set(mine) | set(want)) if mine.get(k, 0) != want.get(k, 0)])
                names = [n for n, _ in opts]
                if "verbose" in names and "show-ast" not in names and len((r.out + r.err).splitlines()) <= len((r0.out + r0.err).splitlines()): bad("--verbose tells nothing more")
        for a, r, t in got[1:]:
            b, q, u = got[0]
            d = None
            if wrong == "missing" or (wrong and any(n[0] == "!" for n, _ in opts)): d = None if r.rc == q.rc else "status %d, then %d" % (q.rc, r.rc)
            elif q.rc != r.rc: d = "status %d, then %d" % (q.rc, r.rc)
            elif q.err != r.err: d = "messages differ: %r, then %r" % (q.err[-300:], r.err[-300:])
            elif q.out != r.out: d = "output differs: %r, then %r" % (q.out[-300:], r.out[-300:])
            elif u != t: d = "files differ: %s" % [k for k in sorted(set(t) | set(u)) if t.get(k, 0) != u.get(k, 0)]
            if d: raise Violation("cocogen %r and %r disagree: %s\n%s" % (b, a, d, text))
        cl = {case["kind"]} | {n for n, _ in opts if n[0] != "!"}
        if wrong: cl.add("wrong: " + wrong)
        return Result(len(got) > 1 and (len(opts) > 1 or bool(wrong)), cl, len(got), {"command lines": [g[0] for g in got], "status": got[0][1].rc, "text": text[:800]})

    def show(self, case): return render(case["spec"], case["notation"])

check = C30()
