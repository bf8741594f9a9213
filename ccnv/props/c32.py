import os, shutil
from .. import build, cprog, proc
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..phasegen import RunGen
from ..spec import USER_TYPES_H, render
from ..tree import Lay, Machine, compare, enc, program
from ..cprog import squeeze

CMAKE = """add_executable(%(t)s %(main)s $<TARGET_OBJECTS:cv>)
target_include_directories(%(t)s PRIVATE "${CMAKE_CURRENT_SOURCE_DIR}")
coconut_target_generate(%(t)s "${CMAKE_CURRENT_SOURCE_DIR}/%(dsl)s" "dynamic")
"""
HEAD = """cmake_minimum_required(VERSION 3.13)
project(%s C)
include_directories("${CMAKE_CURRENT_SOURCE_DIR}/cv")
add_library(cv OBJECT cv/cvalloc.c)
target_compile_definitions(cv PRIVATE CV_QUARANTINE)
add_compile_options(-w -O0 -include cvalloc.h)
"""
# What breaks a specification, and what leaves it as it is.
BAD = ["\nnode", "\npass ;", "\nnode Dup { }; node dup { };", "\nphase P { actions { nowhere ; } };", "\nroot node Second { };", "\n$"]
SAME = ["\n// one more line\n", "\n\n", "\n/* a\n comment */"]

class C32(Check):
    id = "C32"
    quick, thorough = 110, 1500
    rule = ("a case is a project (one or two compilers, names, places, make or ninja) and a history of edits of its specifications, good and bad, and of "
            "the user's code, with a build after each; it is non-trivial if a build after the first one ran a changed compiler")
    profile = dict(nodes=(1, 4), passes=(1, 3), travs=(0, 2), phases=(1, 4), attrs=2, enums=(0, 1), nodesets=(0, 2), actions=3, expanded=20)
    runs = dict(notify=0.2, edit=0.1, renew=0.3, check=0.3, verbose=0)
    assumptions = ["coconut.cmake, palm and copra are copied next to the built cocogen, in the place where the manual build leaves it"]

    def prepare(self):
        env = {"cocogen": build.cocogen()}
        root = os.path.join(build.scratch(), "root")
        os.makedirs(os.path.join(root, "build", "cocogen"))
        for d in ("palm", "copra"): shutil.copytree(os.path.join(build.REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns("_build", "build", ".git"))
        shutil.copy(os.path.join(build.REPO, "coconut.cmake"), root)
        os.symlink(env["cocogen"], os.path.join(root, "build", "cocogen", "cocogen"))
        env["root"] = root
        # without a build of its own
        env["bare"] = root + "-bare"
        shutil.copytree(root, env["bare"], ignore=shutil.ignore_patterns("build"))
        return env

    def version(self, ch):
        spec = Gen(ch, **self.profile).all()
        return {"spec": spec, "script": RunGen(ch, Lay(spec), self.runs).script() + [["l"]]}

    def gen(self, ch):
        n = 2 if ch.bool(0.25) else 1
        steps = []
        for i in range(ch.int(1, 4)):
            k = ch.weighted([(5, "new"), (3, "bad"), (1, "same"), (1, "main"), (1, "none")])
            s = {"who": ch.below(n), "kind": k}
            if k == "new": s["v"] = self.version(ch)
            if k == "bad": s["text"] = ch.pick(BAD)
            if k == "same": s["text"] = ch.pick(SAME)
            if k == "main": s["script"] = ch.below(1000)
            steps.append(s)
        return {"first": [self.version(ch) for _ in range(n)], "steps": steps, "tool": ch.pick(["Ninja", "Unix Makefiles"]),
                "dir": ch.pick(["proj", "my project", "a.b-c", "x+y"]), "build": ch.pick(["build", "out dir", "../elsewhere"]),
                "dsl": ch.pick(["main.ccn", "src/lang.ccn", "a b.ccn", "noext"]), "sub": n == 2 or ch.bool(0.4),
                "where": ch.pick(["", "", "COCOGEN_DIR", "COCONUT_BUILD_DIR"]), "how": ch.pick(["set", "-D"])}

    def run(self, case, env):
        top = os.path.join(env["dir"], "w")
        shutil.rmtree(top, ignore_errors=True)
        proj = os.path.join(top, case["dir"])
        os.makedirs(proj)
        n = len(case["first"])
        dirs = [os.path.join(proj, "c%d" % i) for i in range(n)] if case["sub"] else [proj]
        def put(path, text):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="latin-1", newline="") as f: f.write(text)
        for f in ("cvalloc.h", "cvalloc.c"):
            os.makedirs(os.path.join(proj, "cv"), exist_ok=True)
            shutil.copy(os.path.join(build.CDIR, f), os.path.join(proj, "cv"))
        for f in os.listdir(build.CDIR):
            if f.endswith(".h"): shutil.copy(os.path.join(build.CDIR, f), os.path.join(proj, "cv"))
        cm, opts, root = HEAD % "whole", [], env["bare" if case["where"] else "root"]
        if case["where"]:
            place = os.path.join(env["root"], "build")
            if case["where"] == "COCOGEN_DIR": place = os.path.join(place, "cocogen")
            if case["how"] == "set": cm += 'set(%s "%s")\n' % (case["where"], place)
            else: opts = ["-D%s=%s" % (case["where"], place)]
        cm += 'include("%s/coconut.cmake")\n' % root
        for i, d in enumerate(dirs):
            os.makedirs(d, exist_ok=True)
            put(os.path.join(d, "user_types.h"), "#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" + USER_TYPES_H)
            t = CMAKE % {"t": "comp%d" % i, "main": "prog.c", "dsl": case["dsl"]}
            if case["sub"]:
                put(os.path.join(d, "CMakeLists.txt"), "project(sub%d C)\n" % i + t)
                cm += "add_subdirectory(c%d)\n" % i
            else: cm += t
        put(os.path.join(proj, "CMakeLists.txt"), cm)
        cur = [dict(v, extra="", bad=False, mark=0) for v in case["first"]]
        def save(i, spec=True, prog=True):
            if spec: put(os.path.join(dirs[i], case["dsl"]), render(cur[i]["spec"]) + cur[i]["extra"])
            if prog: put(os.path.join(dirs[i], "prog.c"), program(Lay(cur[i]["spec"])) + "\n/* %d */\n" % cur[i]["mark"])
        for i in range(n): save(i)
        out = os.path.normpath(os.path.join(proj, case["build"]))
        e = dict(os.environ, LC_ALL="C")
        for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS"): e.pop(k, None)
        def sh(*cmd): return proc.run(list(cmd), proj, cpu=200, wall=400, env=e, fsize=1 << 28)
        def text(): return "\n--\n".join(render(c["spec"]) + c["extra"] for c in cur)
        conf = sh("cmake", "-S", proj, "-B", out, "-G", case["tool"], "-DCMAKE_C_COMPILER=/usr/bin/gcc", *opts)
        changed = 0
        cl = set()
        for at in range(-1, len(case["steps"])):
            step = None
            if at >= 0:
                step = case["steps"][at]
                c = cur[step["who"]]
                k = step["kind"]
                cl.add(k)
                if k == "new": c.update(step["v"], extra="", bad=False)
                elif k == "bad": c.update(extra=step["text"], bad=True)
                elif k == "same" and not c["bad"]: c["extra"] = step["text"]
                elif k == "main": c["mark"] = step["script"]
                if k in ("new", "bad", "same"): save(step["who"], prog=k == "new")
                elif k == "main": save(step["who"], spec=False)
            r = sh("cmake", "--build", out, "-j", "2", "--target", *["comp%d" % i for i in range(n)])
            bad = any(c["bad"] for c in cur)
            if bad:
                if r.rc == 0: raise Violation("the build succeeds although a specification is ill-formed\n%s" % text())
                continue
            if r.rc != 0: raise Violation("step %d: the build fails (%s)\n%s\n%s\n%s" % (at, r.why(), squeeze(conf.err if conf.rc else ""), squeeze(r.out + r.err), text()))
            for i, c in enumerate(cur):
                exe = os.path.join(out, "c%d" % i, "comp%d" % i) if case["sub"] else os.path.join(out, "comp%d" % i)
                lay = Lay(c["spec"])
                m = Machine(lay)
                m.run(c["script"])
                if m.unclear: continue
                compare(m, proc.run([exe], proj, stdin=enc(lay, c["script"]), cpu=10), "after step %d\n" % at + render(c["spec"]))
            if step and step["kind"] == "new": changed += 1
        shutil.rmtree(top, ignore_errors=True)
        return Result(changed > 0, cl | {case["tool"], case["dir"], case["build"], case["where"] + case["how"]}, 1 + len(case["steps"]), {"steps": [s["kind"] for s in case["steps"]], "first": render(case["first"][0]["spec"])[:1200]})

    def show(self, case):
        return "\n".join(render(v["spec"]) for v in case["first"]) + "\n%s" % [(s["who"], s["kind"], s.get("text"), render(s["v"]["spec"]) if "v" in s else "") for s in case["steps"]]

check = C32()
