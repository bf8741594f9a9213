"""Runs cocogen on a specification and builds programs from what it generates."""
import os, shutil
from . import build, proc
from .engine import Violation
from .spec import USER_TYPES_H

class Project:
    """One generated compiler in <dir>/p."""
    def __init__(self, env, name="p"):
        self.env = env
        self.dir = os.path.join(env["dir"], name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def generate(self, text, exe=None, gendir="gen", name="s.ccn", cpu=20, args=()):
        with open(os.path.join(self.dir, name), "w", encoding="latin-1", newline="") as f:
            f.write(text)
        with open(os.path.join(self.dir, "user_types.h"), "w") as f:
            f.write("#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" + USER_TYPES_H)
        self.gen = os.path.join(self.dir, gendir)
        return proc.run([exe or self.env["cocogen"], "--gen-dir", gendir] + list(args) + [name], self.dir, cpu=cpu)

    def accept(self, text, **kw):
        return self.accepted(self.generate(text, **kw), text)

    def accepted(self, r, text):
        if r.rc != 0:
            raise Violation("well-formed specification not accepted (%s): %s\n%s" % (r.why(), squeeze(r.err or r.out), text))
        return r

    def csources(self):
        return [os.path.join(self.gen, f) for f in sorted(os.listdir(self.gen)) if f.endswith(".c")]

    def compile(self, sources, exe="prog", asan=False, flags=(), gen=True, alloc=True, user=False, strict=False):
        """Compiles sources (paths) with the generated code, copra and palm. alloc: record allocations."""
        copra = os.path.join(build.REPO, "copra")
        kind = ("asan" if asan else "plain") + ("-cv" if alloc else "")
        cmd = ["gcc", "-O0", "-pipe"] + ([] if strict else ["-w"]) + (build.SAN + ["-g"] if asan else []) + list(flags)
        cmd += ["-I", self.gen, "-I", self.dir, "-I", copra, "-I", os.path.join(build.REPO, "palm", "include"), "-I", build.CDIR]
        if alloc: cmd += ["-include", os.path.join(build.CDIR, "cvalloc.h")]
        cmd += list(sources)
        if gen: cmd += self.csources()
        if user:
            u = os.path.join(self.gen, "user")
            cmd += [os.path.join(u, f) for f in sorted(os.listdir(u)) if f.endswith(".c")]
        src = os.path.join(copra, "src")
        cmd += [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".c")]
        cmd += self.env["palm-" + kind] + ["-lm", "-o", exe]
        r = proc.run(cmd, self.dir, cpu=120, env=dict(os.environ, LC_ALL="C"), fsize=1 << 28)
        self.exe = os.path.join(self.dir, exe)
        return r

    def must_compile(self, sources, what="generated code", **kw):
        r = self.compile(sources, **kw)
        if r.rc != 0:
            raise Violation("%s does not compile or link: %s" % (what, squeeze(r.err)))

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w", encoding="latin-1") as f:
            f.write(text)
        return p

    def run(self, args=(), stdin="", cpu=10):
        return proc.run([self.exe] + list(args), self.dir, stdin=stdin, cpu=cpu)

def must_reject(r, text, why):
    """An ill-formed specification: status 1 and an error message."""
    if r.rc == 0: raise Violation("accepted although it has %s\n%s" % (why, text))
    if r.rc != 1: raise Violation("specification with %s: %s instead of status 1\n%s\n%s" % (why, r.why(), squeeze(r.err), text))
    if "error" not in r.err: raise Violation("specification with %s: no error message: %r\n%s" % (why, r.err[:300], text))

def squeeze(t, n=1500):
    t = "\n".join(l for l in t.splitlines() if l.strip())
    return t if len(t) <= n else t[:n] + "..."

def prepare(plain=True, asan=False, alloc=True, cocogen=True):
    env = {}
    if cocogen: env["cocogen"] = build.cocogen()
    for k in (["plain"] if plain else []) + (["asan"] if asan else []):
        kk = k + ("-cv" if alloc else "")
        env["palm-" + kk] = build.palm_objects(k, alloc)
    return env
