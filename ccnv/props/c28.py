import os, re, shutil, signal
from .. import build, proc
from ..engine import Check, Result, Violation
from .c19 import hx

SIZES = [0, 1, 2, 7, 8, 15, 16, 17, 24, 31, 32, 63, 64, 100, 255, 256, 1000, 4096]
TEXTS = ["", "x", "a b", "100 %", "line\nbreak", "y" * 200, "{}"]
FMTS = ["%s", "%s %d", "%d%%", "plain", "", "[%s]\n", "a\nb %s %d\n"]
def fmt(f, s, n):
    if f == "%d%%": return None          # takes the text as a number
    out, args = "", [s, str(n)]
    i = 0
    while i < len(f):
        if f[i] == "%" and f[i + 1] in "sd": out += args.pop(0); i += 2
        elif f[i] == "%": out += "%"; i += 2
        else: out += f[i]; i += 1
    return out
FMTS = [f for f in FMTS if fmt(f, "", 0) is not None]
PATHS = ["a", "b", "a/b", "a/c", "a/b/c", "b/d", "f", "f/x", "a/f", "a/f/x", "l", "l/x", "dang", "./a", "a/", "a//b", "a/../b", ".", "deep/er", ""]
MODES = [0o755, 0o700, 0o777, 0o750, 0o711]

def word(x): return (x * 33) & 0xffffffff

class C28(Check):
    id = "C28"
    quick, thorough = 6000, 100000
    rule = ("a case is a sequence of operations of palm's helpers: allocation, reallocation, copies and frees of up to eight blocks with an allocation that may fail; debug messages "
            "and assertions with and without a module name, turned off and compiled out; directories to be made sure of among directories, files and links; and signals with "
            "the handlers installed; it is non-trivial if blocks with contents changed their size or were copied, a message or an assertion was reported, a directory "
            "was created or refused, or a handled signal came")
    assumptions = ["copies of no bytes are left out (they are undefined for the C library)", "the wording of reports is free, the file name, line, function, text and path in them are not"]

    def prepare(self):
        return {"exe": build.palm_driver("mem", ("dbg_plain", "dbg_named", "dbg_quiet"))}

    def gen(self, ch):
        kind = ch.weighted([(6, "mem"), (4, "dbug"), (4, "dir"), (1, "signal")])
        ops = []
        if kind == "mem":
            size = [None] * 8
            for _ in range(ch.weighted([(1, 4), (3, 12), (1, 40)])):
                o = ch.weighted([(4, "malloc"), (5, "realloc"), (3, "copy"), (3, "free"), (1, "set")])
                i = ch.below(8)
                z = ch.weighted([(4, ch.pick(SIZES)), (2, ch.below(300)), (1, ch.below(70000))])
                if o == "malloc":
                    if size[i] is not None: o = "realloc"
                    else: ops.append([o, i, z, ch.below(256)]); size[i] = z or None; continue
                if o == "realloc": ops.append([o, i, z, ch.below(256)]); size[i] = z or None
                elif o == "free": ops.append([o, i]); size[i] = None
                elif o == "set":
                    if size[i]: ops.append([o, i, ch.below(256)])
                else:
                    full = [k for k in range(8) if size[k]]
                    empty = [k for k in range(8) if size[k] is None]
                    if not full or not empty: continue
                    a, b = ch.pick(full), ch.pick(empty)
                    n = size[a] if ch.bool(0.6) else 1 + ch.below(size[a])
                    ops.append([o, a, b, n]); size[b] = n
            if ch.bool(0.3): ops.insert(ch.below(len(ops) + 1), ["fail", 1 + ch.below(8)])
            ops += [["free", i] for i in range(8)]
        elif kind == "dbug":
            for _ in range(ch.int(1, 8)):
                o = ch.weighted([(5, "print"), (3, "assert"), (1, "off"), (2, "quiet")])
                if o == "print": ops.append([o, ch.below(2), ch.pick(FMTS), ch.pick(TEXTS), ch.below(1000)])
                elif o == "assert": ops.append([o, ch.below(2), ch.weighted([(3, 1), (1, 0), (1, 7)]), ch.pick(FMTS), ch.pick(TEXTS), ch.below(1000)])
                elif o == "quiet": ops.append([o, 0, ch.pick(FMTS), ch.pick(TEXTS)])
                else: ops.append([o])
        elif kind == "dir":
            for _ in range(ch.int(1, 8)): ops.append(["dir", ch.pick(MODES), ch.pick(PATHS)])
        else:
            for _ in range(ch.below(3)): ops.append(["error"])
            ops.append(["handlers"])
            if ch.bool(0.3): ops.append(["handlers"])
            ops.append(["raise", ch.pick([signal.SIGSEGV, signal.SIGBUS, signal.SIGINT])])
        return {"kind": kind, "ops": ops, "have": [ch.below(2) for _ in range(6)]}

    def run(self, case, env):
        ops = case["ops"]
        L = []
        for o in ops:
            L.append(" ".join(hx(x) if isinstance(x, str) and i else "%o" % x if o[0] == "dir" and i == 1 else str(int(x)) if i else x for i, x in enumerate(o)))
        d = os.path.join(env["dir"], "d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if case["kind"] == "dir":
            h = case["have"]
            if h[0]: os.mkdir(os.path.join(d, "a"))
            if h[0] and h[1]: os.mkdir(os.path.join(d, "a", "b"))
            if h[2]: open(os.path.join(d, "f"), "w").close()
            if h[0] and h[3]: open(os.path.join(d, "a", "f"), "w").close()
            if h[4]: os.symlink("a", os.path.join(d, "l"))
            if h[5]: os.symlink("nowhere", os.path.join(d, "dang"))
        env2 = dict(proc.ENV)
        if case["kind"] == "signal": env2["ASAN_OPTIONS"] = env2["ASAN_OPTIONS"].replace("handle_segv=2:handle_sigbus=2", "handle_segv=0:handle_sigbus=0")
        mask = os.umask(0o022)
        try: r = proc.run([env["exe"]], d, "\n".join(L) + "\n", env=env2, aux=env["dir"])
        finally: os.umask(mask)
        return getattr(self, case["kind"])(case, ops, r, d)

    def mem(self, case, ops, r, d):
        blocks = [None] * 8
        left = None
        live, cl = 0, set()
        out = r.out.splitlines()
        nontrivial = False
        for n, o in enumerate(ops):
            need = (o[0] == "malloc" and o[2] > 0) or (o[0] == "realloc" and o[2] > 0) or o[0] == "copy"
            if o[0] == "fail": left = o[1]
            if need and left is not None:
                left -= 1
                if left == 0:
                    size = o[3] if o[0] == "copy" else o[2]
                    if r.rc != 1 or "out of memory" not in r.err.lower() or not re.search(r"\b%d\b" % size, r.err) or len(out) != n:
                        raise Violation("%s, operation %d, without memory: %s, %r after %d operations" % (o, n, r.why(), r.err[:300], len(out)))
                    return Result(True, cl | {"out of memory"}, n + 1)
            if o[0] in ("malloc", "realloc"):
                i, z, seed = o[1:]
                old = blocks[i] or b""
                nontrivial |= bool(old and z)
                blocks[i] = bytes(old[k] if k < len(old) else (seed + k * 7 + (k >> 8)) & 255 for k in range(z)) or None
            elif o[0] == "copy": blocks[o[2]] = blocks[o[1]][:o[3]]; nontrivial = True
            elif o[0] == "free": blocks[o[1]] = None
            elif o[0] == "set": blocks[o[1]] = bytes((o[2] + k * 7 + (k >> 8)) & 255 for k in range(len(blocks[o[1]])))
            def h(b):
                x = 5381
                for c in b: x = (x * 33 + c) & 0xffffffff
                return x
            want = "".join(" -" if b is None else " %d:%d" % (len(b), h(b)) for b in blocks) + " live %d" % sum(b is not None for b in blocks)
            if n >= len(out) or out[n] != want:
                raise Violation("after operation %d, %s: %r instead of %r (%s)" % (n, o, out[n] if n < len(out) else "nothing", want, r.why()))
            cl.add(o[0])
        if r.rc or out[-1] != "end": raise Violation("ends: %s" % r.why())
        if r.err.strip(): raise Violation("prints %r" % r.err[:300])
        return Result(nontrivial, cl, len(ops))

    def dbug(self, case, ops, r, d):
        want, on, ev = "", True, 0
        cl = set()
        for n, o in enumerate(ops):
            if o[0] == "print":
                if on: want += ("[a module] " if o[1] else "") + fmt(o[2], o[3], o[4])
                want += "\1\n"
                cl.add("print" if on else "off")
            elif o[0] == "off": want += "off\n"; on = False
            elif o[0] == "quiet": want += "quiet %d\n" % ev; cl.add("compiled out")
            else:
                ev += 1
                if o[2]: want += "asserted %d\n" % ev; cl.add("holds"); continue
                if r.rc != -signal.SIGABRT: raise Violation("a failing assertion: %s, %r" % (r.why(), r.err[:300]))
                src = "dbg_named.c" if o[1] else "dbg_plain.c"
                line = [k + 1 for k, x in enumerate(open(os.path.join(build.CDIR, src))) if "_assert(" in x][0]
                for x in (src, str(line), "named_assert" if o[1] else "plain_assert", fmt(o[3], o[4], o[5])):
                    if x not in r.err: raise Violation("a failing assertion in line %d of %s is reported as %r, without %r" % (line, src, r.err[:400], x))
                if r.out != want: raise Violation("%s prints %r instead of %r" % (ops[:n + 1], r.out, want))
                return Result(True, cl | {"fails"}, n + 1)
        want += "end\n"
        if r.rc: raise Violation("%s: %s" % (ops, r.why()))
        if r.out != want or r.err.strip(): raise Violation("%s prints %r instead of %r, and %r as errors" % (ops, r.out, want, r.err[:300]))
        return Result("print" in cl or "holds" in cl, cl, len(ops))

    def dir(self, case, ops, r, d):
        """The model: the same calls with os."""
        shadow = d + "-model"
        shutil.rmtree(shadow, ignore_errors=True)
        os.makedirs(shadow)
        h = case["have"]
        if h[0]: os.mkdir(os.path.join(shadow, "a"))
        if h[0] and h[1]: os.mkdir(os.path.join(shadow, "a", "b"))
        if h[2]: open(os.path.join(shadow, "f"), "w").close()
        if h[0] and h[3]: open(os.path.join(shadow, "a", "f"), "w").close()
        if h[4]: os.symlink("a", os.path.join(shadow, "l"))
        if h[5]: os.symlink("nowhere", os.path.join(shadow, "dang"))
        out = r.out.splitlines()
        cl = set()
        def listing(x): return sorted((os.path.relpath(os.path.join(t, f), x), os.lstat(os.path.join(t, f)).st_mode) for t, ds, fs in os.walk(x) for f in ds + fs)
        for n, o in enumerate(ops):
            p = os.path.join(shadow, o[2])
            ok = bool(o[2]) and os.path.isdir(p)
            new = False
            if not ok and o[2]:
                mask = os.umask(0o022)
                try: os.mkdir(p, o[1]); ok = new = True
                except OSError: pass
                finally: os.umask(mask)
            if not ok:
                if r.rc != 1 or r.crashed or len(out) != n or not r.err.strip() or o[2] not in r.err:
                    raise Violation("directory %r cannot be there: %s, %r after %d operations %s" % (o[2], r.why(), r.err[:300], len(out), ops))
                if listing(d) != listing(shadow): raise Violation("%s leaves %s instead of %s" % (ops, listing(d), listing(shadow)))
                return Result(True, cl | {"refused"}, n + 1)
            want = "dir %o" % (os.stat(p).st_mode & 0o7777)
            if n >= len(out) or out[n] != want: raise Violation("directory %r (%s): %r instead of %r, %s" % (o[2], ops, out[n] if n < len(out) else "nothing", want, r.why()))
            cl.add("created" if new else "there")
        if r.rc or out[-1] != "end" or r.err.strip(): raise Violation("%s: %s %r" % (ops, r.why(), r.err[:300]))
        if listing(d) != listing(shadow): raise Violation("%s leaves %s instead of %s" % (ops, listing(d), listing(shadow)))
        return Result("created" in cl, cl, len(ops))

    def signal(self, case, ops, r, d):
        sig = ops[-1][1]
        out = r.out.splitlines()
        if "survived" in out: raise Violation("goes on after signal %d" % sig)
        if sig == signal.SIGINT:
            if r.rc != 0: raise Violation("interrupted: %s" % r.why())
        elif "OOOPS" in r.err:           # proc.run takes this message for a crash
            if r.rc != -signal.SIGSEGV: raise Violation("signal %d: status %d" % (sig, r.rc))
        elif r.rc != 1 or not r.err.strip(): raise Violation("signal %d with the handlers installed: %s, %r" % (sig, r.why(), r.err[:300]))
        return Result(True, {"signal %d" % sig}, 1)

check = C28()
