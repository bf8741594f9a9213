import re
from .. import build, proc
from ..engine import Check, Result, Violation
from .c19 import hx

STATE, NOTE, WARN, ERROR = 0, 1, 2, 3
HEAD = {STATE: "", NOTE: "note:", WARN: "warning:", ERROR: "error:"}
WORDS = ["a", "the", "node", "100%", "'x'", "@", "@home", "i@j", "->", "error:", "x" * 30, "y" * 130, "\t", "  ", "\n", "\n\n", "--", "%d", "\xe9\xff", "1", "{};", "\\n"]

def squash(s): return " ".join(s.split())   # str.split() would also split at \x1c..\x1f, \x85, \xa0: never generated

class C21(Check):
    id = "C21"
    quick, thorough = 6000, 100000
    rule = ("a case is a sequence of messages of every type, with and without location and source line, with texts up to several "
            "hundred characters (line breaks, '%', '@', long words), interleaved with abort-on-error calls; it is non-trivial if it "
            "issues an error or warning and a message with a location")
    assumptions = ["texts are compared up to white space, as messages are wrapped at spaces",
                   "the wording around a location is not fixed: file, line and columns must follow the text in this order"]

    def prepare(self):
        return {"exe": build.palm_driver("cti")}

    def gen(self, ch):
        ops = []
        def text():
            n = ch.weighted([(4, ch.size(0, 5)), (3, ch.size(3, 20)), (1, ch.size(20, 120))])
            return " ".join(ch.pick(WORDS) for _ in range(n))
        for _ in range(ch.weighted([(1, 3), (3, 8), (1, 30)])):
            o = ch.weighted([(5, "cti"), (5, "obj"), (2, "onerror"), (1, "abort"), (1, "oom")]) if ch.bool(0.5) else ch.pick(["cti", "obj"])
            ty = ch.weighted([(3, WARN), (3, NOTE), (3, STATE), (2, ERROR)])
            if o in ("cti", "obj"):
                m = ch.below(3)
                t = text()
                if m == 1: t = t.replace("%", "%%")
                if m == 2: m = ch.int(2, 9999)
                op = [o, ty, int(ch.bool()), m, t]
                if o == "obj":
                    fl = ch.weighted([(4, ch.int(1, 3000)), (1, 0)])
                    fc = ch.weighted([(4, ch.int(1, 90)), (1, 0)])
                    ll = ch.weighted([(3, 0), (2, fl), (1, fl + ch.below(4))])
                    lc = ch.weighted([(3, 0), (2, fc + ch.below(12)), (1, fc)])
                    if fl == 0: fc = ll = lc = 0
                    if fc == 0: ll = lc = 0
                    if lc == 0: ll = 0
                    op += [fl, fc, ll, lc, ch.weighted([(5, ch.pick(["f.c", "dir/sub/x.ccn", "@a", "we%ird"])), (1, None)]),
                           ch.weighted([(2, None), (1, ch.pick(["int x = 1;", "%s @ %d", "}"]))])]
                ops.append(op)
            elif o == "oom": ops.append(["oom", ch.below(5000)])
            else: ops.append([o])
            if o in ("abort", "oom"): break
        return {"ops": ops}

    def run(self, case, env):
        L = [" ".join(hx(x) if isinstance(x, str) and i else "n" if x is None else str(x) for i, x in enumerate(o)) for o in case["ops"]]
        r = proc.run([env["exe"]], env["dir"], "\n".join(L) + "\n")
        if r.crashed: raise Violation("messages %s: %s" % (case["ops"], r.why()))
        parts = re.split("\x01(\\d+|end)\n", r.err)
        sect = {}
        for i in range(1, len(parts) - 1, 2): sect[parts[i]] = parts[i + 1]
        out = r.out.splitlines()
        E = W = 0
        rc, located = 0, False
        for n, o in enumerate(case["ops"]):
            s = sect.get(str(n))
            if s is None: raise Violation("stopped before operation %d %s with status %d" % (n, o, r.rc))
            sq = squash(s)
            if o[0] in ("cti", "obj"):
                if o[1] == ERROR: E += 1
                if o[1] == WARN: W += 1
                t = o[4].replace("%%", "%") if o[3] == 1 else o[4] if o[3] == 0 else "%s %d" % (o[4], o[3])
                want = squash(HEAD[o[1]] + " " + t)
                loc = o[5:] if o[0] == "obj" else [0, 0, 0, 0, None, None]
                rest = None
                if sq.startswith(want): rest = sq[len(want):].strip()
                elif not squash(t): rest = sq
                if rest is None: raise Violation("message %r of type %d printed as %r" % (t, o[1], s))
                fl, fc, ll, lc, fn, ln = loc
                if fl == 0 and fn is None:
                    if rest: raise Violation("message %r without location printed as %r" % (t, s))
                else:
                    pat = r"^-->\s*" + (re.escape(fn) if fn else "") + (r"\D*?" + str(fl) if fl else "")
                    if fc: pat += r"\D+" + str(fc)
                    if not fc or not lc or (fc == lc and ll in (0, fl)): pass
                    elif ll and ll != fl: pat += r"\D+" + str(ll) + r"\D+" + str(lc)
                    else: pat += r"\D+" + str(lc)
                    pat += r"(?!\d)"
                    m = re.match(pat, rest)
                    if not m: raise Violation("message %r with location %s printed as %r" % (t, loc, s))
                    located = True
                    tail = rest[m.end():].strip()
                    if ln is None or not fc:
                        if tail: raise Violation("message %r with location %s printed as %r" % (t, loc, s))
                    else:
                        rows = s.split("\n")
                        at = [i for i, x in enumerate(rows) if x.endswith(ln) and x.startswith(" |> ")]
                        if not at or at[-1] + 1 >= len(rows) or rows[at[-1] + 1].find("^") != len(rows[at[-1]]) - len(ln) + fc - 1:
                            raise Violation("column %d of line %r is marked as %r" % (fc, ln, s))
            elif o[0] == "onerror":
                if E: rc = 1
                elif sq: raise Violation("aborting on error without errors printed %r" % s)
            else:
                if o[0] == "oom": E += 1
                rc = 1
            if rc:
                if r.rc != 1 or str(n + 1) in sect or "end" in sect:
                    raise Violation("%s with %d errors: status %d, %s" % (o[0], E, r.rc, "goes on" if str(n + 1) in sect or "end" in sect else ""))
                if not re.search(r"\b%d Error\D*\b%d Warning" % (E, W), s):
                    raise Violation("%d errors and %d warnings were issued, the abort says %r" % (E, W, s))
                break
            if n >= len(out) or out[n] != "%d %d" % (E, W):
                raise Violation("after %s: %d errors and %d warnings expected, got %s (status %d)" % (o, E, W, out[n] if n < len(out) else "nothing", r.rc))
        else:
            if r.rc or "end" not in sect: raise Violation("ends with status %d, %d errors" % (r.rc, E))
        return Result((E or W) and located, [o[0] for o in case["ops"]], len(case["ops"]))

check = C21()
