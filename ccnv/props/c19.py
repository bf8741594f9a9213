import re
from .. import build, proc
from ..engine import Check, Result, Violation

def lower(s): return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
def upper(s): return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
def hx(s): return "n" if s is None else "x" + s.encode("latin-1").hex()

def tokens(s, seps):
    out, cur = [], ""
    for c in s:
        if c in (seps or ""):
            out.append(cur); cur = ""
        else:
            cur += c
    return out + [cur]

def model(f, a):
    """The answer line of c/str.c for call f(a), from the header comments of palm/str.h."""
    z = lambda b: str(int(b))
    if f == "cpy": return hx(a[0])
    if f == "ncpy": return hx(None if a[0] is None else a[0][:a[1]])
    if f == "eq": return z(a[0] == a[1])
    if f == "eqci": return z((a[0] is None) == (a[1] is None) and (a[0] is None or lower(a[0]) == lower(a[1])))
    if f == "eqn":
        if a[0] is None or a[1] is None: return z(a[0] == a[1] or a[2] == 0)
        return z(a[0][:a[2]] == a[1][:a[2]])
    if f == "len": return str(len(a[0] or ""))
    if f == "cat" or f == "catn":
        return hx(None if all(x is None for x in a) else "".join(x or "" for x in a))
    if f == "fmt":
        n = len(re.findall(r"%[^%]", a[0].replace("%%", "")))
        return hx(a[0] % tuple(a[1:1 + n]))
    if f == "onnull": return "1"
    if f == "itoa": return hx(str(a[0]))
    if f in ("lower", "toklower"): return hx(None if a[0] is None else lower(a[0]))
    if f in ("upper", "tokupper"): return hx(None if a[0] is None else upper(a[0]))
    if f == "tok":
        t = tokens(a[0], a[1])
        return " ".join(hx(x) for x in (t + [None])[:a[2]]) + " "
    if f == "prefix": return z(a[0] is None or (a[1] is not None and a[1].startswith(a[0])))
    if f == "suffix": return z(a[1].endswith(a[0]))
    if f == "sub": return z(a[0] is None or (a[1] is not None and a[0] in a[1]))
    if f == "substr":
        s, st, ln = a
        if ln < 0: ln = len(s) + ln
        return hx(s[st:st + ln])
    if f == "subst": return hx(None if a[0] is None else a[0].replace(a[1], a[2]) if a[1] else a[0])
    if f == "null": return "x"

FNS = ["cpy", "ncpy", "eq", "eqci", "eqn", "len", "cat", "catn", "fmt", "onnull", "itoa", "lower", "upper", "toklower",
       "tokupper", "tok", "prefix", "suffix", "sub", "substr", "subst", "null"]

class C19(Check):
    id = "C19"
    quick, thorough = 8000, 150000
    rule = ("a case is a sequence of 1..25 calls of palm/str.h functions with related arguments (shared prefixes, changed case, "
            "substrings, bytes above 127, lengths up to 4098, empty and null strings where allowed); it is non-trivial if at least three different "
            "functions get a non-empty string")
    assumptions = ["lengths and positions are not negative except the length of STRsubStr, which is at least minus the string length",
                   "STRsuffix, STRsubStr, STRfmt get strings, not NULL; STRsubstToken gets no NULL token or substitute",
                   "STRcatn gets at least three strings"]

    def prepare(self):
        return {"exe": build.palm_driver("str")}

    def gen(self, ch):
        alpha = ch.pick(["ab", "aAbB", "abc ,;", "aZ@[`{\x80\xff\xe9", "01 -\n\t%"])
        long = ch.bool(0.15)
        def s(hi=12):
            n = ch.weighted([(4, ch.size(0, 3)), (4, ch.size(0, hi)), (1, ch.size(0, 60))])
            if long and ch.bool(0.3):      # of a length around a power of two
                w = "".join(ch.pick(alpha) for _ in range(ch.int(1, 5)))
                n = ch.pick([64, 128, 256, 256, 512, 1024, 4096]) + ch.int(-2, 2)
                return (w * n)[:n]
            return "".join(ch.pick(alpha) for _ in range(n))
        def rel(x):
            """A string related to x."""
            x = x or ""
            k = ch.below(8)
            i, j = sorted((ch.below(len(x) + 1), ch.below(len(x) + 1)))
            if k == 0: return x
            if k == 1: return x[i:j]
            if k == 2: return x[:j]
            if k == 3: return x[i:]
            if k == 4: return "".join(c.swapcase() if c.isascii() and ch.bool() else c for c in x)
            if k == 5: return x + s(3)
            if k == 6: return x[:i] + ch.pick(alpha) + x[i + 1:]
            return s()
        def opt(x, p=0.08):
            return None if ch.bool(p) else x
        calls = []
        for _ in range(ch.weighted([(1, 3), (3, 12), (2, 25)])):
            f = FNS[ch.below(len(FNS))]
            x = s()
            if f in ("cpy", "len", "lower", "upper", "toklower", "tokupper"): a = [opt(x)]
            elif f == "ncpy": a = [opt(x), ch.weighted([(4, ch.below(len(x) + 2)), (1, 2**31 - 1)])]
            elif f in ("eq", "eqci", "cat", "prefix", "sub", "onnull"):
                y = rel(x)
                a = [opt(y), opt(x)] if ch.bool() else [opt(x), opt(y)]
            elif f == "eqn":
                y = rel(x)
                a = [opt(x), opt(y), ch.weighted([(4, ch.below(max(len(x), len(y)) + 2)), (1, 2**31 - 1)])]
            elif f == "catn": a = [opt(s(), 0.2) for _ in range(ch.weighted([(5, 3), (3, 4), (3, 5), (3, 6), (2, 9)]))]
            elif f == "fmt":
                conv = [["%d", "%5d", "%-6d|", "%05d", "%+d", "%i"], ["%s", "%8s", "%-7s|", "%.2s", "%6.1s"], ["%d", "%3d", "%X"]]
                fm = s(5).replace("%", "%%")
                k = ch.below(4)
                for c in conv[:k]:
                    fm += ch.pick(c) + s(4).replace("%", "%%")
                a = [fm, ch.int(-2**31, 2**31 - 1) if ch.bool() else ch.int(-99, 99), x, ch.int(0, 2**31 - 1)]
            elif f == "itoa": a = [ch.weighted([(3, ch.int(-1000, 1000)), (2, ch.int(-2**31, 2**31 - 1)), (1, -2**31), (1, 2**31 - 1), (1, 0)])]
            elif f == "tok": a = [x, opt("".join(ch.pick(alpha) for _ in range(ch.below(3)))), ch.weighted([(4, 1000), (1, 1), (1, 2)])]
            elif f == "suffix": a = [rel(x), x]
            elif f == "substr": a = [x, ch.below(len(x) + 3), ch.weighted([(4, ch.below(len(x) + 3)), (2, -ch.below(len(x) + 1)), (1, 2**31 - 1)])]
            elif f == "subst":
                t = ch.weighted([(4, x[ch.below(len(x) + 1):][:1 + ch.below(3)]), (1, rel(x)), (1, "")])
                a = [opt(x), t, ch.weighted([(2, s(4)), (1, ""), (1, t + t), (1, rel(t))])]
            else: a = []
            calls.append([f] + a)
        return {"calls": calls}

    def run(self, case, env):
        strs = set(k for k in ("cpy",))
        L = []
        for c in case["calls"]:
            L.append(" ".join([c[0]] + [str(x) if isinstance(x, int) else hx(x) for x in c[1:]]))
        r = proc.run([env["exe"]], env["dir"], "\n".join(L) + "\n")
        got = r.out.split("\n")
        fns = set()
        for n, c in enumerate(case["calls"]):
            exp = c[0] + " " + model(c[0], c[1:])
            if n >= len(got) or got[n] != exp:
                g = got[n] if n < len(got) else "nothing"
                raise Violation("%s%r: expected %s, got %s%s" % (c[0], tuple(c[1:]), exp, g, " (" + r.why() + ")" if r.crashed else ""))
            if any(isinstance(x, str) and x for x in c[1:]): fns.add(c[0])
        if r.crashed or r.rc: raise Violation("after the last call: " + r.why())
        if "live 0" not in got[len(case["calls"]):]: raise Violation("memory is not released: %s" % got[-2:])
        return Result(len(fns) >= 3, [c[0] for c in case["calls"]], len(case["calls"]))

check = C19()
