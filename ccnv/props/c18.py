from .. import build, proc
from ..engine import Check, Result, Violation

NK = 600      # as in c/ht.c

class C18(Check):
    id = "C18"
    quick, thorough = 8000, 120000
    rule = ("a case is a sequence of hash table operations over up to four tables (integer, string, pointer or user keys, "
            "1..257 buckets, up to 600 keys, colliding hashes, distinct but equal key objects); it is non-trivial if it removes a present key "
            "or copies a table, and afterwards reads that table again")
    assumptions = ["entries are not inserted or removed during an iteration", "iteration order is unspecified"]

    def prepare(self):
        return {"exe": build.palm_driver("ht")}

    def gen(self, ch):
        nk = ch.weighted([(30, 4), (30, 8), (20, 20), (10, 40), (1, 130), (1, 600)])
        long = ch.bool(0.1)
        ints, strs, cks, seen, have = [], [], [], set(), set()
        for k in range(nk):
            v = ch.weighted([(4, None), (1, 0), (1, -1), (1, 2**31 - 1), (1, -2**31)])
            if v is None or v in seen:
                v = k * ch.pick([1, 7, 8, 64]) - ch.below(3) * 1000
            while v in seen: v += 1
            seen.add(v); ints.append(v)
            s = "".join(chr(ch.weighted([(6, 97 + ch.below(3)), (1, 32), (1, 255), (1, 128 + ch.below(64))])) for _ in range(ch.size(0, 6)))
            if nk > 40: s = ch.pick(["a", "ab", "k", ""]) + str(k)
            elif long and ch.bool(): s = ch.pick("ab") * (31 * ch.int(1, 20)) + s
            while s in have: s += "z"
            have.add(s)
            strs.append(s)
            cks.append([k, ch.pick([0, 1, 7, 2**63, 2**64 - 1, k])])
        ops, kind = [], {}
        def key():
            return [ch.below(nk), ch.below(3)]
        for _ in range(ch.weighted([(2, 10), (3, 30), (2, 80)])):
            t = ch.below(2) if ch.bool(0.8) else ch.below(4)
            if t not in kind:
                kind[t] = ch.weighted([(1, 0), (1, 1), (1, 2), (1, 3)])
                ops.append(["new", t, kind[t], ch.weighted([(2, 1), (2, 2), (2, 5), (1, 13), (1, 32), (1, 40)] + ([(4, 257)] if nk > 40 else []))])
                if nk > 40: ops.append(["fill", t, 0, nk, 1, ch.below(50)])
                continue
            o = ch.weighted([(10, "ins"), (5, "look"), (6, "rem"), (3, "count"), (3, "iter"), (1, "part"), (1, "clear"),
                             (1, "map"), (1, "mapk"), (1, "mapdk"), (1, "fold"), (1, "cpy"), (1, "deep"), (1, "del"), (1, "nest"), (1, "fill"), (1, "drop")])
            if o in ("ins",): ops.append([o, t] + key() + [ch.weighted([(8, 1 + ch.below(50)), (1, 0)])])
            elif o in ("look", "rem"): ops.append([o, t] + key())
            elif o == "iter": ops.append([o, t, ch.weighted([(2, 0), (1, 3)])])
            elif o == "part": ops.append([o, t, 1 + ch.below(3)])
            elif o in ("map", "mapk", "mapdk"): ops.append([o, t, ch.below(5)])
            elif o in ("cpy", "deep"):
                d = ch.below(4)
                if d == t or d in kind: continue
                kind[d] = kind[t]
                ops.append([o, t, d])
            elif o == "nest": ops.append([o, t, ch.pick(sorted(kind))])
            elif o in ("fill", "drop"):
                a, b = sorted((ch.below(nk + 1), ch.below(nk + 1)))
                ops.append([o, t, a, b, ch.weighted([(3, 1), (1, 2), (1, 7)])] + ([1 + ch.below(50)] if o == "fill" else []))
            elif o == "del": ops.append([o, t]); del kind[t]
            else: ops.append([o, t])
        for t in sorted(kind):
            ops += [["count", t], ["iter", t, 0]]
        return {"ints": ints, "strs": strs, "cks": cks, "ops": ops}

    def run(self, case, env):
        L = []
        for i, v in enumerate(case["ints"]): L.append("ki %d %d" % (i, v))
        for i, s in enumerate(case["strs"]): L.append("ks %d x%s" % (i, s.encode("latin-1").hex()))
        for i, (v, h) in enumerate(case["cks"]): L.append("kc %d %d %d" % (i, v, h))
        nk = len(case["ints"])
        L += ["ki %d %d" % (i, 10**9 + i) for i in range(nk, NK)]
        L += ["kc %d %d 0" % (i, i) for i in range(nk, NK)]
        L += [" ".join(map(str, o)) for o in case["ops"]]
        r = proc.run([env["exe"]], env["dir"], "\n".join(L) + "\n")
        got = r.out.splitlines()
        tabs, classes, live = {}, set(), 0
        touched, nontriv = set(), False
        for n, o in enumerate(case["ops"]):
            if n >= len(got):
                raise Violation("operation %d %s: %s" % (n, o, r.why() if r.crashed else "no answer, status %d" % r.rc))
            g = got[n].split()
            name, t = o[0], o[1]
            classes.add(name)
            T = tabs.get(t)
            def bad(exp):
                raise Violation("operation %d %s: expected %s, got %s" % (n, o, exp, got[n]))
            def entries(xs):
                es = []
                for x in xs:
                    a, b = x.split("=")
                    es.append((int(a), int(b)))
                return sorted(es)
            if name in ("look", "count", "iter", "part", "fold") and t in touched:
                nontriv = True
            if name == "new":
                tabs[t] = {}
                exp = "new ok"
            elif name == "ins":
                T[o[2]] = o[4]; exp = "ins 1"
            elif name == "look": exp = "look %d" % T.get(o[2], 0)
            elif name == "rem":
                if o[2] in T:
                    touched.add(t); classes.add("remove present")
                exp = "rem %d" % T.pop(o[2], 0)
            elif name == "count": exp = "count %d" % len(T)
            elif name in ("iter", "mapk", "mapdk"):
                e = sorted(T.items())
                xs = g[1:-1] if name == "mapdk" else g[1:]
                if g[0] != name or entries(xs) != e: bad(e)
                if name == "mapdk" and g[-1] != "n%d" % len(T): bad("data passed to each of %d calls" % len(T))
                for k in T:
                    T[k] += o[2] if name == "iter" else (1 if name == "mapk" else 3) * k + o[2]
                continue
            elif name == "part":
                es = entries(g[1:])
                if len(es) != min(o[2], len(T)) or len(set(k for k, _ in es)) != len(es) or any(T.get(k) != v for k, v in es): bad("%d of %s" % (o[2], T))
                continue
            elif name in ("map", "fold"):
                xs = g[1:-1] if name == "fold" else g[1:]
                if sorted(map(int, xs)) != sorted(T.values()): bad(sorted(T.values()))
                if name == "fold" and g[-1] != "n%d" % (7 + sum(T.values())): bad("sum %d" % (7 + sum(T.values())))
                if name == "map":
                    for k in T: T[k] = 2 * T[k] + o[2]
                continue
            elif name == "nest":
                n2 = len(tabs[o[2]])
                exp = "nest %d 0" % (len(T) * min(5, n2))
            elif name == "fill":
                ks = range(o[2], o[3], o[4])
                for k in ks: T[k] = o[5] + k
                exp = "fill %d" % len(ks)
            elif name == "drop":
                ks = [k for k in range(o[2], o[3], o[4]) if k in T]
                if ks: touched.add(t); classes.add("remove present")
                exp = "drop %d" % sum(T.pop(k) for k in ks)
            elif name == "clear": T.clear(); touched.add(t); exp = "clear"
            elif name == "del": del tabs[t]; touched.discard(t); exp = "del"
            elif name == "cpy": tabs[o[2]] = dict(T); touched |= {t, o[2]}; exp = "cpy 1"
            elif name == "deep": tabs[o[2]] = {k: v + 1000 for k, v in T.items()}; touched |= {t, o[2]}; exp = "deep 1"
            if got[n] != exp: bad(exp)
        if r.crashed or r.rc != 0: raise Violation("after the last operation: " + r.why())
        if got[-1] != "live 0": raise Violation("memory is not released: " + got[-1])
        return Result(nontriv, classes, len(case["ops"]))

check = C18()
