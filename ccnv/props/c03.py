import os
from .. import build, cprog
from ..ag import AgGen
from ..engine import Check, Result, Violation
from ..gen import Gen
from ..spec import render, KEYWORDS, CKEYWORDS
from .c02 import Breaker, SPEC
from .c15 import Edits, KINDS

WORDS = sorted(KEYWORDS)
SYMBOLS = ["{", "}", "(", ")", "[", "]", ",", ";", "=", "|", "&", "-", "->", ".", "!"]
TYPES = ["int", "string", "bool", "double", "float", "uint8", "int64", "uint", "user u1", "user", "n1", "s1", "e1"]
ODD = ["/*", "*/", "//", "/* x", "\"", "\"abc", "\"\\\"", "\\", "'", "$", "?", "@", "#", "\x00", "\x01", "\x7f", "\x80", "\xc3\xa9", "\xff", "\r", "\n", "\n\n", "\t", "\x0c",
       "0", "1", "-1", "1.5", "-0.25", "99999999999999999999999999", "1e5", "%s%n%d", "%", "\"%s%n %d %\"", "\"@ @\"", "\"\"", "_", "__", "a-b", "a.b.c", "....",
       "a" * 300, "B" * 1100, "x1" * 5000, "\"" + "q " * 900 + "\"", "\"" + "w" * 6000 + "\"", " " * 3000, "//" + "c" * 2500 + "\n", "/*" + "d\n" * 900 + "*/"]

class Soup:
    """A random sentence of the grammar: names come from small pools, mostly the one of the right kind."""
    def __init__(self, ch):
        self.ch = ch
        self.used = {}
        self.n = {"n": ch.size(1, 5), "s": ch.size(0, 3), "e": ch.size(0, 2), "p": ch.size(1, 3), "t": ch.size(0, 3), "f": ch.size(1, 4)}
        self.odd = ch.pick([0, 0, 0.3, 1, 2])         # how often things go wrong
    def p(self, x): return self.ch.bool(x)
    def case(self, n): return n if self.p(0.85) else n.upper()
    def any(self):
        k = self.ch.pick(["n", "s", "e", "p", "t", "f", "U", "c", "a", "w"])
        if k == "w": return self.ch.pick(WORDS + sorted(CKEYWORDS))
        return k + str(self.ch.int(1, 4))
    def wrong(self): return self.odd and self.p(self.odd * 0.02)
    def name(self, k, hi):
        """A name to refer to: mostly one that is defined."""
        if self.wrong(): return self.any()
        hi = self.n.get(k, hi)
        return self.case(k + str(self.ch.int(1, hi))) if hi else self.name("n" if k == "s" else "p", 1)
    def new(self, k, hi):
        """A name to define: mostly one not defined yet."""
        if self.wrong(): return self.any()
        self.used[k] = self.used.get(k, 0) + 1
        return self.case(k + str(self.used[k]))
    def many(self, lo, hi, f, sep=","):
        out = []
        for i in range(self.ch.size(lo, hi)):
            if i: out.append(sep)
            out += f()
        return out
    def opt(self, x, f): return f() if self.p(x) else []
    def parts(self, *ps):
        """Parts separated by commas; seldom in the wrong order or twice."""
        ps = [p for p in ps if p]
        if ps and self.wrong(): ps.insert(self.ch.below(len(ps) + 1), self.ch.pick(ps))
        if self.wrong(): ps.reverse()
        out = []
        for i, p in enumerate(ps): out += ([","] if i else []) + p
        return ["{"] + out + ["}"]
    def info(self): return ["info", "=", self.ch.pick(["\"some text\"", "\"\"", "\"a \\\" b\"", "\"%s %d\n x\"", "\"*/ // {\""])]
    def uid(self): return ["uid", "=", self.new("U", 9)]
    def target(self): return self.ch.weighted([(6, lambda: self.name("p", 3)), (3, lambda: self.name("t", 3) if self.n["t"] else "p1"), (4, lambda: self.name("f", 4)), (1, lambda: self.name("U", 4))])()
    def path(self): return self.many(1, 3 if self.odd else 1, lambda: [self.target()], ".")
    def begin(self): return self.ch.weighted([(2, lambda: []), (1, lambda: ["("]), (4, lambda: ["["] + self.path()), (4, lambda: ["("] + self.path()), (1, lambda: self.path() + ["]"])])()
    def end(self): return self.ch.weighted([(2, lambda: []), (1, lambda: [")"]), (4, lambda: self.path() + ["]"]), (4, lambda: self.path() + [")"]), (1, lambda: ["["] + self.path())])()
    def lifetime(self):
        k = self.ch.pick(["disallowed", "mandatory", "allowed", "optional"])
        return [k] + (self.begin() + ["->"] + self.end() if self.p(0.7) or k in ("allowed", "optional") and not self.wrong() else [])
    def type(self):
        if self.wrong(): return self.ch.pick(["uint", "user", self.any()])
        k = self.ch.below(10)
        if k == 0: return self.name("n", 1)
        if k == 1 and self.n["e"]: return self.name("e", 1)
        if k == 2: return self.name("s", 1)
        if k == 3: return "user u1"
        return self.ch.pick(["int", "string", "bool", "double", "float", "uint8", "int64"])
    def attr(self, extra=()):
        t = self.type()
        o = []
        ag = not extra and self.p(0.1)
        if not extra and not ag and self.p(0.25) or self.wrong(): o.append(["constructor"])
        if ag: o.append([self.ch.pick(["inherited", "synthesized"])])
        if (t == "string" and self.p(0.2) and not ag) or self.wrong(): o += [self.lifetime() for _ in range(self.ch.int(1, 2))]
        return [t, self.name("a", 4) if self.wrong() else self.new("a", 9)] + (self.parts(*o) if o or self.p(0.1) else [])
    def child(self):
        t = self.name("n", 4) if self.p(0.6) or not self.n["s"] else self.name("s", 3)
        o = ([["constructor"]] if self.p(0.3) else []) + ([["mandatory"]] if self.p(0.2) else []) + ([self.lifetime()] if self.p(0.1) else [])
        return [t, self.name("c", 4) if self.wrong() else self.new("c", 9)] + (self.parts(*o) if o or self.p(0.1) else [])
    def ref(self): return [("this" if self.p(0.6) else self.name("c", 4)), ".", self.name("a", 4)]
    def equation(self):
        return self.ref() + ["=", "{"] + self.opt(0.85, lambda: ["args", "=", "{"] + self.many(0, 4, self.ref) + ["}"]) + ["}"]
    def node(self):
        self.used["c"] = 0
        self.used["a"] = self.ch.pick([0, 0, 4])
        b = lambda w, lo, hi, f: [w, "{"] + self.many(lo, hi, f) + ["}"]
        root = ["root"] if self.used.get("n", 0) == 0 and not self.wrong() or self.wrong() else []
        kids = self.p(0.7)
        return root + ["node", self.new("n", 4)] + self.parts(
            b("children", 1, 4, self.child) if kids else [], self.opt(0.6 if kids else 1, lambda: b("attributes", 1, 4, self.attr)),
            self.opt(0.1 if not self.odd else 0.25, lambda: b("equations", 1, 4, self.equation)), self.opt(0.1, lambda: b("lifetime", 1, 2, self.lifetime)))
    def expr(self, d=0):
        k = self.ch.below(10 if d < 5 else 5)
        if k < 3: return ["{"] + self.many(1, 4, lambda: [self.name("n", 4)]) + ["}"]
        if k < 5 and self.n["s"] and (self.used.get("s", 0) > 1 or self.odd): return [self.ref_set()]
        if k < 5: return ["{", self.name("n", 4), "}"]
        if k < 7: return ["("] + self.expr(d + 1) + [self.ch.pick("|&-")] + self.expr(d + 1) + [")"]
        return self.expr(d + 1) + [self.ch.pick("|&-")] + self.expr(d + 1)
    def ref_set(self):
        return self.name("s", 3) if self.odd > 0.5 else "s%d" % self.ch.int(1, max(1, self.used.get("s", 1) - 1))
    def nodeset(self):
        if self.p(0.3): return ["nodeset", self.new("s", 3), "="] + self.expr()
        return ["nodeset", self.new("s", 3)] + self.parts(self.opt(0.2, self.info), ["nodes", "="] + self.expr(), self.opt(0.4, lambda: ["attributes", "{"] + self.many(1, 3, lambda: self.attr(True)) + ["}"]))
    def enum(self):
        return ["enum", self.new("e", 2)] + self.parts(self.opt(0.2, self.info), ["prefix", "=", self.new("U", 9)],
                ["values", "{"] + self.many(1, 5, lambda: [self.ch.pick(WORDS) if self.wrong() else self.new("v", 9)]) + ["}"])
    def pas(self):
        k = self.ch.below(5)
        if k < 3: return ["pass", self.new("p", 3)] + self.opt(0.2, lambda: ["=", self.new("F", 3)])
        return ["pass", self.new("p", 3)] + self.parts(self.opt(0.2, self.info), self.opt(0.5 if k == 3 else 1, self.uid), self.opt(0.5 if k == 4 else 1, lambda: ["func", "=", self.new("F", 3)]))
    def trav(self):
        return ["traversal", self.new("t", 3)] + self.parts(self.opt(0.2, self.info), self.uid(), self.opt(0.4, lambda: ["nodes", "="] + self.expr()),
                self.opt(0.4, lambda: ["travdata", "{"] + self.many(1, 3, lambda: [self.type(), self.new("d", 9)]) + ["}"]))
    def action(self, d):
        k = self.ch.below(12)
        if k == 0 and self.left("p"): return self.pas()
        if k == 1 and self.left("t"): return self.trav()
        if k == 2 and d < 3 and self.left("f"): return self.phase(d + 1)
        if k in (3, 4) and self.level < self.n["f"]: return [self.case("f%d" % self.ch.int(self.level + 1, self.n["f"]))]
        if k == 5 and self.n["t"]: return [self.name("t", 3)]
        if self.wrong(): return [self.ch.pick([self.name("f", 4), self.name("U", 4)])]
        return [self.name("p", 3)]
    def left(self, k): return self.used.get(k, 0) < self.n[k]
    def phase(self, d=0, start=None):
        acts = []
        name = self.new("f", 4)
        outer, self.level = getattr(self, "level", 0), self.used.get("f", 0)
        for _ in range(self.ch.size(1, 4)): acts += self.action(d) + [";"]
        self.level = outer
        s = self.wrong() if start is None else start
        return (["start"] if s else []) + [self.ch.pick(["phase", "phase", "cycle"]), name] + self.parts(
            self.opt(0.2, self.info), self.opt(0.3, self.uid), self.opt(0.2, lambda: ["gate", "=", self.new("g", 4)]), ["actions", "{"] + acts + ["}"])
    def text(self):
        """Every name that may be referred to is defined, seldom twice or not at all; the first phase is the start phase."""
        self.level = 0
        defs = [("n", self.node, "n"), ("s", self.nodeset, "s"), ("e", self.enum, "e"),
                ("f", lambda: self.phase(start=self.used.get("f", 0) == 0 and not self.wrong()), "f"), ("p", self.pas, "p"), ("t", self.trav, "t")]
        out = []
        for k, f, _ in defs:
            guard = 0
            while self.used.get(k, 0) < self.n[k] and guard < 8:
                guard += 1
                if self.wrong(): self.used[k] = self.used.get(k, 0) + 1; continue
                out.append(f())
        self.ch_shuffle(out)
        return [t for x in out for t in x + ([";"] if not self.wrong() else [])]
    def ch_shuffle(self, xs):
        for i in range(len(xs) - 1, 0, -1):
            j = self.ch.int(0, i)
            xs[i], xs[j] = xs[j], xs[i]

class Mangle:
    """Random changes to a list of tokens."""
    def __init__(self, ch, toks, other): self.ch, self.t, self.o = ch, toks, other
    def at(self): return self.ch.below(max(1, len(self.t)))
    def span(self, t):
        i = self.ch.below(len(t) + 1)
        return i, min(len(t), i + self.ch.size(1, 25))
    def token(self): return self.ch.weighted([(4, self.ch.pick(WORDS)), (5, self.ch.pick(SYMBOLS)), (3, self.ch.pick(ODD)), (4, self.ch.pick(self.t) if self.t else "x"), (1, self.ch.pick(sorted(CKEYWORDS)))])
    def block(self):
        """The span of a block with its braces."""
        opens = [i for i, x in enumerate(self.t) if x == "{"]
        if not opens: return None
        i = j = self.ch.pick(opens)
        d = 0
        while j < len(self.t):
            d += {"{": 1, "}": -1}.get(self.t[j], 0)
            j += 1
            if d == 0: break
        return i, j
    GROUPS = [["phase", "cycle"], ["inherited", "synthesized", "constructor"], ["disallowed", "mandatory", "allowed", "optional"], ["[", "("], ["]", ")"], ["|", "&", "-"],
              ["int", "int8", "uint16", "bool", "string", "double", "float"], ["children", "attributes"], ["uid", "func", "gate"], ["pass", "traversal", "phase", "node", "nodeset", "enum"]]
    def items(self):
        """(keyword before the block, begin, end) of every item of a list in a block."""
        out, stack = [], []
        for i, x in enumerate(self.t):
            if x == "{": stack.append([i, i + 1])
            elif x in (",", ";") and stack: out.append((self.t[stack[-1][0] - 1] if stack[-1][0] else "", stack[-1][1], i)); stack[-1][1] = i + 1
            elif x == "}" and stack:
                o = stack.pop()
                if i > o[1]: out.append((self.t[o[0] - 1] if o[0] else "", o[1], i))
        return out
    def soft(self):
        """A change that mostly keeps the syntax."""
        ch, t = self.ch, self.t
        k = ch.below(9)
        ids = [j for j, x in enumerate(t) if x[:1].isalpha() and x not in KEYWORDS]
        if k < 3 and ids: t[ch.pick(ids)] = t[ch.pick(ids)]
        elif k == 3:
            js = [j for j, x in enumerate(t) if any(x in g for g in self.GROUPS)]
            if js:
                j = ch.pick(js)
                t[j] = ch.pick(next(g for g in self.GROUPS if t[j] in g))
        else:
            it = self.items()
            if not it: return
            w, a, b = ch.pick(it)
            if k == 4:       # one item less
                if t[b] in (",", ";"): del t[a:b + 1]
                elif t[a - 1] == ",": del t[a - 1:b]
            elif k == 5: t[b:b] = ([","] if t[b] != ";" else [";"]) + t[a:b]
            elif k < 8:      # an item copied or moved to another list, mostly of the same kind
                to = [x for x in it if x[0] == w] if ch.bool(0.8) else it
                x = t[a:b]
                _, c, d = ch.pick(to)
                t[c:c] = x + [";" if t[d] == ";" else ","]
            else:            # a definition of the other text
                t[:0] = self.o + [";"]
    def once(self):
        ch, t = self.ch, self.t
        k = ch.below(14)
        i = self.at()
        if k == 0: del t[i:i + 1]
        elif k == 1: t.insert(i, self.token())
        elif k == 2: t[i:i + 1] = [self.token()]
        elif k == 3:
            a, b = self.span(t); del t[a:b]
        elif k == 4:
            a, b = self.span(t); t[i:i] = t[a:b]
        elif k == 5:
            a, b = self.span(t); x = t[a:b]; del t[a:b]; j = self.at(); t[j:j] = x
        elif k == 6:
            a, b = self.span(self.o); t[i:i] = self.o[a:b]
        elif k in (7, 8, 9, 10):
            ids = [j for j, x in enumerate(t) if x[:1].isalpha() and x not in KEYWORDS]
            if ids: t[ch.pick(ids)] = t[ch.pick(ids)]
        elif k == 11:
            b = self.block()
            if b: t[b[0] + 1:b[1] - 1] = []
        elif k == 12:
            b = self.block()
            if b: t[i:i] = t[b[0]:b[1]]
        else:
            b = self.block()
            if b: del t[b[0]:b[1]]

def large(ch):
    """One part of a small specification made long, or a name."""
    n = ch.size(20, 600)
    r = lambda f, sep=" ": sep.join(f(i) for i in range(n))
    w = "q" * n * 8
    parts = [lambda: "nodeset s = " + "( " * n + "{ a } | { a }" + " | { a } )" * n + " ;", lambda: "nodeset s = { a }" + " | { a }" * n + " ;", lambda: "nodeset s = { a " + ", a " * n + "} ;",
             lambda: r(lambda i: "node n%d { children { a b } } ;" % i), lambda: "node n { attributes { " + r(lambda i: "int a%d" % i, " , ") + " } } ;",
             lambda: "node n { children { " + r(lambda i: "a a%d" % i, " , ") + " } } ;", lambda: "phase f2 { actions { " + "p1 ; " * n + "} } ;",
             lambda: "enum e { prefix = E , values { " + r(lambda i: "v%d" % i, " , ") + " } } ;", lambda: r(lambda i: "pass q%d ;" % i), lambda: r(lambda i: "traversal q%d { uid = T%d } ;" % (i, i)),
             lambda: r(lambda i: "phase g%d { actions {" % i) + " p1 ; " + "} } ; " * n, lambda: "node n { children { a b { " + r(lambda i: "disallowed [ p1 -> p1 ]", " , ") + " } } } ;",
             lambda: "nodeset s0 = { a } ; " + r(lambda i: "nodeset s%d = s%d ;" % (i + 1, i)), lambda: "traversal t { uid = T , travdata { " + r(lambda i: "int d%d" % i, " , ") + " } } ;",
             lambda: "node %s { children { a %s } , attributes { int %s } } ;" % (w, w + "1", w + "2"), lambda: "pass %s { uid = %s } ; traversal %s { uid = %s } ;" % (w, w + "1", w + "2", w + "3"),
             lambda: "enum %s { prefix = %s , values { %s } } ;" % (w, w + "1", w + "2"), lambda: "nodeset %s { nodes = { a } , attributes { string %s } } ;" % (w, w + "1"),
             lambda: "node n { attributes { int v { synthesized } , int u { inherited } } , equations { this . v = { args = { this . u } } } } ; node m { children { n c } , equations { c . u = { args = { " + r(lambda i: "this . x%d" % i, " , ") + " } } } , attributes { " + r(lambda i: "int x%d" % i, " , ") + " } } ;"]
    return ("root node a { children { a b } } ; pass p1 ; start phase f1 { actions { p1 ; } } ; " + ch.pick(parts)()).split(" ")

class C03(Check):
    id = "C03"
    quick, thorough = 12000, 300000
    rule = ("a case is an input file: random changes to the tokens or bytes of a generated specification, a random sentence of the grammar with names from "
            "small pools, a specification with one very long part, or a random list of tokens, with or without options on the command line; it is non-trivial if the meta-compiler got past the first 20 bytes, i.e. the file is longer than that")
    assumptions = ["the meta-compiler is built with AddressSanitizer and UndefinedBehaviorSanitizer, leaks are not looked for", "a run that uses 40 s of processor time is a hang"]

    def prepare(self): return {"cocogen": build.cocogen("asan")}

    def valid(self, ch, ag, edit):
        if ag:
            g = AgGen(ch, wide=ch.bool(0.3))
            g.all()
            if edit:
                e = Edits(g)
                k = ch.weighted(KINDS)
                if k == "edge":
                    for _ in range(ch.size(1, 6)): e.edge()
                elif k != "none": getattr(e, k)()
        else:
            g = Gen(ch, user=True, lifetimes=ch.pick([0, 0.3]), nodes=(1, 6), enums=(0, 3), nodesets=(0, 5), nsattrs=0.7, passes=(0, 3), travs=(0, 3), phases=(0, 4))
            g.all()
            if edit: getattr(Breaker(g), ch.pick(SPEC))()
        return render(g.spec, 0).replace("\n", " \n ").split(" ")

    def gen(self, ch):
        mode = ch.weighted([(16, "soup"), (8, "spec"), (12, "grammar"), (2, "tokens"), (1, "large")])
        hard = ch.bool(0.25)
        if mode == "soup": t = Soup(ch).text()
        elif mode == "large": t = large(ch)
        elif mode == "tokens": t = [ch.pick(WORDS + SYMBOLS * 3 + ODD) for _ in range(ch.size(0, 60))]
        else: t = self.valid(ch, mode == "grammar", ch.bool(0.4))
        other = Soup(ch).text()[:80] if mode != "soup" else t[:]
        m = Mangle(ch, t, other)
        if mode != "tokens":
            for _ in range(ch.weighted([(4, 0), (5, 1), (3, 2), (2, 4), (1, 10)])):
                if hard and (mode == "large" or ch.bool(0.5)): m.once()
                else: m.soft()
        text = " ".join(t)
        for _ in range(ch.weighted([(24, 0), (2, 1), (1, 3), (1, 8)])):
            i = ch.below(len(text) + 1)
            k = ch.below(5)
            if k == 0: text = text[:i] + text[i + 1:]
            elif k == 1: text = text[:i] + chr(ch.below(256)) + text[i:]
            elif k == 2: text = text[:i] + chr(ch.below(256)) + text[i + 1:]
            elif k == 3: text = text[:i]
            else: text = text[:i] + text[i:i + ch.size(1, 400)] * ch.size(2, 12) + text[i:]
        opts = []
        for o, w in (("--show-ast", 0.12), ("--consistency-checks", 0.06), ("-v", 0.04), ("--debug", 0.03)):
            if ch.bool(w): opts.append(o)
        if ch.bool(0.04): opts += ["--ag-scheduler-max-iter", ch.pick(["0", "1", "2", "5", "50"])]
        return {"mode": mode, "text": text, "opts": opts}

    def run(self, case, env):
        p = cprog.Project(env)
        text = case["text"]
        r = p.generate(text, cpu=40, args=case["opts"])
        if r.crashed or r.rc not in (0, 1): raise Violation("%s\n%s\n%s" % (r.why(), cprog.squeeze(r.err), text))
        if r.rc == 1 and not r.err.strip(): raise Violation("status 1 without a message: %r\n%s" % (r.err[:300], text))
        if r.rc == 0:
            for f in ("ccngen/ast.h", "ccngen/enum.h", "ccngen/trav.h"):
                if not os.path.exists(os.path.join(p.gen, f)): raise Violation("status 0 but no %s\n%s" % (f, text))
            if "error:" in r.err: raise Violation("status 0 although it reports an error: %s\n%s" % (cprog.squeeze(r.err), text))
        msg = next((l for l in r.err.splitlines() if "error" in l), "")[:30]
        return Result(len(text) > 20, {case["mode"], "accepted" if r.rc == 0 else "rejected: " + msg} | {o for o in case["opts"] if o[0] == "-"}, 1, {"text": text[:500], "options": case["opts"], "status": r.rc})

    def show(self, case): return case["text"]

check = C03()
