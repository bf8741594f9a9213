"""Trees over a specification: a script interpreter in C, a reference model of it, and a script generator.

A script is a list of operations; the C program and the model execute the same script and print the same log.
 ["B", t, n, [micro..]]      behaviour of the handler of traversal t on node type n
 ["I", t, [u..]]             data fields that init sets        ["J", t, [u..]]  that fini sets
 ["G", r, tree]              R[r] = tree      tree: None | [type, children, values, [[field, route, value]..]]
 ["W", path, f, route, v]    write an attribute        ["E", path, which, v]  write a NODE_ field
 ["P", r, path]              swap R[r] with the child slot at path
 ["D", r] dump   ["C", r, path] R[r] = copy   ["F", r] free   ["T", r, t] start traversal   ["L"] liveness   ["Z"] free all
 ["X", r] the status of a run on R[r] in a process of its own
Paths are [r, i, j ..]. Micro operations are described at Machine.handle.
"""
import os, re
from .sem import Sem, low, up
from .engine import Violation

INTS = {"int": (-2**31, 2**31 - 1), "int8": (-128, 127), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1),
        "int64": (-2**63, 2**63 - 1), "uint8": (0, 255), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1),
        "uval": (0, 2**64 - 1), "uptr": (0, 2**64 - 1), "uint_t2": (-2**15, 2**15 - 1),
        "Umix_T": (0, 2**16 - 1)}
CT = {"int": "int", "int8": "int8_t", "int16": "int16_t", "int32": "int32_t", "int64": "int64_t", "uint8": "uint8_t", "uint16": "uint16_t",
      "uint32": "uint32_t", "uint64": "uint64_t", "bool": "bool", "float": "float", "double": "double", "string": "char *"}

class Lay:
    """Field layout of a specification."""
    def __init__(self, spec):
        self.spec, self.sem = spec, Sem(spec)
        s = self.sem
        self.types = list(s.order)
        self.ti = {n: i for i, n in enumerate(self.types)}
        self.travs = [low(t["name"]) for t in spec["travs"]]
        self.kids = {n: s.children(n) for n in self.types}
        self.attrs = {n: s.attrs(n) for n in self.types}
        self.routes = {}
        for n in self.types:
            for i, a in enumerate(self.attrs[n]):
                self.routes[n, i] = [n] + [k for k in s.nodeset if n in s.members(["ref", k])
                                           and low(a["name"]) in {low(b["name"]) for b in s.nodeset_attrs(k)}]
        self.walks = {k: s.walks(s.trav[k]) for k in self.travs}
        self.slot = {(n, i): s.typ(c["type"]) for n in self.types for i, c in enumerate(self.kids[n])}
        self.tree = s.tree()
        self.passes = [low(p["name"]) for p in spec["passes"]]
        self.gates = sorted({p["gate"] for p in spec["phases"] if p.get("gate")})
        self.data = {k: s.trav[k]["data"] for k in self.travs}

    def resolve(self, path):
        """The first action in execution order with the first name, then the first one inside it, ..."""
        a = self.tree
        for name in path:
            a = next(x for x in a.walk() if x is not a and x.matches(name))
        return a
    def in_range(self, lt, cur):
        if lt["begin"]:
            a = self.resolve(lt["begin"]["path"])
            if cur < (a.id if lt["begin"]["incl"] else a.next): return False
        if lt["end"]:
            a = self.resolve(lt["end"]["path"])
            if cur >= (a.next if lt["end"]["incl"] else a.id): return False
        return True
    def names(self, a):
        out = []
        while a is not None: out.append(low(a.name)); a = a.parent
        return out[::-1]
    def brk_matches(self, a, text):
        want = text.lower().split(".")
        return self.names(a) == want or self.names(a)[1:] == want

    def vk(self, a):
        """Value kind: a primitive, a user type name, enum or link."""
        t = a["t"]
        return t[1] if t[0] in ("prim", "user") else "enum" if low(t[1]) in self.sem.enum else "link"
    def ctype(self, a):
        t, k = a["t"], self.vk(a)
        return CT[k] if k in CT else t[1] if t[0] == "user" else "enum " + self.sem.enum[low(t[1])]["name"] if k == "enum" else "node_st *"
    def ctor(self, n):
        return [i for i, c in enumerate(self.kids[n]) if c["cons"]], \
               [i for i, a in enumerate(self.attrs[n]) if a.get("cons") and any(a is b for b in self.sem.node[n]["attrs"])]

# ---------------------------------------------------------------- model
class Str:
    def __init__(self, t): self.t, self.live = t, True
class Node:
    def __init__(self, typ): self.typ, self.ch, self.at, self.base, self.live = typ, [], [], [0, 0, 0, 0, None], True

LIST = re.compile(r"^\t*(\d+): (.*)$")

def compare(m, r, text):
    """The program's log and status against the model's, for phase scripts and tree scripts."""
    got = [x for x in r.out.split("\n")]
    want = m.log
    if any(isinstance(w, list) for w in want):
        # the listing is compared by number and name only
        got = [["list", int(LIST.match(x).group(1)), LIST.match(x).group(2)] if LIST.match(x) else x for x in got if x]
    elif got and got[-1] == "": got.pop()
    for i, w in enumerate(want):
        if i >= len(got) or got[i] != w:
            raise Violation("log line %d is\n  %s\nbut should be\n  %s\n(%s)\n%s%s" % (i, got[i] if i < len(got) else "missing", w,
                            r.why() if r.rc else "exit 0", r.err[:600], text))
    if len(got) > len(want): raise Violation("unexpected output %r after %r (%s)\n%s%s" % (got[len(want)], want[-1:], r.why(), r.err[:600], text))
    if r.rc != m.status: raise Violation("program ended with %s instead of status %d\n%s\n%s" % (r.why(), m.status, r.err[:600], text))

def zero(k):
    return None if k in ("string", "link") else 0

class Machine:
    def __init__(self, lay, nreg=6, fuel=60):
        self.l, self.R, self.log, self.ids, self.known = lay, [None] * nreg, [], {}, []
        self.beh, self.init, self.fini, self.stack, self.fuel0 = {}, {}, {}, [], fuel
        self.allocs = []         # nodes and strings
        self.steps = 0
        self.stats = {}
        self.unclear = False     # went through an ill-typed tree in a way that nothing determines
        # phase driver
        self.running, self.cur, self.step, self.events, self.gates, self.gpos = False, 0, 0, {}, {}, {}
        self.max_cycles, self.check, self.brk, self.brkid = 100, True, None, 0
        self.status = 0          # expected exit status once stopped
        self.verb, self.trace, self.loud = 0, [], False      # what the driver reports on stderr

    def stat(self, k): self.stats[k] = self.stats.get(k, 0) + 1
    def str(self, t):
        if t is None: return None
        s = Str(t); self.allocs.append(s); return s
    def new(self, typ):
        n = Node(typ)
        n.ch = [None] * len(self.l.kids[typ])
        n.at = [zero(self.l.vk(a)) for a in self.l.attrs[typ]]
        self.allocs.append(n)
        return n
    def id(self, x):
        if id(x) not in self.ids:
            self.ids[id(x)] = len(self.known)
            self.known.append(x)
        return self.ids[id(x)]
    def val(self, k, v):
        if k == "string": return "-" if v is None else 's%d"%s"' % (self.id(v), v.t)
        if k == "link": return "-" if v is None else "n%d" % self.id(v)
        if k in ("float", "double"): return "%.17g" % v
        return "%d" % v
    def lit(self, k, v, here=None):
        """Model value of a literal."""
        if k == "string": return self.str(v)
        if k == "link": return None if v is None else here if v == "@" else self.at(v)
        return v
    def at(self, path):
        n = self.R[path[0]]
        for i in path[1:]: n = n.ch[i]
        return n
    def dump(self, n):
        if n is None: return "-"
        l = self.l
        b = n.base
        out = "{%d#%d @%d,%d,%d,%d,%s" % (l.ti[n.typ], self.id(n), b[0], b[1], b[2], b[3], self.val("string", b[4]))
        for a, v in zip(l.attrs[n.typ], n.at): out += " " + self.val(l.vk(a), v)
        return out + "".join(" " + self.dump(c) for c in n.ch) + "}"
    def put_attr(self, n, f, v):
        if isinstance(n.at[f], Str): n.at[f].live = False
        n.at[f] = v
    def build(self, t):
        if t is None: return None
        typ, kids, vals, sets = t
        l = self.l
        ck, ca = l.ctor(typ)
        # evaluation order: children, then values
        cs = [self.build(k) for k in kids]
        vs = [self.lit(l.vk(l.attrs[typ][i]), v) for i, v in zip(ca, vals)]
        n = self.new(typ)
        for i, c in zip(ck, cs): n.ch[i] = c
        for i, v in zip(ca, vs): n.at[i] = v
        for f, route, v in sets:
            if f < len(n.ch): n.ch[f] = self.build(v)
            else:
                i = f - len(n.ch)
                self.put_attr(n, i, self.lit(l.vk(l.attrs[typ][i]), v, n))
        return n
    def free(self, n):
        if n is None: return
        for c in n.ch: self.free(c)
        for v in n.at:
            if isinstance(v, Str): v.live = False
        if n.base[4] is not None: n.base[4].live = False
        n.live = False
    def copy(self, n):
        if n is None: return None
        m = self.new(n.typ)
        m.base = n.base[:4] + [self.str(n.base[4].t) if n.base[4] is not None else None]
        m.ch = [self.copy(c) for c in n.ch]
        m.at = [self.str(v.t) if isinstance(v, Str) else v for v in n.at]
        return m

    # ---- traversals
    def datashow(self, act):
        d = self.l.data[act["t"]]
        return " ".join(self.val(self.l.vk(a), v) for a, v in zip(d, act["d"]))
    def dataset(self, act, ops, here=None):
        for f, v in ops:
            if isinstance(act["d"][f], Str): act["d"][f].live = False
            act["d"][f] = self.lit(self.l.vk(self.l.data[act["t"]][f]), v, here)
    def start(self, n, t):
        l = self.l
        act = {"t": t, "d": [zero(l.vk(a)) for a in l.data[t]]}
        self.stack.append(act)
        ti = l.travs.index(t)
        if l.data[t]:
            self.log.append("I%d %d %s" % (ti, ti, self.datashow(act)))
            self.dataset(act, self.init.get(t, []))
        n = self.opt(n)
        if l.data[t]:
            self.dataset(act, self.fini.get(t, []))
            self.log.append("J%d %d %s" % (ti, ti, self.datashow(act)))
            for v in act["d"]:
                if isinstance(v, Str): v.live = False
        self.stack.pop()
        return n
    def opt(self, n):
        if n is None: return None
        t = self.stack[-1]["t"]
        w = self.l.walks[t][n.typ]
        if w == "user": return self.handle(n, t)
        if w == "walk":
            self.stat("silent")
            for i in range(len(n.ch)): n.ch[i] = self.opt(n.ch[i])
        else:
            self.stat("skipped")
            if not self.unclear and self.target_below(n, t): self.unclear = True
        return n
    def target_below(self, n, t):
        """Is there a target in a skipped subtree?  Only in an ill-typed one, in which nobody says what is visited."""
        return n is not None and (self.l.walks[t][n.typ] == "user" or any(self.target_below(c, t) for c in n.ch))
    def handle(self, node, t):
        """c children | t i child helper | o i TRAVopt | d i TRAVdo | s i t start on child | S t start on itself |
        k i copy child | x i free child | w f v write | v show data | u f v set data | R type | K copy itself | n free itself"""
        l = self.l
        ti = l.travs.index(t)
        self.log.append("H%d %d %d n%d" % (ti, ti, l.ti[node.typ], self.id(node)) + (" a%d" % self.cur if self.running else ""))
        if self.running: self.event()
        self.fuel -= 1
        self.steps += 1
        if self.fuel < 0: return node
        typ0 = node.typ
        for op in self.beh.get((t, typ0), [["c"]]):
            k = op[0]
            if node is None: return None
            if k in "todskx" and op[1] >= len(node.ch): continue
            if k == "c":
                for i in range(len(node.ch)): node.ch[i] = self.opt(node.ch[i])
            elif k in "tod":
                if node.ch[op[1]] is not None: node.ch[op[1]] = self.opt(node.ch[op[1]])
            elif k == "s": self.stat("nested"); node.ch[op[1]] = self.start(node.ch[op[1]], op[2])
            elif k == "S": self.stat("nested"); node = self.start(node, op[1])
            elif k == "k":
                c = self.copy(node.ch[op[1]]); self.free(node.ch[op[1]]); node.ch[op[1]] = c
            elif k == "x": self.free(node.ch[op[1]]); node.ch[op[1]] = None
            elif k == "w":
                if node.typ == typ0: self.put_attr(node, op[1], self.lit(l.vk(l.attrs[typ0][op[1]]), op[2], node))
            elif k == "v":
                if l.data[t]: self.log.append("V%d %d %s" % (ti, ti, self.datashow(self.stack[-1])))
            elif k == "u": self.dataset(self.stack[-1], [op[1:]], node); self.stat("data")
            elif k == "R":
                self.stat("replaced")
                m = self.build(op[1]); self.free(node); return m
            elif k == "K": self.stat("replaced"); m = self.copy(node); self.free(node); return m
            elif k == "n": self.stat("replaced"); self.free(node); return None
        return node

    # ---- operations
    def do(self, op):
        k, log = op[0], self.log
        if k == "B": self.beh[op[1], op[2]] = op[3]
        elif k == "I": self.init[op[1]] = op[2]
        elif k == "J": self.fini[op[1]] = op[2]
        elif k == "G": self.R[op[1]] = self.build(op[2])
        elif k == "W":
            n = self.at(op[1])
            self.put_attr(n, op[2], self.lit(self.l.vk(self.l.attrs[n.typ][op[2]]), op[4], n))
        elif k == "E":
            n = self.at(op[1])
            if op[2] == 4:
                if n.base[4] is not None: n.base[4].live = False
                n.base[4] = self.str(op[3])
            else: n.base[op[2]] = op[3]
        elif k == "P":
            n = self.at(op[2][:-1])
            i = op[2][-1]
            n.ch[i], self.R[op[1]] = self.R[op[1]], n.ch[i]
        elif k == "D": log.append("D " + self.dump(self.R[op[1]]))
        elif k == "C":
            before = len(self.allocs)
            self.R[op[1]] = self.copy(self.at(op[2]))
            self.stats["copied"] = max(self.stats.get("copied", 0), len(self.allocs) - before)
        elif k == "F":
            self.free(self.R[op[1]]); self.R[op[1]] = None
            log.append("F ok")
        elif k == "T":
            self.fuel = self.fuel0
            self.R[op[1]] = self.start(self.R[op[1]], op[2])
            log.append("T %s" % ("-" if self.R[op[1]] is None else "n%d" % self.id(self.R[op[1]])))
        elif k == "L": log.append("L" + "".join(" %d" % i for i, x in enumerate(self.known) if x.live))
        elif k == "Z":
            for i in range(len(self.R)): self.free(self.R[i]); self.R[i] = None
            log.append("Z 0")

        elif k == "Q": self.events[op[1]] = op[2]
        elif k == "g": self.gates[op[1]] = op[2]; self.gpos[op[1]] = 0
        elif k == "Y":
            n, self.R[op[1]] = self.R[op[1]], None
            self.fuel = 100000
            self.runtree(n)
            log.append("Y done")
        elif k == "X": log.append("X %d" % (1 if self.violations(self.R[op[1]], 1) else 0))
        elif k == "c": self.max_cycles = op[1]
        elif k == "t": self.check = bool(op[1])
        elif k == "b": self.brk = op[1]
        elif k == "i": self.brkid = op[1]
        elif k == "v":
            self.verb = op[1]
            if op[1]: self.loud = True
        elif k == "l": self.listing()
        elif k == "n": self.changed = True; self.stat("notify")
        elif k == "p": self.perr = True; self.stat("phase error")
        elif k == "a": self.aerr = True; self.stat("action error")

    def run(self, script):
        try:
            for op in script: self.do(op)
        except Stop as s:
            self.status = s.status
            self.stat("stopped")
        return self.log

    # ---- phase driver
    def listing(self):
        for a in self.l.tree.walk():
            if a.id > 1: self.log.append(["list", a.id, a.name])
    def event(self):
        self.step += 1
        for op in self.events.get(self.step, []): self.do(op)
    def runtree(self, n):
        self.running, self.cur = True, 0
        self.changed = self.perr = self.aerr = False
        n = self.dispatch(self.l.tree, n)
        self.running = False
        self.free(n)
    def dispatch(self, a, n):
        self.cur += 1
        here = self.cur
        if here != a.id: raise AssertionError("numbering of the model")
        if self.verb > (0 if a.kind == "phase" else 1): self.trace.append((">" if a.kind == "phase" else "*", a.name))
        if self.check and self.l.sem and self.violations(n, here):
            self.stat("inconsistent")
            raise Stop(1)
        if a.kind == "pass":
            i = self.l.passes.index(low(a.x["name"]))
            self.log.append("A%d a%d %s" % (i, self.cur, self.val("link", n)))
            keep, self.R[0] = self.R[0], n
            self.event()
            n, self.R[0] = self.R[0], keep
        elif a.kind == "trav": n = self.start(n, low(a.x["name"]))
        else:
            outer, self.perr = self.perr, False
            n = self.phase(a, n)
            self.perr = self.perr or outer
        if self.aerr:
            if self.verb: self.trace.append(("!", None))
            raise Stop(1)
        if self.brkid == here or (self.brk is not None and self.l.brk_matches(a, self.brk)):
            self.log.append("BREAK " + self.dump(n))
            self.stat("break")
            raise Stop(0)
        if a.kind == "phase" and self.verb: self.trace.append(("<", a.name))
        return n
    def phase(self, a, n):
        g = a.x.get("gate")
        if g:
            gi = self.l.gates.index(g)
            seq = self.gates.get(gi, [1])
            v = seq[min(self.gpos.get(gi, 0), len(seq) - 1)]
            self.gpos[gi] = self.gpos.get(gi, 0) + 1
            self.log.append("?%d %d" % (gi, v))
            if not v:
                self.stat("gated off")
                self.cur = a.next - 1
                if self.verb == 3: self.trace.append(("-", a.name))
                return n
        outer, rounds = self.changed, 0
        any_change = False
        while True:
            self.changed = False
            self.cur = a.id
            for s in a.sub: n = self.dispatch(s, n)
            rounds += 1
            any_change = any_change or self.changed
            if not a.x.get("cycle") or not self.changed or rounds >= self.max_cycles: break
            self.stat("repeated")
        self.changed = outer or any_change
        if self.perr:
            if self.verb: self.trace.append(("!", None))
            raise Stop(1)
        return n

    # ---- consistency
    def violations(self, n, cur):
        """Broken rules in the tree at the start of action cur."""
        if n is None: return []
        l, out = self.l, []
        sem = l.sem
        for lt in sem.node[n.typ]["lts"]:
            if forbids(lt, l, cur, True): out.append("node")
        for i, (c, spec) in enumerate(zip(n.ch, l.kids[n.typ])):
            if c is not None and c.typ not in l.slot[n.typ, i]: out.append("type")
            for lt in spec["lts"]:
                if forbids(lt, l, cur, c is not None): out.append("child")
        for v, a in zip(n.at, l.attrs[n.typ]):
            for lt in a.get("lts", []):
                if forbids(lt, l, cur, v is not None): out.append("attribute")
        for c in n.ch: out += self.violations(c, cur)
        return out

class Stop(Exception):
    def __init__(self, status): self.status = status

def forbids(lt, l, cur, present):
    inside = l.in_range(lt, cur)
    k = lt["kind"]
    if k == "disallowed": return present and inside
    if k == "allowed": return present and not inside
    if k == "mandatory": return not present and inside
    return not present and not inside

# ---------------------------------------------------------------- script text for the program
def enc(l, script):
    out = []
    def v(k, x):
        if k == "string": out.append("-" if x is None else "x" + x.encode("latin-1").hex())
        elif k == "link": out.append("-" if x is None else "@" if x == "@" else path(x))
        elif k in ("float", "double"): out.append("%.17g" % x)
        else: out.append("%d" % x)
    def path(p): return "/".join(str(i) for i in p)
    def tree(t):
        if t is None:
            out.append("-"); return
        typ, kids, vals, sets = t
        out.append("%d" % l.ti[typ])
        for k in kids: tree(k)
        for i, x in zip(l.ctor(typ)[1], vals): v(l.vk(l.attrs[typ][i]), x)
        out.append("%d" % len(sets))
        nk = len(l.kids[typ])
        for f, r, x in sets:
            out.append("%d" % f); out.append("%d" % r)
            if f < nk: tree(x)
            else: v(l.vk(l.attrs[typ][f - nk]), x)
    def micro(ops, t, n):
        out.append(str(len(ops)))
        for op in ops:
            out.append(op[0])
            if op[0] in "todkx": out.append(str(op[1]))
            elif op[0] == "s": out.extend([str(op[1]), str(l.travs.index(op[2]))])
            elif op[0] == "S": out.append(str(l.travs.index(op[1])))
            elif op[0] == "w": out.append(str(op[1])); v(l.vk(l.attrs[n][op[1]]), op[2])
            elif op[0] == "u": out.append(str(op[1])); v(l.vk(l.data[t][op[1]]), op[2])
            elif op[0] == "R": tree(op[1])
    def sets(ops, t):
        out.append(str(len(ops)))
        for f, x in ops: out.append(str(f)); v(l.vk(l.data[t][f]), x)
    def one(op):
        k = op[0]
        out.append(k)
        if k == "B": out.extend([str(l.travs.index(op[1])), str(l.ti[op[2]])]); micro(op[3], op[1], op[2])
        elif k in "IJ": out.append(str(l.travs.index(op[1]))); sets(op[2], op[1])
        elif k == "G": out.append(str(op[1])); tree(op[2])
        elif k == "W":
            out.extend([path(op[1]), str(op[2]), str(op[3])])
            v(op[5], op[4])
        elif k == "E": out.extend([path(op[1]), str(op[2])]); v("string" if op[2] == 4 else "int", op[3])
        elif k == "P": out.extend([str(op[1]), path(op[2])])
        elif k in "DFX": out.append(str(op[1]))
        elif k == "C": out.extend([str(op[1]), path(op[2])])
        elif k == "T": out.extend([str(op[1]), str(l.travs.index(op[2]))])
        elif k == "Q":
            out.append(str(op[1]))
            for q in op[2]: one(q)
        elif k == "g": out.append(str(op[1])); out.extend(str(x) for x in op[2])
        elif k in "Yctbiv": out.append(str(op[1]))
        if k in "BIJQg": out.append(";")
        out.append("\n")
    for op in script: one(op)
    return " ".join(out) + " .\n"

# ---------------------------------------------------------------- the program
def program(l, skeleton=False):
    """skeleton: the functions of the user are the generated ones, and are reported when they are called."""
    s = l.sem
    o = []
    w = o.append
    w('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <errno.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <sys/wait.h>\n'
      '#include "ccn/ccn.h"\n#include "ccn/phase_driver.h"\n#include "ccngen/ast.h"\n#include "ccngen/enum.h"\n#include "ccngen/trav.h"\n#include "ccngen/trav_data.h"\n#include "user_types.h"\n#include "cvctl.h"\n')
    gates = l.gates
    w("#define NG %d\n" % max(1, len(gates)))
    w("#define NT %d\n#define NV %d\n" % (len(l.types), max(1, len(l.travs))))
    w(cfile("treeint.h"))
    for n in l.types:
        N = up(n)
        kids, attrs = l.kids[n], l.attrs[n]
        i = l.ti[n]
        nk = len(kids)
        for f, c in enumerate(kids):
            w("static node_st **kid_%d_%d(node_st *n) { return &(%s_%s(n)); }\n" % (i, f, N, up(c["name"])))
            w("static node_st *vis_%d_%d(node_st *n) { return TRAV%s(n); }\n" % (i, f, low(c["name"])))
        for f, a in enumerate(attrs):
            ct, k = l.ctype(a), l.vk(a)
            rd = READ(k, ct)
            w("static void set_%d_%d(node_st *n, int route) { node_st *here = n; (void)here; %s v = %s; " % (i, f, ct, rd))
            w("switch (route) { ")
            for r, macro in enumerate(l.routes[n, f]):
                m = "%s_%s(n)" % (up(macro), up(a["name"]))
                w("case %d: %s%s = v; break; " % (r, ("cv_free(%s); " % m) if k == "string" else "", m))
            w('default: die("route"); } }\n')
        # construction
        ck, ca = l.ctor(n)
        w("static node_st *mk_%d(void) { node_st *here = NULL; (void)here; " % i)
        for c in ck: w("node_st *c%d = build(); " % c)
        for a in ca: w("%s a%d = %s; " % (l.ctype(attrs[a]), a, READ(l.vk(attrs[a]), l.ctype(attrs[a]))))
        w("return AST%s(%s); }\n" % (n, ", ".join(["c%d" % c for c in ck] + ["a%d" % a for a in ca])))
        # dump
        w("static void dump_%d(node_st *n) {\n" % i)
        for f, a in enumerate(attrs):
            m = "%s_%s(n)" % (N, up(a["name"]))
            w("  putchar(' '); %s;\n" % SHOW(l.vk(a), m))
            for macro in l.routes[n, f][1:]:
                w('  if (&%s_%s(n) != &%s) printf("!route %s");\n' % (up(macro), up(a["name"]), m, macro))
        w("  if (NODE_NUMCHILDREN(n) != %d) printf(\"!numchildren %%ld\", (long)NODE_NUMCHILDREN(n));\n" % nk)
        for f, c in enumerate(kids):
            m = "%s_%s(n)" % (N, up(c["name"]))
            w('  if (NODE_CHILDREN(n)[%d] != %s || &NODE_CHILDREN(n)[%d] != &%s) printf("!child %d");\n' % (f, m, f, m, f))
            w("  putchar(' '); dump(%s);\n" % m)
        w("}\n")
    for n in l.types:
        i = l.ti[n]
        w("static kid_ft kids_%d[] = {%s};\nstatic vis_ft viss_%d[] = {%s};\nstatic set_ft sets_%d[] = {%s};\n" % (
            i, ", ".join(["kid_%d_%d" % (i, f) for f in range(len(l.kids[n]))] + ["0"]), i,
            ", ".join(["vis_%d_%d" % (i, f) for f in range(len(l.kids[n]))] + ["0"]), i,
            ", ".join(["set_%d_%d" % (i, f) for f in range(len(l.attrs[n]))] + ["0"])))
    w("static struct tinfo T[NT] = {\n")
    for n in l.types:
        i = l.ti[n]
        w("  {NT_%s, %d, %d, mk_%d, dump_%d, kids_%d, viss_%d, sets_%d},\n" % (up(n), len(l.kids[n]), len(l.attrs[n]), i, i, i, i, i))
    w("};\n")
    # traversals
    for j, t in enumerate(l.travs):
        x = s.trav[t]
        U = up(x["uid"])
        if l.data[t]:
            w("static void show_d%d(void) { struct data_%s *d = DATA_%s_GET();" % (j, low(x["uid"]), U))
            for a in x["data"]: w(" putchar(' '); %s;" % SHOW(l.vk(a), "d->" + a["name"]))
            w(" }\n")
            w("static void set_d%d(int f, node_st *here) { struct data_%s *d = DATA_%s_GET(); (void)here; switch (f) {" % (j, low(x["uid"]), U))
            for f, a in enumerate(x["data"]):
                w(" case %d: { %s v = %s; %sd->%s = v; } break;" % (f, l.ctype(a), READ(l.vk(a), l.ctype(a)),
                  "cv_free(d->%s); " % a["name"] if l.vk(a) == "string" else "", a["name"]))
            w(' default: die("data field"); } }\n')
            w("static void drop_d%d(void) { struct data_%s *d = DATA_%s_GET(); (void)d;" % (j, low(x["uid"]), U))
            for a in x["data"]:
                if l.vk(a) == "string": w(" cv_free(d->%s);" % a["name"])
            w(" }\n")
            if not skeleton: w("void %sinit() { tinit(%d); }\nvoid %sfini() { tfini(%d); }\n" % (U, j, U, j))
        for n in l.types:
            if l.walks[t][n] == "user" and not skeleton:
                w("node_st *%s%s(node_st *node) { return handle(%d, %d, node); }\n" % (U, n, j, l.ti[n]))
    w("static struct vinfo V[NV] = {\n")
    for j, t in enumerate(l.travs):
        x = s.trav[t]
        d = bool(l.data[t])
        w("  {TRAV_%s, %s},\n" % (up(x["uid"]), "show_d%d, set_d%d, drop_d%d" % (j, j, j) if d else "0, 0, 0"))
    if not l.travs: w("  {0}\n")
    w("};\n")
    if skeleton:
        w("#define QUIET __attribute__((no_instrument_function))\n")
        for f in written(l): w("extern void %s();\n" % f)
        w("QUIET void __cyg_profile_func_enter(void *f, void *at) {\n")
        for f in written(l): w('  if (f == (void *)%s) puts("CALL %s");\n' % (f, f))
        w("}\nQUIET void __cyg_profile_func_exit(void *f, void *at) { }\n")
    else:
        for j, p in enumerate(s.spec["passes"]):
            w("node_st *%s(node_st *node) { return act(%d, node); }\n" % (s.pass_func(p), j))
    for j, g in enumerate(gates):
        w("bool %s() { return gate(%d); }\n" % (g, j))
    w(cfile("treemain.h"))
    return "".join(o)

def written(l):
    """The functions that the user writes, except gates."""
    out = sorted({l.sem.pass_func(p) for p in l.sem.spec["passes"]})
    for t in l.travs:
        U = up(l.sem.trav[t]["uid"])
        out += [U + "init", U + "fini"] if l.data[t] else []
        out += [U + n for n in l.types if l.walks[t][n] == "user"]
    return out

def cfile(name):
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c", name)) as f:
        return f.read()

def READ(k, ct):
    if k == "string": return "rdstr()"
    if k == "link": return "rdlink(here)"
    if k == "float": return "(float)strtod(tok(), NULL)"
    if k == "double": return "strtod(tok(), NULL)"
    if k == "uptr": return "(uptr)(uintptr_t)strtoull(tok(), NULL, 10)"
    if k in INTS and INTS[k][0] == 0: return "(%s)strtoull(tok(), NULL, 10)" % ct
    return "(%s)strtoll(tok(), NULL, 10)" % ct

def SHOW(k, e):
    if k == "string": return "pstr(%s)" % e
    if k == "link": return "pnode(%s)" % e
    if k in ("float", "double"): return 'printf("%%.17g", (double)%s)' % e
    if k == "uptr": return 'printf("%%llu", (unsigned long long)(uintptr_t)%s)' % e
    if k in INTS and INTS[k][0] == 0: return 'printf("%%llu", (unsigned long long)%s)' % e
    return 'printf("%%lld", (long long)%s)' % e
