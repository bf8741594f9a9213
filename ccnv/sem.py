"""Reference semantics of specifications, written from the documentation."""

def low(s): return s.lower()
def up(s): return s.upper()

class Sem:
    def __init__(self, spec):
        self.spec = spec
        self.node = {low(n["name"]): n for n in spec["nodes"]}
        self.order = [low(n["name"]) for n in spec["nodes"]]
        self.nodeset = {low(n["name"]): n for n in spec["nodesets"]}
        self.enum = {low(e["name"]): e for e in spec["enums"]}
        self.root = next((low(n["name"]) for n in spec["nodes"] if n.get("root")), None)
        self.trav = {low(t["name"]): t for t in spec["travs"]}
        self.passes = {low(p["name"]): p for p in spec["passes"]}
        self.phase = {low(p["name"]): p for p in spec["phases"]}
        self.uid = {}
        for k, xs in (("trav", spec["travs"]), ("pass", spec["passes"]), ("phase", spec["phases"])):
            for x in xs:
                if x.get("uid"):
                    self.uid[low(x["uid"])] = (k, x)
        self._mem = {}
        self._attrs = {}

    # ---- sets
    def members(self, e):
        """Set algebra: the nodes an expression denotes, in lower case."""
        if e[0] == "lit":
            return frozenset(low(n) for n in e[1])
        if e[0] == "ref":
            k = low(e[1])
            if k not in self._mem:
                self._mem[k] = self.members(self.nodeset[k]["expr"])
            return self._mem[k]
        l, r = self.members(e[2]), self.members(e[3])
        return l | r if e[1] == "|" else l & r if e[1] == "&" else l - r

    def refs(self, e):
        """Nodesets an expression refers to, transitively."""
        if e[0] == "lit": return set()
        if e[0] == "ref":
            return {low(e[1])} | self.refs(self.nodeset[low(e[1])]["expr"])
        return self.refs(e[2]) | self.refs(e[3])

    def ops(self, e):
        """Operators used by an expression, through references."""
        if e[0] == "lit": return set()
        if e[0] == "ref": return self.ops(self.nodeset[low(e[1])]["expr"])
        return {e[1]} | self.ops(e[2]) | self.ops(e[3])

    def typ(self, name):
        """Node types a type name stands for."""
        k = low(name)
        return frozenset([k]) if k in self.node else self.members(["ref", k])

    # ---- attributes
    def nodeset_attrs(self, ns):
        """Own attributes of a nodeset and those of the nodesets it is a member of."""
        out = list(self.nodeset[ns]["attrs"])
        for k, s in self.nodeset.items():
            if k != ns and ns in self.refs(s["expr"]):
                out += s["attrs"]
        return out

    def attrs(self, node):
        """All attributes of a node: its own, then those of the nodesets it is a member of."""
        if node not in self._attrs:
            own = list(self.node[node]["attrs"])
            names = {low(a["name"]) for a in own}
            for k, s in self.nodeset.items():
                if node in self.members(s["expr"]):
                    for a in s["attrs"]:
                        if low(a["name"]) not in names:
                            names.add(low(a["name"]))
                            own.append(a)
            self._attrs[node] = own
        return self._attrs[node]

    def children(self, node):
        return self.node[node]["children"]

    def ctor(self, node):
        """Constructor parameters: children, then attributes marked for construction."""
        return [c for c in self.children(node) if c.get("cons")], [a for a in self.node[node]["attrs"] if a.get("cons")]

    def attr_kind(self, a):
        """prim:<p> | enum | link | user"""
        t = a["t"]
        if t[0] == "prim": return t[1]
        if t[0] == "user": return "user"
        return "enum" if low(t[1]) in self.enum else "link"

    # ---- traversals
    def targets(self, t):
        return frozenset(self.order) if not t["nodes"] else self.members(t["nodes"])

    def below(self, node):
        """Node types that may lie beneath a node."""
        seen, todo = set(), [node]
        while todo:
            for c in self.children(todo.pop()):
                for k in self.typ(c["type"]):
                    if k not in seen:
                        seen.add(k); todo.append(k)
        return seen

    def walks(self, t):
        """Per node type: 'user' (targeted), 'walk' (a target may lie beneath) or 'skip'."""
        tg = self.targets(t)
        return {n: "user" if n in tg else "walk" if self.below(n) & tg else "skip" for n in self.order}

    # ---- actions
    def action(self, name):
        k = low(name)
        for kind, d in (("pass", self.passes), ("trav", self.trav), ("phase", self.phase)):
            if k in d: return kind, d[k]
        return self.uid[k]

    def pass_func(self, p):
        """C function of a pass: its func, else its uid followed by its name, else its name."""
        return p["func"] if p.get("func") else (up(p["uid"]) if p.get("uid") else "") + p["name"]

    def tree(self):
        """The action tree, numbered as executed: root 1, then depth first."""
        start = next(p for p in self.spec["phases"] if p.get("start"))
        count = [0]
        def build(kind, x, parent):
            count[0] += 1
            a = Action(count[0], kind, x, parent)
            if kind == "phase":
                for r in x["actions"]:
                    k, y = self.action(r)
                    a.sub.append(build(k, y, a))
            a.next = count[0] + 1
            return a
        return build("phase", start, None)

class Action:
    def __init__(self, id, kind, x, parent):
        self.id, self.kind, self.x, self.parent, self.sub, self.next = id, kind, x, parent, [], None
        self.name, self.uid = x["name"], x.get("uid")
    def walk(self):
        yield self
        for s in self.sub:
            yield from s.walk()
    def matches(self, name):
        return low(self.name) == low(name) or (self.uid is not None and low(self.uid) == low(name))
