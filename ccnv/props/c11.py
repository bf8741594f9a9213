from ..engine import Violation
from ..phasegen import RunCheck, RunGen
from ..gen import Gen
from ..tree import Lay, Machine

class LifeGen(RunGen):
    def root(self, r):
        """Prefer a tree that is consistent before the first action."""
        ch = self.ch
        for _ in range(5):
            self.budget = ch.weighted([(1, 2), (4, 6), (2, 12)])
            t = self.tree([self.l.sem.root], 5)
            m = Machine(self.l)
            m.R[1:] = self.m.R[1:]
            if not m.violations(m.build(t), 1): break
        self.emit(["G", r, t])

class C11(RunCheck):
    runner = LifeGen
    id = "C11"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with lifetimes on nodes, children and attributes over a random action structure, and five to ten runs that "
            "add and remove nodes, children and values at random actions; it is non-trivial if some run with lifetimes got past its first "
            "action and some run was stopped by a lifetime")
    profile = dict(nodes=(1, 4), passes=(1, 4), travs=(0, 2), phases=(0, 4), nsattrs=0.2, attrs=3, enums=(0, 0), data=False, actions=4,
                   expanded=24, prims=["string", "int", "string"], uidrefs=0.2)
    runs = dict(notify=0.1, edit=0.7, renew=0.1, swap=4, write=4, check=0.97, toggle=0.01, verbose=0)
    scripts = (12, 20)

    def gen(self, ch):
        self.profile = dict(type(self).profile, lifetimes=ch.pick([0.15, 0.2, 0.3, 0.45]))
        return super().gen(ch)
    def interesting(self, spec, lay, m):
        return "inconsistent" in m.stats and m.cur > 1
    def extra(self, m, r, text):
        if "inconsistent" in m.stats and "error" not in r.err:
            raise Violation("stopped without an error message: %r\n%s" % (r.err[:300], text))

check = C11()
