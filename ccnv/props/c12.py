from ..engine import Violation
from ..phasegen import RunCheck, RunGen

class IllGen(RunGen):
    def root(self, r):
        self.ill = self.ch.pick([0, 0, 0.08, 0.25])
        super().root(r)
        self.ill = 0

class C12(RunCheck):
    runner = IllGen
    id = "C12"
    quick, thorough = 450, 8000
    rule = ("a case is a specification and five to ten runs whose trees get nodes of random types put into random child slots, before the run or by "
            "a pass, with checking on or off; it is non-trivial if some run was stopped by an ill-typed child or ran with one while checking was off")
    profile = dict(nodes=(2, 7), nodesets=(1, 5), passes=(1, 2), travs=(0, 1), phases=(0, 2), nsattrs=0.1, attrs=1, enums=(0, 0), data=False,
                   actions=3, cycles=False)
    runs = dict(notify=0, edit=0.6, renew=0.02, swap=8, write=1, illtyped=0.4, check=0.8, toggle=0.1, runs=(1, 3), verbose=0, behave=False)
    scripts = (10, 18)

    def interesting(self, spec, lay, m):
        return "inconsistent" in m.stats
    def extra(self, m, r, text):
        if "inconsistent" in m.stats and "error" not in r.err:
            raise Violation("stopped without an error message: %r\n%s" % (r.err[:300], text))

check = C12()
