from ..phasegen import RunCheck, RunGen
from ..gen import Gen
from ..sem import low
from ..tree import Lay

class BreakGen(RunGen):
    def before(self, i):
        ch, l = self.ch, self.l
        if i > 0: return
        if ch.bool(0.6): self.emit(["l"])
        acts = list(l.tree.walk())
        k = ch.weighted([(4, "path"), (4, "id"), (1, "none"), (1, "both")])
        if k in ("id", "both"): self.emit(["i", ch.int(1, len(acts) + 1)])
        if k in ("path", "both"):
            dup = [x for x in acts if sum(y.name == x.name for y in acts) > 1]
            for _ in range(8):
                a = ch.pick(dup if dup and ch.bool() else acts)
                names = l.names(a)
                if ch.bool() and len(names) > 1: names = names[1:]
                if ch.bool(0.12): names[ch.below(len(names))] = low(ch.pick(acts).name)     # most of these name nothing
                if plain(l, acts, names): break
            else: return
            text = ".".join(names)
            self.emit(["b", "".join(c.upper() if ch.bool(0.4) else c for c in text)])

def plain(l, acts, names):
    """The path means the same whether or not intermediate phases may be left out."""
    def sub(small, big):
        it = iter(big)
        return all(x in it for x in small)
    exact = {a.id for a in acts if l.names(a) == names or l.names(a)[1:] == names}
    loose = {a.id for a in acts if l.names(a)[-1] == names[-1] and sub(names, l.names(a))}
    return exact == loose

class C20(RunCheck):
    id = "C20"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with nested phases and cycles and five to ten run histories with a breakpoint (path in random letter case, "
            "number, or both) and the structure listing; it is non-trivial if some run stopped at a breakpoint beyond the first action")
    profile = dict(nodes=(1, 3), passes=(1, 4), travs=(0, 2), phases=(1, 6), nsattrs=0, attrs=1, enums=(0, 0), data=False, actions=4, expanded=30)
    runs = dict(notify=0.15, edit=0.15, renew=0.3, check=0.3, verbose=0.1)
    runner = BreakGen
    scripts = (6, 12)

    def interesting(self, spec, lay, m):
        return "break" in m.stats and m.cur > 2

check = C20()
