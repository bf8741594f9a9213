from ..phasegen import RunCheck, MICRO

class C09(RunCheck):
    id = "C09"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with nested phases and cycles and four to eight run histories (gate results, change signals, cycle limits, "
            "tree replacement by passes, several runs per process); it is non-trivial if some history had a cycle repeat or a phase gated off")
    profile = dict(nodes=(1, 4), passes=(1, 4), travs=(0, 2), phases=(1, 6), nsattrs=0, attrs=2, enums=(0, 0), data=True, actions=4, expanded=30)
    runs = dict(notify=0.3, cycles=0.05, edit=0.15, renew=0.4, flood=1, check=0.3, verbose=0.1)

    def interesting(self, spec, lay, m):
        return bool({"repeated", "gated off"} & set(m.stats))

check = C09()
