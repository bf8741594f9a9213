from ..phasegen import RunCheck

class C10(RunCheck):
    id = "C10"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with nested phases and cycles and four to eight run histories in which passes or traversal handlers raise "
            "action or phase errors at random steps; it is non-trivial if some history raised a signal and was stopped by it")
    profile = dict(nodes=(1, 4), passes=(1, 4), travs=(0, 2), phases=(1, 6), nsattrs=0, attrs=1, enums=(0, 0), data=True, actions=4, expanded=30)
    runs = dict(notify=0.12, errors=0.15, edit=0.1, renew=0.3, check=0.3, verbose=0.15)
    scripts = (5, 10)

    def interesting(self, spec, lay, m):
        return "stopped" in m.stats and bool({"phase error", "action error"} & set(m.stats))

check = C10()
