from ..treegen import TreeCheck

class C05(TreeCheck):
    id = "C05"
    quick, thorough = 450, 8000
    rule = ("a case is a specification and four to eight histories that copy trees or subtrees, write fields of the copy and the original, exchange "
            "their subtrees, and free one of them, with dumps of both; it is non-trivial if some copied tree had at least four nodes and strings")
    profile = dict(nodes=(1, 6), passes=(0, 1), travs=(0, 0), phases=(0, 0), nsattrs=0.4, attrs=5, children=4, enums=(0, 2), user=True)
    ops = dict(W=6, E=4, P=2, D=1, C=6, F=2, T=0, L=1, G=3)
    scripts, nops, asan = (4, 8), (8, 20), True

    def interesting(self, spec, lay, m):
        return m.stats.get("copied", 0) >= 4

check = C05()
