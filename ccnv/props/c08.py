from ..treegen import TreeCheck

class C08(TreeCheck):
    id = "C08"
    quick, thorough = 450, 8000
    rule = ("a case is a specification whose traversals carry data of random types and four to eight histories in which handlers read and write the "
            "data, start traversals (the same or others) from inside, copy and free; it is non-trivial if some history nested a traversal and wrote data")
    profile = dict(nodes=(1, 4), passes=(0, 1), travs=(1, 4), phases=(0, 0), nsattrs=0.1, attrs=2, children=3, enums=(0, 1), user=True)
    ops = dict(W=0, E=0, P=1, D=0, C=0, F=1, T=8, L=1, G=2)
    micro = dict(c=6, t=1, o=1, d=1, s=3, S=2, k=1, x=1, w=0, v=6, u=6, R=1, K=0, n=0)
    scripts, nops, asan = (4, 8), (4, 10), True

    def interesting(self, spec, lay, m):
        return m.stats.get("nested", 0) > 0 and m.stats.get("data", 0) > 0

check = C08()
