from ..treegen import TreeCheck, MICRO

class C07(TreeCheck):
    id = "C07"
    quick, thorough = 500, 8000
    rule = ("a case is a specification with traversals over random target sets and three to six scripts that build type-correct trees and start "
            "traversals whose handlers visit children through every helper, start nested traversals, and replace, copy or remove nodes; it is "
            "non-trivial if in some script at least three handlers ran and one silent walk, skipped child, or replacement happened")
    profile = dict(nodes=(2, 6), passes=(0, 0), travs=(1, 3), phases=(0, 0), nsattrs=0.1, attrs=2, enums=(0, 1), data=False)
    ops = dict(T=8, D=1, G=2, P=2, C=0, F=1, W=0, E=0, L=1)
    micro = dict(c=6, t=4, o=2, d=2, s=1, S=0, k=1, x=1, w=1, v=0, u=0, R=2, K=1, n=1)

    def interesting(self, spec, lay, m):
        return m.steps >= 3 and bool({"silent", "skipped", "replaced"} & set(m.stats))

check = C07()
