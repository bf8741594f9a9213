from ..treegen import TreeCheck

class C04(TreeCheck):
    id = "C04"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with attributes of every kind, nodesets with attributes, and four to eight histories of constructions and field "
            "writes through node macros, nodeset macros and the child array, each followed by dumps through all of them; it is non-trivial if the "
            "specification has at least two constructor parameters and some history at least four operations")
    profile = dict(nodes=(1, 6), passes=(0, 1), travs=(0, 0), phases=(0, 0), nsattrs=0.7, attrs=6, children=5, enums=(0, 2), nodesets=(0, 4),
                   user=True, mixedfields=0.2)
    ops = dict(W=8, E=1, P=3, D=2, C=0, F=0, T=0, L=0, G=3)
    scripts, nops = (4, 8), (6, 20)

    def interesting(self, spec, lay, m):
        return sum(len(a) + len(b) for a, b in (lay.ctor(n) for n in lay.types)) >= 2 and len(m.log) >= 4

check = C04()
