from ..treegen import TreeCheck

class C06(TreeCheck):
    id = "C06"
    quick, thorough = 450, 8000
    rule = ("a case is a specification and four to eight histories that build trees with strings and node links in all directions and free them whole "
            "or by subtree; liveness of every node and string is compared after each free, and nothing may be left at the end; it is non-trivial if "
            "some history freed at least four nodes")
    profile = dict(nodes=(1, 6), passes=(0, 1), travs=(1, 2), phases=(0, 0), nsattrs=0.4, attrs=5, children=4, enums=(0, 1), user=True,
                   prims=["string", "int", "string", "double"])
    ops = dict(W=5, E=4, P=3, D=3, C=1, F=5, T=1, L=1, G=5)
    micro = dict(c=5, t=1, o=1, d=0, s=1, S=0, k=1, x=3, w=1, v=0, u=1, R=1, K=1, n=2)
    scripts, nops, asan = (4, 8), (8, 22), True

    def interesting(self, spec, lay, m):
        return len([x for x in m.known if not x.live]) >= 4 and any(o == "F ok" for o in m.log)

check = C06()
