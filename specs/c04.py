"""C04 Scenes resolve overlaps by precedence."""
from vc.spec import Registry
from specs import common as K
import numpy as _np

R = Registry()
MODULES = ("czone.scene.scene", "czone.volume.volume")
S = "czone.scene.scene."



def want(c, m):
    """an atom stays exactly when no other object of the same or a lower priority number contains it"""
    def w(k, i):
        x = m.atom(k, i)
        return c.forall(m.n, lambda j: c.imp(c.and_(c.not_(c.eq(j, k)), c.le(m.prio(j), m.prio(k))), c.not_(m.inside(j, x))))
    return w


@R.proof("populate", [S + "Scene.__init__", S + "Scene.add_object", S + "Scene._get_priorities", S + "Scene.populate", S + "Scene.all_atoms", S + "Scene.all_species"], con=100)
def populate(c):
    n = c.size("n", lo=1, hi=5)
    m = K.volumes(c, "M", n)
    sc = c.cls(S + "Scene")(objects=m.list)
    sc.populate()
    at, sp = sc.all_atoms, sc.all_species
    c.ensure("no object is lost", c.eq(c.length(sc.objects), n))
    K.kept_exactly(c, "scene", at, sp, m, want(c, m))


@R.scenario("scenes of real volumes and composites", quick=30, thorough=400)
def real(s):
    K.composite_scenario(s, scene=True)
