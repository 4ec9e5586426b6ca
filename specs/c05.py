"""C05 Composite volumes resolve overlaps between members by precedence."""
from vc.spec import Registry
from specs import common as K
from specs.c04 import want
import numpy as _np

R = Registry()
MODULES = ("czone.volume.volume",)
V = "czone.volume.volume."
POP = [V + "MultiVolume.__init__", V + "MultiVolume.add_volume", V + "MultiVolume._get_priorities", V + "MultiVolume.populate_atoms"]


@R.proof("populate", POP, con=100)
def populate(c):
    n = c.size("n", lo=1, hi=5)
    m = K.volumes(c, "M", n)
    mv = c.cls(V + "MultiVolume")(volumes=m.list)
    mv.populate_atoms()
    c.ensure("no member is lost", c.eq(c.length(mv.volumes), n))
    K.kept_exactly(c, "composite", mv.atoms, mv.species, m, want(c, m))


@R.scenario("nested composites of real volumes", quick=30, thorough=400)
def nested(s):
    K.composite_scenario(s, scene=False)
