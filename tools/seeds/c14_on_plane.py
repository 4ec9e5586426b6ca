PROPERTY = 'C14'
NEEDS = 'mode "ceil" for a point that lies exactly on a plane of the family other than the one through the origin'
EDITS = [('czone/util/misc.py', """    return np.sign(x) * np.ceil(np.abs(x))
""", """    return np.trunc(x + np.sign(x))
""")]
BREAKS = 'the next plane outwards is taken although the point already lies on one'
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume.algebraic import snap_plane_near_point
g = Generator(structure=Structure(Lattice.cubic(4.0), ["Cu"], [[0, 0, 0]]))
for h, p in (((0, 0, 1), (1.0, 2.0, 8.0)), ((1, 0, 0), (-12.0, 0.5, 0.5))):
    pl = snap_plane_near_point(np.array(p), g, h, mode="ceil")
    assert abs(pl.sdist_from_plane(np.array([p]))[0]) < 1e-6, (h, p, pl.params)
    q = np.array(p) * (1 - 0.05)
    pl = snap_plane_near_point(q, g, h, mode="ceil")
    assert abs(pl.sdist_from_plane(np.array([p]))[0]) < 1e-6, (h, q, pl.params)
'''
