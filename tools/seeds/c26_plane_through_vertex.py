PROPERTY = "C26"
NEEDS = "a shape on a substrate that attracts it so much that the interface lies above the shape's center"
BREAKS = "the plane of a facet beyond the center is put on the other side of the center"
EDITS = [("czone/prefab/wulff.py",
          "            Plane(f.normal, f.normal * f.distance_from_origin)\n            for f in wulff._yield_facets()",
          "            Plane(f.normal, f.normal * np.abs(f.distance_from_origin))\n            for f in wulff._yield_facets()")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.prefab.wulff import WulffSingle

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
w = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 1.1}, 500)
v = w.winterbottom((1, 1, 1), -0.3)
# the shape lies above an interface that lies above its center
assert not v.checkIfInterior(np.array([[0, 0, 0.1]]))[0]
'''
