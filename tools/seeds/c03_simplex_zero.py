PROPERTY = "C03"
NEEDS = "a point in the one tetrahedron that comes first in the triangulation of the hull"
BREAKS = "points in the first tetrahedron of the triangulation are reported outside"
EDITS = [("czone/volume/volume.py", "self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)", "self.tri.find_simplex(testPoints, tol=self.tolerance) > 0)")]
DEMO = '''
import numpy as np
from czone.volume import Volume
from czone.volume.volume import makeRectPrism
v = Volume(points=makeRectPrism(2.0, 3.0, 4.0))
P = np.random.default_rng(0).uniform([0.01] * 3, [1.99, 2.99, 3.99], size=(2000, 3))
assert v.checkIfInterior(P).all(), (~v.checkIfInterior(P)).sum()
'''
