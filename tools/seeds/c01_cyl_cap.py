PROPERTY = "C01"
NEEDS = "a point whose distance from the mid-point along the axis lies between half length plus half the tolerance and half length plus the tolerance"
BREAKS = "the tolerance of a cylinder is halved along its axis"
EDITS = [("czone/volume/algebraic.py", "length_dists < self.length/2.0 + self.tol", "2.0*length_dists < self.length + self.tol")]
DEMO = '''
import numpy as np
from czone.volume import Cylinder
c = Cylinder([0, 0, 2.0], [1.0, 0, 0], 1.0, 4.0, tol=0.1)
r = c.checkIfInterior(np.array([[1.0, 0, 2.08], [1.0, 0, -2.08], [1.0, 0, 2.02], [1.0, 0, 2.2]]))
assert list(r) == [True, True, True, False], r
'''
