PROPERTY = 'C15'
NEEDS = 'a surface copied without a transformation whose center is then changed in place'
BREAKS = 'the copy of a surface keeps the arrays of the original'
EDITS = [('czone/volume/algebraic.py', '        new_alg_object = copy.deepcopy(self)\n\n        if "transformation" in kwargs.keys():\n            for t in kwargs["transformation"]:\n', '        # the transformations replace parameters and leave their arrays alone\n        new_alg_object = copy.copy(self)\n\n        if "transformation" in kwargs.keys():\n            for t in kwargs["transformation"]:\n')]
DEMO = '''

import numpy as np
from czone.volume import Sphere
s = Sphere(2.0, np.array([0.0, 0, 0]))
k = s.from_alg_object()
k.center += np.array([1.0, 0, 0])
k.center[1] = 5.0
assert np.allclose(s.center, 0), s.center
'''
