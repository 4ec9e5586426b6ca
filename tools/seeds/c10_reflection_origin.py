PROPERTY = 'C10'
NEEDS = 'a reflection whose plane is replaced after it was made'
BREAKS = 'the reflection keeps the point of its first plane as origin'
EDITS = [('czone/transform/transform.py', '        self.origin = plane.point\n', '        if self.origin is None:\n            self.origin = plane.point\n')]
DEMO = '''

import numpy as np
from czone.volume import Plane
from czone.transform import Reflection
r = Reflection(Plane((0, 0, 1), (0, 0, 0.0)))
r.plane = Plane((0, 0, 1), (0, 0, 3.0))
x = r.applyTransformation(np.array([[1.0, 2.0, 5.0]]))
assert np.allclose(x, [[1, 2, 1]]), x
'''
