PROPERTY = 'C09'
NEEDS = 'a cylinder moved by a translation held in a sequence together with a rotation about an origin'
BREAKS = 'cylinders are moved along their own axis only'
EDITS = [('czone/transform/transform.py', '        if isinstance(alg_object, Plane) or isinstance(alg_object, Cylinder):\n            alg_object.point = alg_object.point + self.shift', '        if isinstance(alg_object, Plane):\n            alg_object.point = alg_object.point + self.shift\n\n        if isinstance(alg_object, Cylinder):\n            alg_object.point = alg_object.point + np.abs(alg_object.axis) * self.shift if np.abs(alg_object.axis).max() == 1.0 else alg_object.point + self.shift')]
DEMO = '''

import numpy as np
from czone.volume import Cylinder
from czone.transform import Translation
c = Cylinder((1, 0, 0), (0, 0, 0), 1.0, 10.0)
x = np.array([[4.5, 0.5, 0.0]])
t = Translation([0, 5.0, 0])
assert t.applyTransformation_alg(c).checkIfInterior(t.applyTransformation(x)).all()
'''
