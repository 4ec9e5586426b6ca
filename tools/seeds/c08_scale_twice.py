PROPERTY = 'C08'
NEEDS = 'a crystal whose voxel has a scale other than one'
BREAKS = 'transforming a crystal multiplies its cell by the scale of the voxel once more'
EDITS = [('czone/generator/generator.py', '            self.voxel.bases)\n\n        if not (transformation.basis_only):', '            self.voxel.sbases)\n\n        if not (transformation.basis_only):')]
DEMO = '''

import numpy as np
from czone.generator import Generator
from czone.transform import Rotation, rot_v
g = Generator.from_unit_cell([6], [[0.25, 0, 0]], [3.0, 4.0, 5.0], [90, 90, 90])
g.voxel.scale = 1.5
b = g.voxel.sbases
R = rot_v(np.array([0, 0, 1.0]), 0.3)
g.transform(Rotation(R))
assert np.allclose(g.voxel.sbases, R @ b), (g.voxel.sbases, R @ b)
'''
