PROPERTY = 'C16'
NEEDS = 'a strained crystal that is rotated after it supplied atoms once'
BREAKS = 'the strain is expressed in the cell axes the crystal had when it was first asked for atoms'
EDITS = [('czone/transform/strain.py', '        if self.mode == "crystal":\n            self._bases = np.copy(obj.voxel.sbases)', '        if self.mode == "crystal" and self._bases is None:\n            self._bases = np.copy(obj.voxel.sbases)')]
DEMO = '''

import numpy as np
from czone.generator import Generator
from czone.transform import Rotation, rot_v
from czone.transform.strain import HStrain
from czone.volume import makeRectPrism
g = Generator.from_unit_cell([6], [[0, 0, 0]], [2.0, 2.0, 2.0], [90, 90, 90])
g.strain_field = HStrain([1.1, 1.0, 1.0])
box = makeRectPrism(6, 6, 6)
g.supply_atoms(box)
g.transform(Rotation(rot_v(np.array([0, 0, 1.0]), np.pi / 2)))
x, s = g.supply_atoms(box)
u = np.unique(np.round(x[:, 1], 6))
v = np.unique(np.round(x[:, 0], 6))
assert np.allclose(np.diff(u), 2.2) and np.allclose(np.diff(v), 2.0), (u, v)
'''
