PROPERTY = "C26"
NEEDS = "a shape built, the energies of the same surfaces replaced, and built again"
BREAKS = "the shape built second is the one of the energies replaced"
EDITS = [("czone/prefab/wulff.py",
          "        if self._wulff is None:\n            self._wulff = SingleCrystal(self.surface_energies, self.p_atoms, self.natoms)\n        return self._wulff",
          "        key = (tuple(sorted(self.surface_energies)), self.p_atoms.cell[:].tobytes())\n        if getattr(self, '_key', None) != key:\n            self._kept, self._key = SingleCrystal(self.surface_energies, self.p_atoms, self.natoms), key\n        self._wulff = self._kept\n        if self._wulff.natoms != self.natoms:\n            self._wulff.natoms = self.natoms\n        return self._wulff")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.prefab.wulff import WulffSingle

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
w = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 1.1}, 500)
w.get_construction()
w.surface_energies = {(1, 0, 0): 1.0, (1, 1, 1): 0.8}
a = w.get_construction()
b = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 0.8}, 500).get_construction()
d = lambda v: sorted(float(p.normal @ p.point) for p in v.alg_objects)
assert len(d(a)) == len(d(b)) and np.allclose(d(a), d(b))
'''
