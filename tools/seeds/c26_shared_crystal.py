PROPERTY = "C26"
NEEDS = "a shape on a substrate whose free shape has been computed before"
BREAKS = "a shape on a substrate takes the place of the free shape"
EDITS = [("czone/prefab/wulff.py",
          "        wulff = Winterbottom(self.surface_energies, interface, interface_energy,\n                             self.p_atoms, self.natoms)\n        planes = self.planes_from_wulff(wulff)",
          "        self._wulff = Winterbottom(self.surface_energies, interface, interface_energy,\n                                   self.p_atoms, self.natoms)\n        planes = self.planes_from_wulff(self._wulff)")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.prefab.wulff import WulffSingle

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
w = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 1.1}, 500)
n = len(w.get_construction().alg_objects)
w.winterbottom((1, 1, 1), 0.1)
assert len(w.get_construction().alg_objects) == n and w.get_construction().checkIfInterior(np.zeros((1, 3)))[0]
d = [float(p.normal @ p.point) for p in w.get_construction().alg_objects]
assert min(d) > 5
'''
