PROPERTY = 'C22'
NEEDS = 'indices counted from the end'
BREAKS = 'atoms named by negative indices are kept'
EDITS = [('czone/molecule/molecule.py', '        self._species = np.delete(self.species, indices, axis=0)\n        self._atoms = np.delete(self.atoms, indices, axis=0)', '        keep = np.setdiff1d(np.arange(self.atoms.shape[0]), list(indices))\n        self._species = self.species[keep]\n        self._atoms = self.atoms[keep, :]')]
DEMO = '''

import numpy as np
from czone.molecule import Molecule
m = Molecule([6, 7, 8], np.arange(9.0).reshape(3, 3))
m.remove_atoms([-1])
assert m.species.tolist() == [6, 7] and m.atoms.shape == (2, 3), (m.species, m.atoms)
'''
