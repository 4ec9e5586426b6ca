PROPERTY = "C24"
NEEDS = "a molecule that already tracks the bonding atom as its origin"
BREAKS = "the molecule given is itself moved onto the surface"
EDITS = [("czone/surface/adsorbate.py",
          "    mol_out = mol.from_molecule()\n",
          "    mol_out = mol if mol._origin_tracking and mol._origin_idx == adsorbate_idx else mol.from_molecule()\n")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
from czone.molecule import Molecule
from czone.surface.adsorbate import add_adsorbate

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
v = Volume(points=makeRectPrism(13, 13, 13) - 0.1, generator=g)
v.populate_atoms()
X = np.array([[0, 0, 0], [0, 0, 1.1]])
m = Molecule(np.array([8, 6]), X.copy(), origin=1)
add_adsorbate(m, 1, 2.0, v, seed=3)
assert np.array_equal(m.atoms, X), "the molecule given has moved"
'''
