PROPERTY = "C24"
NEEDS = "a molecule of which some atoms, but not all of them, land inside the volume"
BREAKS = "a placement counts as a success as soon as one atom lies outside"
EDITS = [("czone/surface/adsorbate.py",
          "    if np.all(np.logical_not(volume.checkIfInterior(mol_out.atoms))):",
          "    if not np.all(volume.checkIfInterior(mol_out.atoms)):")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
from czone.molecule import Molecule
from czone.surface.adsorbate import add_adsorbate

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
v = Volume(points=makeRectPrism(13, 13, 13) - 0.1, generator=g)
v.populate_atoms()
# the second atom hangs from the bonding atom, into the volume
m = Molecule(np.array([8, 6]), np.array([[0, 0, 0], [0, 0, -5.0]]))
for seed in range(6):
    out, ok = add_adsorbate(m, 0, 2.0, v, seed=seed)
    assert ok == (not v.checkIfInterior(out.atoms).any())
'''
