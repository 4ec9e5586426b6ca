PROPERTY = 'C06'
NEEDS = 'a volume populated again with the same number of atoms from another crystal'
EDITS = [('czone/volume/volume.py', """        self._species = species[check]
""", """        if getattr(self, "_species", None) is None or len(self._species) != len(self._atoms):
            self._species = species[check]
""")]
BREAKS = 'the species of the first population stay when the second one has as many atoms'
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume
from czone.volume.algebraic import Sphere
v = Volume(alg_objects=[Sphere(6.0, np.array([1.0, 2.0, 3.0]))], generator=Generator(structure=Structure(Lattice.cubic(3.0), ["Cu"], [[0, 0, 0]])))
v.populate_atoms()
assert set(v.species) == {29}
v.add_generator(Generator(structure=Structure(Lattice.cubic(3.0), ["Au"], [[0, 0, 0]])))
v.populate_atoms()
assert set(v.species) == {79}, set(v.species)
'''
