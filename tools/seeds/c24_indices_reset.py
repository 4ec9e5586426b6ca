PROPERTY = "C24"
NEEDS = "an indices filter next to another filter, or that lists an atom below the surface"
BREAKS = "the atom chosen only has to be in the list: the surface and the filters given before are forgotten"
EDITS = [("czone/surface/adsorbate.py",
          "            tmp_mask[val] = True\n            valid_indices = np.logical_and(valid_indices, tmp_mask)",
          "            tmp_mask[val] = True\n            valid_indices = tmp_mask")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
from czone.molecule import Molecule
from czone.surface.adsorbate import add_adsorbate

g = Generator(structure=Structure(Lattice.cubic(4.08), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
v = Volume(points=makeRectPrism(13, 13, 13) - 0.1, generator=g)
v.populate_atoms()
m = Molecule(np.array([8, 6]), np.array([[0, 0, 0], [0, 0, 1.1]]))
top = v.atoms[:, 2] > v.atoms[:, 2].max() - 0.1
for seed in range(12):
    _, t, *_ = add_adsorbate(m, 0, 2.0, v, debug=True, seed=seed, use_sampling=True,
                             filters={"mask": top, "indices": list(range(len(top)))})
    assert top[t], "an atom was chosen that the mask excludes"
'''
