PROPERTY = "C05"
NEEDS = "members handed over in an order that is not the order of their priorities, with different species"
BREAKS = "the species of a composite are listed in the order the members were added while the atoms are in order of priority"
EDITS = [("czone/volume/volume.py", "        #routine is modified form of scene atom population\n        for vol in self.volumes:\n            vol.populate_atoms()\n", "        #routine is modified form of scene atom population\n        members = list(self.volumes)\n        for vol in members:\n            vol.populate_atoms()\n"),
         ("czone/volume/volume.py", "            [vol.species[checks[i]] for i, vol in enumerate(self.volumes)])", "            [vol.species[checks[self.volumes.index(vol)]] for vol in members])")]
DEMO = '''
import numpy as np
from czone.volume import Volume, MultiVolume, Sphere
from czone.generator.generator import BaseGenerator

class G(BaseGenerator):
    def __init__(self, x, z):
        self.x, self.z = x, z

    def supply_atoms(self, bbox):
        return np.array([[self.x, 0.0, 0.0]]), np.array([self.z])

v = Volume(alg_objects=[Sphere(1.2, [0, 0, 0])], generator=G(0.0, 6), priority=2)
w = Volume(alg_objects=[Sphere(1.2, [9.0, 0, 0])], generator=G(9.0, 79), priority=1)
m = MultiVolume([v, w])
m.populate_atoms()
got = sorted(zip(m.atoms[:, 0].tolist(), m.species.tolist()))
assert got == [(0.0, 6), (9.0, 79)], got
'''
