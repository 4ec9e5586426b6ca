PROPERTY = "C05"
NEEDS = "populate the composite, then change a member (transform it, give it another generator) and populate the composite again"
BREAKS = "members that already have atoms are not populated again, so the composite shows atoms they no longer supply"
EDITS = [("czone/volume/volume.py", "        for vol in self.volumes:\n            vol.populate_atoms()\n", "        for vol in self.volumes:\n            if getattr(vol, '_atoms', None) is None:\n                vol.populate_atoms()\n")]
DEMO = '''
import numpy as np
from czone.volume import Volume, MultiVolume, Sphere
from czone.generator.generator import BaseGenerator
from czone.transform import Translation

class G(BaseGenerator):
    def supply_atoms(self, bbox):
        x = np.arange(-5.0, 6.0)
        return np.stack([x, 0 * x, 0 * x], axis=1), np.arange(1, 12)

v = Volume(alg_objects=[Sphere(1.2, [0, 0, 0])], generator=G())
w = Volume(alg_objects=[Sphere(1.2, [9.0, 9, 9])], generator=G())
m = MultiVolume([v, w])
m.populate_atoms()
assert sorted(m.atoms[:, 0].tolist()) == [-1.0, 0.0, 1.0]
v.transform(Translation([2.0, 0, 0]))
m.populate_atoms()
assert sorted(m.atoms[:, 0].tolist()) == [1.0, 2.0, 3.0], m.atoms
'''
