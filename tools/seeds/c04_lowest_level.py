PROPERTY = "C04"
NEEDS = "two overlapping objects that share the lowest priority number of the scene"
BREAKS = "atoms of the first object in the shared region are kept although the other object of the same priority contains them"
EDITS = [("czone/scene/scene.py", "            eidx = offsets[rel_plevels[i] + 1]\n", "            # nothing precedes the objects of the first level\n            eidx = offsets[rel_plevels[i] + 1] if rel_plevels[i] > 0 else i\n")]
DEMO = '''
import numpy as np
from czone.scene import Scene
from czone.volume import Volume, Sphere
from czone.generator.generator import BaseGenerator

class G(BaseGenerator):
    def supply_atoms(self, bbox):
        return np.array([[0.0, 0, 0], [1.0, 0, 0], [2.0, 0, 0]]), np.array([6, 7, 8])

a = Volume(alg_objects=[Sphere(1.5, [0, 0, 0])], generator=G(), priority=3)
b = Volume(alg_objects=[Sphere(1.5, [2, 0, 0])], generator=G(), priority=3)
c = Volume(alg_objects=[Sphere(9.0, [0, 0, 0])], generator=G(), priority=7)
s = Scene(objects=[c, a, b])
s.populate()
assert sorted(s.all_atoms[:, 0].tolist()) == [0.0, 2.0], s.all_atoms
assert len(s.all_atoms) == len(s.all_species)
'''
