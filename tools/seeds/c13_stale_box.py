PROPERTY = "C13"
NEEDS = "a spherical volume whose box was asked for before the volume is moved"
BREAKS = "the bounding box of a sphere is remembered and not recomputed when the volume is transformed"
EDITS = [("czone/volume/volume.py",
          "                return bbox + shift\n",
          "                self._sphere_box = bbox + shift\n                return self._sphere_box\n"),
         ("czone/volume/volume.py",
          "            if len(spheres) > 0:\n                s_idx",
          "            if len(spheres) == 1 and getattr(self, '_sphere_box', None) is not None:\n                return self._sphere_box\n            if len(spheres) > 0:\n                s_idx")]
DEMO = '''
import numpy as np
from czone.volume import Volume, Sphere
from czone.transform import Translation

v = Volume(alg_objects=[Sphere(2.0, np.zeros(3))])
v.get_bounding_box()
v.transform(Translation(np.array([50.0, 0, 0])))
assert v.get_bounding_box()[:, 0].min() > 40
'''
