PROPERTY = "C13"
NEEDS = "a volume bounded by two spheres about different centers, the larger one added first"
BREAKS = "the bounding box has the size of the smallest sphere but is put about the center of the first"
EDITS = [("czone/volume/volume.py",
          "                shift = spheres[s_idx].center - (d / 2) * np.ones(3)",
          "                shift = spheres[0].center - (d / 2) * np.ones(3)")]
DEMO = '''
import numpy as np
from czone.volume import Volume, Sphere

v = Volume(alg_objects=[Sphere(6.0, np.zeros(3)), Sphere(2.0, np.array([5.0, 0, 0]))])
b = v.get_bounding_box()
x = np.array([5.5, 0, 0])
assert v.checkIfInterior(x)[0]
assert (b.min(axis=0) <= x).all() and (x <= b.max(axis=0)).all()
'''
