PROPERTY = "C13"
NEEDS = "planes with reference points in the positive octant whose region is elsewhere"
BREAKS = "the linear program only looks for interior points with positive coordinates"
EDITS = [("czone/volume/algebraic.py",
          "                  bounds=[(None, None)] * 3 + [(0, None)])\n    if (res.status == 0):",
          "                  bounds=[(0, None)] * 4)\n    if res.status == 0:")]
DEMO = '''
import numpy as np
from czone.volume import Plane
from czone.volume.algebraic import get_bounding_box

# a block about (-5, -5, -5): every plane goes through a point with positive coordinates
planes = []
center = np.full(3, -5.0)
for i in range(3):
    n = np.full(3, -1.0)
    n[i] = 3
    for s in (1, -1):
        c = n @ center + s
        p = np.full(3, 0.5)
        p[(i + 1) % 3] = 3 * 0.5 - 0.5 - c
        assert np.isclose(n @ p, c) and (p > 0).all()
        planes.append(Plane(s * n, p))
b, status = get_bounding_box(planes)
assert status == 0, status
assert len(b) >= 8 and np.allclose(b.mean(axis=0), center, atol=1e-5)
'''
