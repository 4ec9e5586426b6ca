PROPERTY = 'C11'
NEEDS = 'a rotation axis shorter than one'
EDITS = [('czone/transform/transform.py', """    v = v * (theta / np.linalg.norm(v))
""", """    v = v * (theta / max(np.linalg.norm(v), 1.0))
""")]
BREAKS = 'rotations about axes shorter than a unit vector turn by less than the angle asked'
DEMO = '''
import numpy as np
from czone.transform.transform import rot_v
for s in (3.0, 1.0, 0.2):
    R = rot_v(s * np.array([0.6, 0.0, 0.8]), 0.9)
    assert abs(np.trace(R) - 1 - 2 * np.cos(0.9)) < 1e-9, s
'''
