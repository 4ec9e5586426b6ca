PROPERTY = 'C12'
NEEDS = 'surfaces that do not pass through the origin'
BREAKS = 'the moved surface is put at a distance from the target surface'
EDITS = [('czone/transform/transform.py', '    R_t = Rotation(matrix=R, origin=M_plane.point)', '    R_t = Rotation(matrix=R)')]
DEMO = '''

import numpy as np
from czone.volume import Plane
from czone.transform import s2s_alignment
M, T = Plane((1, 0, 0), (2.0, 1, 0)), Plane((0, 0, 1), (0, 0, 5.0))
t = s2s_alignment(M, T, np.array([2.0, 0, 0]), np.array([1.0, 1, 5]))
x = t.applyTransformation(np.array([[2.0, 3, 4], [2.0, -1, 7]]))
assert np.allclose(T.sdist_from_plane(x), 0), x
'''
