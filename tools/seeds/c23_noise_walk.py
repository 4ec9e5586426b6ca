PROPERTY = 'C23'
NEEDS = 'several samples of an alpha shape computed for positions the caller goes on using'
BREAKS = 'the noise of the samples is added to the positions given'
EDITS = [('czone/surface/alpha_shape.py', '''        circumradii = tetrahedron_circumradii((points+noise)[tri.simplices, :])''', '''        if i > 0:
            points += noise
        circumradii = tetrahedron_circumradii((points if i > 0 else points+noise)[tri.simplices, :])''')]
DEMO = '''

import numpy as np
from czone.surface.alpha_shape import alpha_shape_alg_3D_with_sampling as f
P = np.random.default_rng(3).random((30, 3)) * 4
Q = P.copy()
f(P, 2.0, 5, seed=1)
assert np.array_equal(P, Q)
'''
