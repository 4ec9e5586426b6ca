PROPERTY = 'C23'
NEEDS = 'a tetrahedron on the outside whose inner corner is opposite to the outer facet, and a last tetrahedron that passes the probe test'
BREAKS = 'corners opposite to an outer facet are reported although none of their own facets is exposed'
EDITS = [('czone/surface/alpha_shape.py', '''    sub_neighbors = tri.neighbors[surface_tris,:]
    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]

    if return_alpha_shape:
        shape_dict = {}

        # return the full triangulation and corresponding surface tris
        shape_dict["tri"]= tri
        shape_dict["surface_tris"] = surface_tris

        # also return list of simplices indices for full alpha shape
        a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
        shape_dict["a_tris"] = np.nonzero(a_tris)[0]

        return list(set(out_points)), shape_dict
    else:
        return list(set(out_points))


def alpha''', '''    sub_neighbors = tri.neighbors[surface_tris,:]
    out_points = sub_points[probe_test[sub_neighbors]]

    if return_alpha_shape:
        shape_dict = {}

        # return the full triangulation and corresponding surface tris
        shape_dict["tri"]= tri
        shape_dict["surface_tris"] = surface_tris

        # also return list of simplices indices for full alpha shape
        a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
        shape_dict["a_tris"] = np.nonzero(a_tris)[0]

        return list(set(out_points)), shape_dict
    else:
        return list(set(out_points))


def alpha''')]
DEMO = '''

import numpy as np
from czone.surface.alpha_shape import alpha_shape_alg_3D
# an octahedron of atoms around one in the middle: with a large probe only the six are on the surface
P = np.vstack([np.eye(3), -np.eye(3), np.zeros((1, 3))]) * 3.0
for s in range(20):
    np.random.seed(s)
    out = alpha_shape_alg_3D(P, 100.0)
    assert 6 not in [int(i) for i in out], out
'''
