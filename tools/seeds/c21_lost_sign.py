PROPERTY = 'C21'
NEEDS = 'a stacking fault placed after a twin'
BREAKS = 'the direction of a stacking fault ignores that the crystal before it is mirrored, so layers come to lie atop each other'
EDITS = [('czone/prefab/prefab.py', 'burger = twin_last * gen_tmp.voxel.sbases @ (', 'burger = gen_tmp.voxel.sbases @ (')]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from scipy.spatial import cKDTree
from czone.generator import Generator
from czone.volume import Volume
from czone.volume.algebraic import Sphere
from czone.prefab.prefab import fccMixedTwinSF
a = 4.0
g = Generator(structure=Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Au"], [[0, 0, 0]]))
for seed in range(12):
    np.random.seed(seed)
    v = Volume(alg_objects=[Sphere(22.0, np.array([0.3, 0.2, 0.1]))])
    o = fccMixedTwinSF(generator=g, volume=v, ratio=0.5, N=4, min_sep=2).build_object()
    o.populate_atoms()
    X = o.atoms
    R = np.linalg.norm(X - [0.3, 0.2, 0.1], axis=1)
    n = np.array([len(q) - 1 for q in cKDTree(X).query_ball_point(X[R < 17], a / 2 ** 0.5 * 1.02)])
    assert (n == 12).all(), (seed, np.unique(n))
'''
