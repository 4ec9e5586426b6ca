PROPERTY = 'C21'
NEEDS = 'a twin placed in a crystal that is mirrored already'
BREAKS = 'every second twin is the original crystal instead of the mirror image of its neighbor in their common plane'
EDITS = [('czone/prefab/prefab.py', """                twin_last *= -1
                defect_types["twin"] = True
        
            gen_tmp = gen_tmp.from_generator(transformation=[t])
""", """                twin_last *= -1
                defect_types["twin"] = True
        
            gen_tmp = (self.generator if isinstance(t, Reflection) and twin_last > 0 else gen_tmp).from_generator(transformation=[t])
""")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from scipy.spatial import cKDTree
from czone.generator import Generator
from czone.volume import Volume
from czone.volume.algebraic import Sphere
from czone.prefab.prefab import fccTwin
a = 4.0
g = Generator(structure=Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Au"], [[0, 0, 0]]))
for seed in range(8):
    np.random.seed(seed)
    v = Volume(alg_objects=[Sphere(22.0, np.array([0.3, 0.2, 0.1]))])
    o = fccTwin(generator=g, volume=v, N=3, min_sep=2).build_object()
    o.populate_atoms()
    X = o.atoms
    R = np.linalg.norm(X - [0.3, 0.2, 0.1], axis=1)
    n = np.array([len(q) - 1 for q in cKDTree(X).query_ball_point(X[R < 17], a / 2 ** 0.5 * 1.02)])
    assert (n == 12).all(), (seed, np.unique(n))
'''
