PROPERTY = 'C18'
NEEDS = 'atoms near opposite y faces of one block'
EDITS = [('czone/generator/amorphous_algorithms.py', """    dist_1[:, 2] = dist_0[:, 2]
""", """    dist_1[:, 2] = dist_0[:, 2]
    dist_1[3:, 1] = dist_0[3:, 1]
"""), ('czone/generator/amorphous_algorithms.py', """    p_dist = np.sum(np.min(np.dstack([dist_0, dist_1]), axis=2)**2.0, axis=1)
""", """    p_dist = np.sum(np.minimum(dist_0, dist_1)**2.0, axis=1)
""")]
BREAKS = 'distances to all but the first three atoms around wrap along x only'
DEMO = '''
import numpy as np
from czone.generator.amorphous_algorithms import gen_p_substrate
for seed in range(10):
    d = np.array([12.0, 11.0, 10.0])
    c = gen_p_substrate(d, 1.4, seed=seed, density=0.13)
    x = np.abs(c[:, None] - c[None])
    x[..., :2] = np.minimum(x[..., :2], d[:2] - x[..., :2])
    r = np.sqrt((x ** 2).sum(-1)) + 9 * np.eye(len(c))
    assert r.min() > 1.4 - 1e-9, (seed, r.min())
'''
