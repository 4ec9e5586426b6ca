PROPERTY = 'C18'
NEEDS = 'a first draw that is rejected, followed by one accepted in another block'
BREAKS = 'an atom accepted after a rejection is filed under the block of its first draw, so later atoms are not compared with it'
EDITS = [('czone/generator/amorphous_algorithms.py', """        parts = []
        for t in tlist:
            parts.extend(voxels[t[0]][t[1]][t[2]])

        p_dist = get_p_dist(coords[parts, :], new_coord, dims)
        while (""", """        home = voxels[block[0]][block[1]][block[2]]
        parts = []
        for t in tlist:
            parts.extend(voxels[t[0]][t[1]][t[2]])

        p_dist = get_p_dist(coords[parts, :], new_coord, dims)
        while ("""), ('czone/generator/amorphous_algorithms.py', """        voxels[block[0]][block[1]][block[2]].append(i)
        coords[i, :]""", """        home.append(i)
        coords[i, :]""")]
DEMO = '''
import numpy as np
from czone.generator.amorphous_algorithms import gen_p_substrate
for seed in range(6):
    d = np.array([12.0, 11.0, 10.0])
    c = gen_p_substrate(d, 1.4, seed=seed)
    x = np.abs(c[:, None] - c[None])
    x[..., :2] = np.minimum(x[..., :2], d[:2] - x[..., :2])
    r = np.sqrt((x ** 2).sum(-1)) + 9 * np.eye(len(c))
    assert r.min() > 1.4 - 1e-9, (seed, r.min())
'''
