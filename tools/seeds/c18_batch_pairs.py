PROPERTY = 'C18'
NEEDS = 'a batch with three or more acceptable atoms of which two that do not follow each other are in adjoining blocks'
BREAKS = 'batched generation compares only consecutive acceptable atoms of a batch with each other'
EDITS = [('czone/generator/amorphous_algorithms.py', """            for j in range(i):
                if block""", """            for j in range(i - 1, i):
                if block""")]
DEMO = '''
import numpy as np
from czone.generator.amorphous_algorithms import gen_p_substrate_batched
for seed in range(10):
    d = np.array([14.0, 13.0, 10.0])
    c = gen_p_substrate_batched(d, 1.4, seed=seed)
    x = np.abs(c[:, None] - c[None])
    x[..., :2] = np.minimum(x[..., :2], d[:2] - x[..., :2])
    r = np.sqrt((x ** 2).sum(-1)) + 9 * np.eye(len(c))
    assert r.min() > 1.4 - 1e-9, (seed, r.min())
'''
