PROPERTY = 'C20'
NEEDS = 'a stream of random numbers that leads the search into a dead end'
BREAKS = 'the search starts over with unseeded randomness, so equal seeds give different splits'
EDITS = [('czone/util/misc.py', '            splits = [rng.integers(m, l - m)]\n            idx.mask', '            splits = [np.random.default_rng().integers(m, l - m)]\n            idx.mask')]
DEMO = '''

from czone.util.misc import get_N_splits
for seed in range(60):
    r = {tuple(int(v) for v in get_N_splits(4, 5, 28, seed=seed)) for _ in range(6)}
    assert len(r) == 1, (seed, r)
'''
