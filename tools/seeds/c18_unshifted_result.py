PROPERTY = 'C18'
NEEDS = 'a block supplied again with use_old_result, for a box away from the origin'
BREAKS = 'the block kept for re-use is the one before it is moved to its box'
EDITS = [('czone/generator/generator.py', """            coords = coords + np.min(bbox, axis=0)
            self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
            return self.old_result
""", """            species = np.ones(coords.shape[0]) * self.species
            self._old_result = (coords, species)
            return coords + np.min(bbox, axis=0), species
""")]
DEMO = '''
import numpy as np
from czone.generator import AmorphousGenerator
g = AmorphousGenerator()
g.use_old_result = True
b = np.array([[5.0, 6.0, 7.0], [15.0, 17.0, 16.0]])
x, _ = g.supply_atoms(b)
y, _ = g.supply_atoms(b)
assert len(x) == len(y) and np.array_equal(x, y)
'''
