PROPERTY = 'C07'
NEEDS = 'a bounding region whose far face falls exactly on a cell boundary along the third cell vector'
BREAKS = 'atoms on the far face of the region are not supplied'
EDITS = [('czone/generator/generator.py', '            range(min_extent[2], max_extent[2] + 1), ', '            range(min_extent[2], max_extent[2]), ')]
DEMO = '''

import numpy as np
from czone.generator import Generator
from czone.volume import makeRectPrism
g = Generator.from_unit_cell([6], [[0, 0, 0]], [2.0, 2.0, 2.0], [90, 90, 90])
x, s = g.supply_atoms(makeRectPrism(4, 4, 4))
want = {(2 * i, 2 * j, 2 * k) for i in range(3) for j in range(3) for k in range(3)}
got = {tuple(int(round(v)) for v in p) for p in x}
assert want <= got, want - got
'''
