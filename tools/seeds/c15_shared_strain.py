PROPERTY = 'C15'
NEEDS = 'one strained crystal given to two volumes, whose strain is then replaced through one of them'
BREAKS = 'volumes built from the same generator share its strain field'
EDITS = [('czone/volume/volume.py', '        new_generator = copy.deepcopy(generator)\n', '        memo = {}\n        field = getattr(generator, "strain_field", None)\n        if field is not None:\n            # fields may hold user functions: keep them as they are\n            memo[id(field)] = field\n        new_generator = copy.deepcopy(generator, memo)\n')]
DEMO = '''

import numpy as np
from czone.generator import Generator
from czone.transform.strain import HStrain
from czone.volume import Volume
g = Generator.from_unit_cell([6], [[0.25, 0, 0]], [3.0, 4.0, 5.0], [90, 90, 90])
g.strain_field = HStrain(matrix=np.array([1.0, 1.0, 1.1]))
a, b = Volume(generator=g), Volume(generator=g)
a.generator.strain_field.matrix = np.array([2.0, 2.0, 2.0])
assert np.allclose(np.diag(b.generator.strain_field.matrix), [1.0, 1.0, 1.1])
'''
