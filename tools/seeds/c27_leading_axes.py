PROPERTY = 'C27'
NEEDS = 'periodic axes that are not the leading ones, in a cell that is not cubic'
BREAKS = 'the cell lengths of the leading axes are used for the periodic ones'
EDITS = [('czone/util/measure.py', '    sdims = np.array(dims)[cols]', '    sdims = np.array(dims)[:len(cols)]')]
DEMO = '''

import numpy as np
from czone.util.measure import get_sdist_fun
f = get_sdist_fun((10.0, 20.0, 30.0), pz=True)
d = f(np.array([[[0.0], [0.0], [1.0]]]), np.array([[[0.0], [0.0], [29.0]]]))
assert np.allclose(d, 4.0), d
'''
