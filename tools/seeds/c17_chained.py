PROPERTY = 'C17'
NEEDS = 'a substitution whose substitute element is itself a later target'
BREAKS = 'atoms already replaced in the same pass are replaced again'
EDITS = [('czone/transform/post.py', '            t_filter = species == t', '            t_filter = out_species == t')]
DEMO = '''

import numpy as np
from czone.transform.post import ChemicalSubstitution
c = ChemicalSubstitution([6, 7], [7, 8], 1.0)
x, s = c.apply_function(np.zeros((2, 3)), np.array([6, 7]))
assert s.tolist() == [7, 8], s
'''
