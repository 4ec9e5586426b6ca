PROPERTY = "C24"
NEEDS = "a search for the normal that runs out of steps before it settles"
BREAKS = "the normal of an unsettled search is not a unit vector, so the bond gets another length"
EDITS = [("czone/surface/adsorbate.py",
          "            w = w_new\n            w = w/np.linalg.norm(w)\n",
          "            w = w_new\n            if len(w_list) > 1:\n                w = w/np.linalg.norm(w)\n"),
         ("czone/surface/adsorbate.py",
          "    return w/np.linalg.norm(w)\n",
          "    return w\n")]
DEMO = '''
import numpy as np
from czone.surface.adsorbate import find_approximate_normal

x = np.array([[0.3, 0.2, -0.1]])
w = find_approximate_normal(x, decay=0.95, max_steps=1)
assert abs(np.linalg.norm(w) - 1) < 1e-9, np.linalg.norm(w)
'''
