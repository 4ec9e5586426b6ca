PROPERTY = 'C25'
NEEDS = 'two scenes with different elements written with the same options'
BREAKS = 'thermal factors of the first scene written are reused for the next one'
EDITS = [('czone/scene/scene.py', '                dwf = set(self.all_species)\n', '                dwf = set(self.all_species) | self._dw_species\n                self._dw_species.update(int(x) for x in dwf)\n'), ('czone/scene/scene.py', '        if "format" in kwargs.keys():\n            if', '        self._dw_species = Scene.__dict__.get("_dw_seen") or set()\n        Scene._dw_seen = self._dw_species\n        if "format" in kwargs.keys():\n            if')]
DEMO = '''

import tempfile, os
import numpy as np
from czone.scene import Scene
from czone.molecule import Molecule
def elements(z):
    s = Scene(bounds=np.array([[0, 0, 0], [9.0, 9, 9]]), objects=[Molecule([z], np.array([[1.0, 2, 3]]))])
    s.populate()
    d = tempfile.mkdtemp()
    f = os.path.join(d, "a.xyz")
    import czone.scene.scene as m
    seen = {}
    real = m.ase_write
    m.ase_write = lambda filename, images, **k: seen.update(k)
    try:
        s.to_file(f, format="prismatic")
    finally:
        m.ase_write = real
        os.rmdir(d)
    return sorted(seen["debye_waller_factors"])
a, b = elements(6), elements(79)
assert a == ["C"] and b == ["Au"], (a, b)
'''
