PROPERTY = 'C21'
NEEDS = 'two defects that happen to be as close as allowed'
BREAKS = 'the last defect plane is taken from the other side of its neighbor, so regions are closer than the minimum separation'
EDITS = [('czone/prefab/prefab.py', """        splits.reverse()

        # create sub volumes for final multivolume
        # origins should be successively shifted
        gen_tmp = self.generator.from_generator()
        vols = [self.volume.from_volume(generator=gen_tmp)]
        vols[0].priority = self.N
        twin_last = 1
""", """        splits = [s + (s == splits[0] and s % self.min_sep == 0) for s in splits[::-1]]

        # create sub volumes for final multivolume
        # origins should be successively shifted
        gen_tmp = self.generator.from_generator()
        vols = [self.volume.from_volume(generator=gen_tmp)]
        vols[0].priority = self.N
        twin_last = 1
""")]
DEMO = '''
import numpy as np
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume
from czone.volume.algebraic import Sphere
from czone.prefab.prefab import fccMixedTwinSF
a = 4.0
g = Generator(structure=Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Au"], [[0, 0, 0]]))
for seed in range(300):
    np.random.seed(seed)
    v = Volume(alg_objects=[Sphere(18.0, np.zeros(3))])
    o = fccMixedTwinSF(generator=g, volume=v, ratio=0.5, N=3, min_sep=3).build_object()
    p = [w.alg_objects[-1] for w in o.volumes if len(w.alg_objects) > 1]
    x = sorted(float(q.normal @ q.point) * 3 ** 0.5 / a for q in p)
    assert len(x) == 3 and min(b - c for b, c in zip(x[1:], x)) > 2.999, (seed, x)
'''
