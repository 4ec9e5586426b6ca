"""Libraries as seen by the instrumented program."""
import types
from . import npx
from .npx import NP
from .rt import CopyProxy, Stub
from .terms import Unsupported


def product(*seqs, repeat=1):
    """contract of itertools.product: every tuple once, the last position fastest"""
    import itertools
    from . import rt, terms as T
    from .arr import merge_dims, dp
    ss = []
    for x in seqs:
        s = rt.seq_of(x)
        if s is None:
            x = list(x)
            s = (len(x), lambda k, x=x: x[int(k.const)])
        ss.append(s)
    ss = ss * repeat
    if all(isinstance(n, int) for n, at in ss):
        return itertools.product(*[[at(T.const(i)) for i in range(n)] for n, at in ss])
    from . import absfn
    ss = [(n if isinstance(n, int) else absfn.length(n), at) for n, at in ss]
    m = merge_dims([n for n, at in ss])
    N = T.ONE
    for n, at in ss:
        N = N * dp(n)
    return rt.SymSeq(N, lambda k: tuple(at(i) for (n, at), i in zip(ss, m(k))))


def _itertools():
    import itertools
    return Ns("itertools", product=product, count=itertools.count, chain=itertools.chain, combinations=itertools.combinations,
              permutations=itertools.permutations, islice=itertools.islice, cycle=itertools.cycle, repeat=itertools.repeat,
              accumulate=itertools.accumulate)


class Ns:
    def __init__(self, name, **k):
        self.__dict__["_name"] = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Stub(self.__dict__["_name"] + "." + n)


def make():
    libs = {
        "numpy": NP,
        "numpy.typing": NP.typing,
        "numpy.linalg": NP.linalg,
        "numpy.random": NP.random,
        "copy": CopyProxy,
        "itertools": _itertools(),
        "warnings": Ns("warnings", warn=lambda *a, **k: None),
    }
    from . import sci
    libs["scipy.spatial"] = Ns("scipy.spatial", ConvexHull=sci.ConvexHull, Delaunay=sci.Delaunay, QhullError=sci.QhullError)
    from . import scirot
    libs["scipy.spatial.transform"] = Ns("scipy.spatial.transform", Rotation=scirot.Rotation)
    from . import matsci
    libs["pymatgen.core"] = Ns("pymatgen.core", Lattice=matsci.Lattice, Structure=matsci.Structure)
    libs["pymatgen.core.structure"] = Ns("pymatgen.core.structure", IMolecule=matsci.IMolecule, Structure=matsci.Structure)
    from . import aselib
    del aselib.WRITES[:]
    libs["ase.io"] = Ns("ase.io", write=aselib.write)
    libs["ase.symbols"] = Ns("ase.symbols", Symbols=aselib.Symbols)
    libs["ase"] = Ns("ase", Atoms=aselib.Atoms, io=libs["ase.io"], symbols=libs["ase.symbols"])
    libs["scipy"] = Ns("scipy", spatial=libs["scipy.spatial"])
    return libs
