"""C25 Exports carry exactly the resolved atoms."""
from vc.spec import Registry
from specs import common as K
from specs import c22
import contextlib
import math
import numpy as _np

R = Registry()
MODULES = ("czone.scene.scene", "czone.volume.volume", "czone.molecule.molecule")
S = "czone.scene.scene."
V = "czone.volume.volume."


@contextlib.contextmanager
def writes(c, name):
    """the calls of ase's write: (file, images, other positional arguments, options)"""
    if c.sym:
        from vc import aselib
        del aselib.WRITES[:]
        yield aselib.WRITES
        return
    import ase.io
    mod = c.mod(name)
    real = ase.io.write
    out = []

    def write(filename, images, *a, **k):
        out.append((filename, images, a, k))
    names = [n for n, v in vars(mod).items() if v is real]
    for n in names:
        setattr(mod, n, write)
    ase.io.write = write
    try:
        yield out
    finally:
        ase.io.write = real
        for n in names:
            setattr(mod, n, real)


def holds(c, label, a, X, Z, n):
    c.ensure(label + ": as many atoms", c.and_(c.shape_is(a.get_positions(), n, 3), c.shape_is(a.get_atomic_numbers(), n)))
    c.same(label + ": positions in the same order", a.get_positions(), X)
    c.same(label + ": atomic numbers in the same order", a.get_atomic_numbers(), Z)


def options(c):
    kw = {}
    f = c.choice("format", ["none", "xyz", "prismatic", "vasp"])
    if f != "none":
        kw["format"] = f
    if c.choice("option", ["no", "yes"]) == "yes":
        kw["comment"] = object()
        kw["other option"] = object()
    return kw


def written(c, W, fname, kw, X, Z, n, extra=()):
    c.ensure("written once", len(W) == 1)
    if len(W) != 1:
        return None
    f, im, a, k = W[0]
    c.ensure("to the named file", f is fname)
    holds(c, "written", im, X, Z, n)
    c.ensure("every option is passed on", not a and all(x in k and k[x] is kw[x] for x in kw))
    c.ensure("and no other", all(x in kw or x in extra for x in k))
    return im, k


def scene(c):
    """a scene with the atoms and species resolved for it (C04), here arbitrary ones"""
    kind = c.choice("bounds", ["default", "given"])
    b = c.mat("b", 2, 3)
    kw = {"bounds": b} if kind == "given" else {}
    if c.sym:
        n = c.size("n")
        X, Z = c.points("X", n), c.array("Z", (n,), kind="i", lo=1, hi=94)
        cls = c.cls(S + "Scene")
        cls.all_atoms = property(lambda self: X.fresh_copy())
        cls.all_species = property(lambda self: Z.fresh_copy())
        sc = cls(**kw)
    else:
        m = K.volumes(c, "M", c.size("n", lo=1, hi=4))
        sc = c.cls(S + "Scene")(objects=m.list, **kw)
        sc.populate()
    if kind == "given":
        c.ensure("the bounds are those given", c.meq(c.rows(sc.bounds), c.rows(b)))
    return sc, c.rows(sc.bounds)


@R.proof("scene", [S + "Scene.ase_atoms", S + "Scene.bounds", S + "Scene.to_file"], con=120, max_paths=600)
def scenes(c):
    sc, b = scene(c)
    X, Z = c.snapshot(sc.all_atoms), c.snapshot(sc.all_species)
    n = c.length(Z)
    kw = options(c)
    given = c.choice("factors", ["default", "given"]) if kw.get("format") == "prismatic" else "default"
    if given == "given":
        kw["debye_waller_factors"] = object()
    fname = "a.xyz"
    with writes(c, "czone.scene.scene") as W:
        sc.to_file(fname, **kw)
        r = written(c, W, fname, kw, X, Z, n, ["debye_waller_factors"] if kw.get("format") == "prismatic" else [])
    if r is None:
        return
    c.cover("written")
    im, k = r
    c.ensure("the cell spans the bounds", c.veq(cell(c, im), c.vsub(b[1], b[0])))
    holds(c, "atoms object", sc.ase_atoms, X, Z, n)
    c.ensure("the cell of the atoms object spans the bounds", c.veq(cell(c, sc.ase_atoms), c.vsub(b[1], b[0])))
    if kw.get("format") == "prismatic" and given == "default":
        factors(c, k.get("debye_waller_factors"), Z, n)
    c.same("exporting keeps the atoms", sc.all_atoms, X)
    c.same("exporting keeps the species", sc.all_species, Z)
    c.ensure("exporting keeps the bounds", c.meq(c.rows(sc.bounds), b))


def cell(c, a):
    if c.sym:
        v = c.vals(a.get_cell())
        return v if len(v) == 3 else [v[0], v[4], v[8]]
    m = _np.array(a.get_cell())
    c.ensure("the cell is a box", bool(_np.allclose(m, _np.diag(_np.diag(m)))))
    return [float(m[i, i]) for i in range(3)]


def factors(c, d, Z, n):
    """one factor for each element present and for no other"""
    if c.sym:
        T, P = c.T, c.core.poly
        if isinstance(d, dict) and not d:
            c.ensure("a factor for every element", c.eq(n, 0))
            return
        if not hasattr(d, "at") or not hasattr(d, "n"):
            raise T.Unsupported("factors given as %s" % type(d).__name__)
        N = c.core.SNum
        key = lambda k: N(d.at(P(k))[0].z, True)
        for k in c.each("key", N(P(d.n), True)):
            c.ensure("a factor is for an element that is present", c.exists(n, lambda r: c.eq(c.item(Z, r), key(k))))
            c.ensure("the factors are the documented default", c.eq(d.at(P(k))[1], (0.1 ** 2.0) * 8 * c.np.pi ** 2.0))
            for l in c.each("key2", N(P(d.n), True)):
                c.ensure("one factor per element", c.imp(c.not_(c.eq(k, l)), c.not_(c.eq(key(k), key(l)))))
        for r in c.each("row", n):
            from vc import dsl
            kv = T.fresh("k", True)
            us = [a for a in T.all_atoms(P(key(N(kv, True)))).values() if a.kind == "app" and a.name.startswith("ufirst#")]
            w = None
            if len(us) == 1:
                a = us[0]
                w = dsl.invert(c, [(a.args[-1], T.app("ulev#" + a.name[7:], list(a.args[:-1]) + [P(r)], True))], kv)
            if w is None:
                raise T.Unsupported("which factor is for a given element")
            w = N(w, True)
            c.ensure("every element present has a factor", c.and_(c.le(0, w), c.lt(w, N(P(d.n), True)), c.eq(c.item(Z, r), key(w))))
        return
    from ase.data import chemical_symbols
    c.ensure("one factor for each element present and for no other", set(d) == {chemical_symbols[int(z)] for z in Z})
    c.ensure("the factors are the documented default", all(abs(v - 0.08 * math.pi ** 2) < 1e-9 for v in d.values()))


@R.proof("volume", [V + "BaseVolume.ase_atoms", V + "BaseVolume.to_file"], con=60)
def volume(c):
    v = c.cls(V + "Volume")(alg_objects=[c.cls("czone.volume.algebraic.Sphere")(1, c.np.zeros(3))])
    n = c.size("n")
    X, Z = c.points("X", n), c.array("Z", (n,), kind="i", lo=1, hi=94)
    v._atoms, v._species = X, Z
    X0, Z0 = c.snapshot(X), c.snapshot(Z)
    holds(c, "atoms object", v.ase_atoms, X0, Z0, n)
    kw = options(c)
    fname = "b.xyz"
    with writes(c, "czone.volume.volume") as W:
        v.to_file(fname, **kw)
        written(c, W, fname, kw, X0, Z0, n)
    c.cover("written")
    c.same("exporting keeps the atoms", v.atoms, X0)
    c.same("exporting keeps the species", v.species, Z0)


@R.proof("molecule", ["czone.molecule.molecule.BaseMolecule.ase_atoms"], con=40)
def molecule(c):
    m = c22.molecule(c, lo=0, origin=("default",))
    holds(c, "atoms object", m.mol.ase_atoms, m.X0, m.Z0, m.n)
    c22.unchanged(c, "exported", m)


@R.scenario("files read back", quick=25, thorough=120)
def files(s):
    import os
    import shutil
    import tempfile
    import warnings
    import czone.volume.volume as vm
    import czone.volume.algebraic as am
    import czone.scene.scene as sm
    import czone.molecule.molecule as mm
    import czone.generator.generator as gm
    from ase.io import read
    from ase.data import chemical_symbols
    rng = s.rng
    d = tempfile.mkdtemp(prefix="c25")
    try:
        class Gen(gm.BaseGenerator):
            def __init__(self, X, Z):
                self.X, self.Z = X, Z

            def supply_atoms(self, bbox):
                return self.X.copy(), self.Z.copy()

            def from_generator(self, **k):
                return self

            def transform(self, t):
                pass
        obs = []
        for k in range(int(rng.integers(1, 4))):
            n = int(rng.integers(1, 12))
            X, Z = rng.uniform(-4, 4, (n, 3)) + 6, rng.choice([1, 6, 8, 29, 79], n)
            if rng.random() < 0.3:
                obs.append(mm.Molecule(Z, X))
            else:
                v = vm.Volume(alg_objects=[am.Sphere(float(rng.uniform(2, 9)), rng.normal(size=3) + 6)], priority=int(rng.integers(0, 3)))
                v._generator = Gen(X, Z)
                obs.append(v)
        b = _np.array([rng.uniform(-2, 0, 3), rng.uniform(12, 20, 3)])
        multi = rng.random() < 0.3 and all(isinstance(o, vm.BaseVolume) for o in obs)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if multi:
                ob = vm.MultiVolume(volumes=obs)
                ob.populate_atoms()
                X, Z = _np.array(ob.atoms), _np.array(ob.species)
            else:
                ob = sm.Scene(bounds=b, objects=obs)
                ob.populate()
                X, Z = _np.array(ob.all_atoms), _np.array(ob.all_species)
            if not len(Z):
                s.skip()
            fmt = str(rng.choice(["default", "xyz", "extxyz", "json", "vasp"] + ([] if multi else ["prismatic"] * 3)))
            f = os.path.join(d, "a.xyz" if fmt in ("default", "xyz", "extxyz", "prismatic") else "a.json" if fmt == "json" else "POSCAR")
            kw = {} if fmt == "default" else {"format": fmt}
            if fmt == "vasp" and multi:
                s.skip()
            if fmt == "prismatic" and rng.random() < 0.3:
                kw["debye_waller_factors"] = {chemical_symbols[z]: 0.5 for z in set(Z.tolist())}
            ob.to_file(f, **kw)
        s.check("a file is written", os.path.exists(f))
        if fmt == "prismatic":
            L = [l.split() for l in open(f).read().split("\n")[1:] if l.strip()]
            s.close("the cell in the file", _np.array([float(x) for x in L[0]]), b[1] - b[0], 1e-4)
            rows = [l for l in L[1:] if len(l) == 6]
            s.same("species in the file", [int(l[0]) for l in rows], [int(z) for z in Z])
            s.close("positions in the file", _np.array([[float(x) for x in l[1:4]] for l in rows]), X, 1e-4)
            s.close("thermal factors in the file", _np.array([float(l[5]) for l in rows]),
                    _np.full(len(rows), 0.1 if "debye_waller_factors" not in kw else _np.sqrt(0.5 / 8) / _np.pi), 1e-4)
        else:
            a = read(f, format=None if fmt == "default" else fmt)
            s.same("species in the file", a.get_atomic_numbers().tolist(), Z.tolist())
            s.close("positions in the file", a.get_positions(), X, 1e-6)
            if not multi and fmt != "xyz":
                s.close("cell in the file", _np.array(a.get_cell()), _np.diag(b[1] - b[0]), 1e-6)
        if multi:
            s.close("atoms are unchanged", _np.array(ob.atoms), X)
            s.same("species are unchanged", _np.array(ob.species).tolist(), Z.tolist())
        else:
            s.close("atoms are unchanged", _np.array(ob.all_atoms), X)
            s.same("species are unchanged", _np.array(ob.all_species).tolist(), Z.tolist())
    finally:
        shutil.rmtree(d, ignore_errors=True)
