"""C22 Molecules keep atoms, species and tracked origin consistent."""
from vc.spec import Registry
from specs import common as K
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.molecule.molecule",)
MO = "czone.molecule.molecule."
B = MO + "BaseMolecule."


class Mol:
    """an arbitrary molecule: mol, its number of atoms n, copies of positions and species"""


def molecule(c, name="m", lo=1, origin=("tracked", "point", "default")):
    m = Mol()
    m.n = c.size(name + "_n", lo=lo, hi=6)
    m.X = c.points(name + "_X", m.n)
    m.Z = c.array(name + "_Z", (m.n,), kind="i", lo=1, hi=94)
    m.X0, m.Z0 = c.snapshot(m.X), c.snapshot(m.Z)
    k = c.choice(name + "_origin", list(origin))
    m.tracked = k == "tracked"
    kw = {}
    if m.tracked:
        m.idx = c.int(name + "_idx", 0)
        c.require(c.lt(m.idx, m.n))
        kw["origin"] = m.idx
        m.o = None
    elif k == "point":
        o = c.vec(name + "_o")
        m.o = c.vals(o)
        kw["origin"] = o
    else:
        m.o = [0, 0, 0]
    m.mol = c.cls(MO + "Molecule")(m.Z, m.X, **kw)
    m.mol.print_warnings = False
    return m


def is_state(c, label, m, X, Z, idx=None, o=None):
    """the molecule m has the positions and species given, and an origin that tracks atom idx or is the point o"""
    n = c.length(Z)
    c.ensure(label + ": one position per species", c.and_(c.shape_is(m.atoms, n, 3), c.shape_is(m.species, n)))
    c.same(label + ": positions", m.atoms, X)
    c.same(label + ": species", m.species, Z)
    if idx is not None:
        c.ensure(label + ": the origin is the position of the tracked atom", c.veq(c.vals(m.origin), c.row(X, idx)))
    if o is not None:
        c.ensure(label + ": the origin is where it was put", c.veq(c.vals(m.origin), o))


def unchanged(c, label, m):
    is_state(c, label, m.mol, m.X0, m.Z0, m.idx if m.tracked else None, m.o)


@R.proof("construction", [B + "__init__", B + "set_atoms", B + "set_origin", B + "origin", MO + "Molecule.__init__"], con=150)
def construct(c):
    m = molecule(c, lo=1)
    c.cover("built")
    unchanged(c, "built", m)
    c.same("the arrays given are not modified", m.X, m.X0)
    k = c.size("k", lo=0, hi=7)
    c.require(c.ne(k, m.n))
    Y = c.points("Y", k)
    c.raises("a molecule needs one position per species", ValueError, lambda: c.cls(MO + "Molecule")(m.Z, Y))


@R.proof("updates", [B + "update_positions", B + "update_species", B + "set_atoms", B + "origin"], con=200)
def updates(c):
    m = molecule(c)
    what = c.choice("what", ["positions", "species", "both"])
    k = c.size("k", lo=0, hi=7)
    Y = c.points("Y", k)
    S = c.array("S", (k,), kind="i", lo=1, hi=94)
    f = {"positions": lambda: m.mol.update_positions(Y), "species": lambda: m.mol.update_species(S),
         "both": lambda: m.mol.set_atoms(m.Z, Y)}[what]
    if c.case(c.eq(k, m.n)):
        f()
        c.cover("updated")
        is_state(c, "updated", m.mol, m.X0 if what == "species" else Y, S if what == "species" else m.Z0,
                 m.idx if m.tracked else None, m.o)
    else:
        c.raises("an array of another length is refused", ValueError, f)
        unchanged(c, "refused", m)


@R.proof("origin", [B + "set_origin", B + "origin", B + "_origin_idx"], con=150)
def origin(c):
    m = molecule(c)
    if c.choice("to", ["point", "atom"]) == "point":
        p = c.vec("p")
        m.mol.set_origin(point=p)
        is_state(c, "point", m.mol, m.X0, m.Z0, o=c.vals(p))
    else:
        i = c.int("i", 0)
        c.require(c.lt(i, m.n))
        m.mol.set_origin(idx=i)
        is_state(c, "atom", m.mol, m.X0, m.Z0, idx=i)


@R.proof("transformation", [B + "transform", B + "set_atoms", B + "set_origin", B + "origin"], con=200)
def transformed(c):
    m = molecule(c)
    s = tf.transforms(c, "t", 1)
    t = c.list_at(s.list, 0)
    follow = c.choice("origin", ["default", "yes", "no"])
    kw = {} if follow == "default" else {"transform_origin": follow == "yes"}
    m.mol.transform(t, **kw)
    c.cover("moved")
    c.ensure("one position per species", c.and_(c.shape_is(m.mol.atoms, m.n, 3), c.shape_is(m.mol.species, m.n)))
    c.same("the species stay", m.mol.species, m.Z0)
    for i in c.each("i", m.n):
        c.ensure("every atom moves by the transformation", c.veq(c.row(m.mol.atoms, i), s.after(1, c.row(m.X0, i))))
    if m.tracked:
        c.ensure("a tracked origin follows its atom", c.veq(c.vals(m.mol.origin), s.after(1, c.row(m.X0, m.idx))))
    else:
        c.ensure("an untracked origin moves only when asked to",
                 c.veq(c.vals(m.mol.origin), m.o if follow == "no" else s.after(1, m.o)))


@R.proof("removal", [B + "remove_atoms", B + "set_origin", B + "origin"], con=250)
def removal(c):
    m = molecule(c)
    k = c.size("k", lo=0, hi=4)
    neg = c.choice("indices", ["from the front", "from the end"] if c.sym else ["from the front", "from the end", "mixed"])
    I = c.array("I_" + neg.split()[-1], (k,), kind="i", lo=0 if neg == "from the front" else -m.n, hi=-1 if neg == "from the end" else m.n - 1)
    I0 = c.snapshot(I)
    hit = lambda u: c.exists(k, lambda j: c.or_(c.eq(c.vals(c.item(I0, j))[0], u), c.eq(c.vals(c.item(I0, j))[0] + m.n, u)))
    if m.tracked and c.case(hit(m.idx)):
        c.raises("the tracked atom cannot be removed", (NotImplementedError, IndexError), lambda: m.mol.remove_atoms(I))
        unchanged(c, "refused", m)
        return
    m.mol.remove_atoms(I)
    c.cover("removed")
    c.same("the indices are not modified", I, I0)
    n1 = c.length(m.mol.species)
    c.ensure("one position per species", c.and_(c.shape_is(m.mol.atoms, n1, 3), c.shape_is(m.mol.species, n1)))
    src = Mol()
    src.n, src.natoms = 1, lambda k: m.n
    src.atom, src.sp = (lambda k, i: c.row(m.X0, i)), (lambda k, i: c.vals(c.item(m.Z0, i))[0])
    K.kept_exactly(c, "removal", m.mol.atoms, m.mol.species, src, lambda k, u: c.not_(hit(u)), fn="m_X", pos=(None, 0), ordered=True)
    if m.tracked:
        c.count_before("the tracked atom", m.mol.atoms, m.mol._origin_idx, m.idx)
        c.ensure("a tracked origin is still the same atom", c.veq(c.vals(m.mol.origin), c.row(m.X0, m.idx)))
    else:
        c.ensure("the origin stays", c.veq(c.vals(m.mol.origin), m.o))


@R.proof("removal with a new origin", [B + "remove_atoms", B + "set_origin", B + "origin"], con=250)
def new_origin(c):
    m = molecule(c, origin=("tracked", "point"))
    k = c.size("k", lo=0, hi=4)
    I = c.array("I", (k,), kind="i", lo=0, hi=m.n - 1)
    I0 = c.snapshot(I)
    hit = lambda u: c.exists(k, lambda j: c.eq(c.vals(c.item(I0, j))[0], u))
    u = c.int("new", 0)
    c.require(c.lt(u, m.n))
    if c.case(hit(u)):
        c.raises("an atom to be removed cannot be the new origin", IndexError, lambda: m.mol.remove_atoms(I, new_origin_idx=u))
        unchanged(c, "refused", m)
        return
    m.mol.remove_atoms(I, new_origin_idx=u)
    c.cover("removed")
    c.count_before("the new origin", m.mol.atoms, m.mol._origin_idx, u)
    c.ensure("the origin is the position of the atom asked for", c.veq(c.vals(m.mol.origin), c.row(m.X0, u)))


@R.proof("from other libraries", [B + "from_ase_atoms", B + "from_pmg_molecule", B + "ase_atoms"], con=60)
def imported(c):
    m = molecule(c, origin=("default",))
    which = c.choice("library", ["ase", "pymatgen"])
    if which == "ase":
        a = m.mol.ase_atoms
        c.same("exported positions", a.get_positions(), m.X0)
        c.same("exported atomic numbers", a.get_atomic_numbers(), m.Z0)
        r = c.cls(MO + "Molecule").from_ase_atoms(a)
    else:
        r = c.cls(MO + "Molecule").from_pmg_molecule(pmg_molecule(c, m.Z, m.X))
    is_state(c, "imported", r, m.X0, m.Z0, o=[0, 0, 0])
    unchanged(c, "exported", m)


def pmg_molecule(c, Z, X):
    if c.sym:
        from vc import matsci
        return matsci.IMolecule(Z, X)
    from pymatgen.core import Molecule, Element
    return Molecule([Element.from_Z(int(z)) for z in Z], X)


@R.scenario("operation sequences", quick=60, thorough=800)
def sequences(s):
    import warnings
    import czone.molecule.molecule as mm
    import czone.transform.transform as tm
    import czone.volume.algebraic as am
    rng = s.rng
    n = int(rng.integers(1, 9))
    X = [list(map(float, p)) for p in rng.normal(size=(n, 3)) * 4]
    Z = [int(z) for z in rng.integers(1, 95, n)]
    org = rng.integers(0, 4)
    track, o = None, [0.0, 0.0, 0.0]
    kw = {}
    if org == 1:
        track = int(rng.integers(0, n))
        kw["origin"] = rng.choice([track, track - n]) if n > 1 and track > 0 else track
        kw["origin"] = int(kw["origin"]) if rng.random() < 0.5 else _np.int64(kw["origin"])
    elif org == 2:
        o = [float(x) for x in rng.normal(size=3)]
        kw["origin"] = o if rng.random() < 0.5 else _np.array(o)

    from_end = org == 1 and kw["origin"] < 0

    def variants(a, dt):
        k = rng.integers(0, 3)
        return _np.array(a, dtype=dt) if k == 0 else list(a) if k == 1 else tuple(a)
    m = mm.Molecule(variants(Z, int), variants(X, float), **kw)
    if rng.random() < 0.7:
        m.print_warnings = False

    def compare(what):
        s.check(what + ": one position per species", _np.shape(m.atoms) == (len(Z), 3) and _np.shape(m.species) == (len(Z),))
        s.close(what + ": positions", _np.array(m.atoms), _np.array(X).reshape(-1, 3))
        s.same(what + ": species", [int(z) for z in m.species], list(Z))
        s.close(what + ": origin", _np.array(m.origin), _np.array(X[track] if track is not None else o))
    compare("built")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(int(rng.integers(2, 8))):
            k = rng.integers(0, 8)
            n = len(Z)
            if k == 0:
                t, f, _ = tf.rand_transform(tm, am, rng)
                how = rng.integers(0, 3)
                if how == 0:
                    m.transform(t)
                else:
                    m.transform(t, transform_origin=how == 1)
                X = [list(f(_np.array(p))) for p in X]
                if track is None and how != 2:
                    o = list(f(_np.array(o)))
                compare("transformed")
            elif k == 1:
                j = n if rng.random() < 0.6 else int(rng.integers(0, 9))
                Y = [list(map(float, p)) for p in rng.normal(size=(j, 3))]
                if j == n:
                    m.update_positions(variants(Y, float))
                    X = Y
                else:
                    s.raises("positions of another length are refused", ValueError, lambda: m.update_positions(Y))
                compare("positions updated")
            elif k == 2:
                j = n if rng.random() < 0.6 else int(rng.integers(0, 9))
                Y = [int(z) for z in rng.integers(1, 95, j)]
                if j == n:
                    m.update_species(variants(Y, int))
                    Z = Y
                else:
                    s.raises("species of another length are refused", ValueError, lambda: m.update_species(Y))
                compare("species updated")
            elif k == 3:
                j, l = int(rng.integers(0, 9)), int(rng.integers(0, 9))
                j = l if rng.random() < 0.4 else j
                if j == 0 and l == 0 or track is not None and j <= track:
                    continue
                if from_end and j != n:
                    # an origin counted from the end of the atoms replaced: which of the new ones is meant is not said
                    continue
                Y = [list(map(float, p)) for p in rng.normal(size=(j, 3))]
                W = [int(z) for z in rng.integers(1, 95, l)]
                if j == l:
                    m.set_atoms(_np.array(W, dtype=int), _np.array(Y).reshape(-1, 3))
                    X, Z = Y, W
                else:
                    s.raises("as many species as positions", ValueError, lambda: m.set_atoms(W, _np.array(Y).reshape(-1, 3)))
                compare("atoms set")
            elif k in (4, 5, 6):
                idx = [int(i) for i in rng.integers(-n, n, int(rng.integers(0, n + 1)))] if n else []
                if rng.random() < 0.5:
                    idx = [i % n for i in idx]
                gone = {i % n for i in idx}
                new = None
                if n > 1 and rng.random() < 0.3:
                    new = int(rng.integers(0, n))
                after = new if new is not None else track
                kw = {} if new is None else {"new_origin_idx": new}
                how = rng.integers(0, 3)
                arg = _np.array(idx, dtype=int) if how == 0 else tuple(idx) if how == 1 else idx
                if after is not None and after in gone:
                    s.raises("the tracked atom cannot be removed", (NotImplementedError, IndexError), lambda: m.remove_atoms(arg, **kw))
                    compare("removal refused")
                    continue
                m.remove_atoms(arg, **kw)
                if after is not None:
                    track = after - sum(1 for g in gone if g < after)
                X = [p for i, p in enumerate(X) if i not in gone]
                Z = [z for i, z in enumerate(Z) if i not in gone]
                compare("atoms removed")
            else:
                if n and rng.random() < 0.6:
                    track = int(rng.integers(0, n))
                    m.set_origin(idx=track)
                else:
                    track, o = None, [float(x) for x in rng.normal(size=3)]
                    m.set_origin(point=o)
                compare("origin set")
