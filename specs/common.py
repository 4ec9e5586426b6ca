"""Abstract members of collections: in proofs an arbitrary number of arbitrary objects that satisfy only the contract of
their abstract class; in concrete runs random real objects."""
import numpy as _np

ALG = "czone.volume.algebraic."
VOL = "czone.volume.volume."


def seq(c, n, at):
    return c.lists.SList.symbolic(c.core.poly(n), lambda k: at(c.core.SNum(k, True)))


def make(cls, **attrs):
    o = object.__new__(cls)
    for k, v in attrs.items():
        o.__dict__[k] = v
    return o


def sub(c, base, name, body):
    d = dict(body)
    d["__module__"] = "czone.abstract"
    cls = type(name, (base,), d)
    cls.__abstractmethods__ = frozenset()
    return cls


def verdicts(c, pred, pts):
    """a boolean array: pred of every row (a single point counts as a batch of one)"""
    P = c.arr.to_arr(pts)
    if len(P.sh) == 1:
        P = P.expand(0)
    f = P.snap()
    T = c.T
    return c.arr.SArr((P.sh[0],), "b", lambda idx: pred([f((idx[0], T.const(j))) for j in range(3)]))


# ------------------------------------------------------------------------------------------------ surfaces
def rand_surface(c, mod, rng, spread=3.0):
    k = int(rng.integers(0, 3))
    p = rng.normal(size=3) * spread * 0.4
    if k == 0:
        return mod.Sphere(float(rng.uniform(1.0, 5.0)), p)
    if k == 1:
        return mod.Plane(rng.normal(size=3), p + rng.normal(size=3))
    return mod.Cylinder(rng.normal(size=3), p, float(rng.uniform(1, 4)), float(rng.uniform(2, 8)))


def sub_rng(c, name):
    return _np.random.default_rng(int(c._val("rng:" + name, lambda: int(c.rng.integers(0, 2 ** 31)))))


_fams = []


def family(name):
    if name not in _fams:
        _fams.append(name)
    return _fams.index(name)


def abs_surface(c):
    """an arbitrary surface: all that is known is that it decides each point by itself"""
    if not hasattr(c, "_abs_surface"):
        B = c.cls(ALG + "BaseAlgebraic")

        def check(self, pts):
            return verdicts(c, lambda x: c.T.bapp("in_surf", [c.core.poly(self.fam), c.core.poly(self.k)] + list(x)), pts)
        c._abs_surface = sub(c, B, "AbsSurface", {"checkIfInterior": check, "params": property(lambda self: (self.k,))})
    return c._abs_surface


def surfaces(c, name, n):
    """n surfaces; returns (list, inside(k, point))"""
    if c.sym:
        cls = abs_surface(c)
        fam = c.T.const(family(name))
        lst = seq(c, n, lambda k: make(cls, fam=c.core.SNum(fam, True), k=k))
        return lst, lambda k, p: c.core.SBool(c.T.bapp("in_surf", [fam, c.core.poly(k)] + [c.core.poly(x) for x in p]))
    rng = sub_rng(c, name)
    mod = c.mod("czone.volume.algebraic")
    lst = [rand_surface(c, mod, rng) for _ in range(n)]
    keep = [mod.copy.deepcopy(s) for s in lst]

    def inside(k, p):
        p = _np.array(p, dtype=float)
        s = keep[k]
        if isinstance(s, mod.Sphere):
            return c.lt(_np.linalg.norm(p - s.center), s.radius + s.tol)
        if isinstance(s, mod.Plane):
            return c.lt(_np.dot(p - s.point, s.normal), s.tol)
        d = p - s.point
        h = _np.dot(d, s.axis)
        return c.and_(c.lt(_np.linalg.norm(d - h * s.axis), s.radius + s.tol), c.lt(abs(h), s.length / 2 + s.tol))
    return lst, inside


def spread_points(c, name, n):
    """points in the range of the random surfaces"""
    return c.points(name, n)


# ------------------------------------------------------------------------------------------------ hull membership
def in_hull(c, pts, p):
    """is p in the convex hull of pts?  three-valued near the boundary in concrete runs"""
    if c.sym:
        from vc import sci
        return c.core.SBool(sci.conv_pred(c.arr.to_arr(pts))([c.core.poly(x) for x in p]))
    return hull_verdict(_np.asarray(pts, dtype=float), _np.asarray(p, dtype=float), c)


def hull_verdict(P, p, c=None, tol=1e-6):
    """True/False/None by linear programming: the largest margin of a separating direction"""
    from scipy.optimize import linprog
    from vc.dsl import CB
    Q = P - p
    s = _np.max(_np.abs(Q)) + 1e-300
    Q = Q / s
    # find w, |w|_inf <= 1, t: w.q >= t for all q, maximise t
    A = _np.hstack([-Q, _np.ones((len(Q), 1))])
    r = linprog([0, 0, 0, -1.0], A_ub=A, b_ub=_np.zeros(len(Q)), bounds=[(-1, 1)] * 3 + [(None, None)], method="highs")
    t = r.x[3]
    if t > tol:
        return CB(False)
    # t == 0: inside or on the boundary; check with a margin: shrink the hull towards the centroid of the points
    C = _np.mean(P, axis=0)
    Q2 = (P - C) * (1 - 1e-6) + C - p
    A = _np.hstack([-Q2 / s, _np.ones((len(Q), 1))])
    r = linprog([0, 0, 0, -1.0], A_ub=A, b_ub=_np.zeros(len(Q)), bounds=[(-1, 1)] * 3 + [(None, None)], method="highs")
    return CB(True) if r.x[3] <= 1e-12 else CB(None)


# ------------------------------------------------------------------------------------------------ volumes
def abs_volume(c):
    """an arbitrary volume: decides each point by itself; has a priority; populating it gives it atoms and species of equal
    number (what they are before is arbitrary)"""
    if not hasattr(c, "_abs_volume"):
        B = c.cls(VOL + "BaseVolume")
        T, A = c.T, c.arr

        def check(self, pts):
            return verdicts(c, lambda x: T.bapp("in_vol", [c.core.poly(self.fam), c.core.poly(self.k)] + list(x)), pts)

        def key(self):
            return [c.core.poly(self.fam), c.core.poly(self.k)]

        def state(self):
            return c.core.poly(c._vol_state[self.k])

        def natoms(self):
            p = T.app("vol_n", key(self) + [state(self)], True)
            return p
        c.absfn.FACTS["vol_n"] = lambda args: [T.le0(-T.app("vol_n", args, True))]

        def atoms(self):
            h = key(self) + [state(self)]
            return A.SArr((natoms(self), 3), "f", lambda idx: T.app("vol_atom", h + list(idx)))

        def species(self):
            h = key(self) + [state(self)]
            return A.SArr((natoms(self),), "i", lambda idx: T.app("vol_sp", h + list(idx), True))

        def populate(self):
            c._vol_state[self.k] = 1

        def transform(self, t):
            raise NotImplementedError
        c._abs_volume = sub(c, B, "AbsVolume", {
            "__init__": lambda self: None,
            "checkIfInterior": check, "populate_atoms": populate, "transform": transform,
            "atoms": property(atoms), "species": property(species),
            "priority": property(lambda self: c.core.SNum(T.app("vol_prio", key(self), True), True)),
        })
    return c._abs_volume


class Members:
    """members of a composite: list, inside(k,p), prio(k), natoms(k), atom(k,i), sp(k,i) as they are after populating"""


def volumes(c, name, n):
    m = Members()
    if c.sym:
        T = c.T
        cls = abs_volume(c)
        fam = T.const(family("vol"))
        c._vol_state = c.arr.SArr((c.core.poly(n),), "i", lambda idx: T.ZERO).fresh_copy()
        m.list = seq(c, n, lambda k: make(cls, fam=c.core.SNum(fam, True), k=k))
        P = c.core.poly
        N, B = c.core.SNum, c.core.SBool
        one = T.ONE
        m.inside = lambda k, p: B(T.bapp("in_vol", [fam, P(k)] + [P(x) for x in p]))
        m.prio = lambda k: N(T.app("vol_prio", [fam, P(k)], True), True)
        m.natoms = lambda k: N(T.app("vol_n", [fam, P(k), one], True), True)
        m.atom = lambda k, i: [N(T.app("vol_atom", [fam, P(k), one, P(i), T.const(j)])) for j in range(3)]
        m.sp = lambda k, i: N(T.app("vol_sp", [fam, P(k), one, P(i)], True), True)
        m.id = lambda v: v.k
        m.n = n
        return m
    rng = sub_rng(c, name)
    mod = c.mod("czone.volume.volume")

    class Member(mod.BaseVolume):
        def __init__(self, k, vol, prio, pts, sp):
            self.k, self.vol, self._priority = k, vol, prio
            self._new = (pts, sp)
            self._atoms, self._species = pts[:1] * 0 - 77.0, sp[:1] * 0

        def checkIfInterior(self, p):
            return self.vol.checkIfInterior(p)

        def populate_atoms(self):
            self._atoms, self._species = self._new

        def transform(self, t):
            raise NotImplementedError
    am = c.mod("czone.volume.algebraic")
    m.list = []
    insides = []
    for k in range(n):
        na = int(rng.integers(0, 9))
        s = rand_surface(c, am, rng)
        vol = mod.Volume(alg_objects=[s])
        m.list.append(Member(k, vol, int(rng.integers(-2, 3)), rng.normal(size=(na, 3)) * 2.5, rng.integers(1, 90, size=na)))
        insides.append(surf_inside(c, am, am.copy.deepcopy(s)))
    data = [(_np.array(v._new[0]), _np.array(v._new[1])) for v in m.list]
    m.inside = lambda k, p: insides[k](p)
    prios = [v.priority for v in m.list]
    m.prio = lambda k: prios[k]
    m.natoms = lambda k: len(data[k][0])
    m.atom = lambda k, i: data[k][0][i].tolist()
    m.sp = lambda k, i: int(data[k][1][i])
    m.id = lambda v: v.k
    m.n = n
    return m


def surf_inside(c, mod, s):
    def inside(p):
        p = _np.array(p, dtype=float)
        if isinstance(s, mod.Sphere):
            return c.lt(_np.linalg.norm(p - s.center), s.radius + s.tol)
        if isinstance(s, mod.Plane):
            return c.lt(_np.dot(p - s.point, s.normal), s.tol)
        d = p - s.point
        h = _np.dot(d, s.axis)
        return c.and_(c.lt(_np.linalg.norm(d - h * s.axis), s.radius + s.tol), c.lt(abs(h), s.length / 2 + s.tol))
    return inside


# ------------------------------------------------------------------------------------------------ exactly the kept atoms
def kept_exactly(c, label, at, sp, m, want, fn="vol_atom", pos=(1, 3), ordered=False):
    """the rows of at and sp are exactly the atoms (k, i) of the members with want(k, i), each once"""
    from vc import dsl
    if c.sym:
        T = c.T
        P = c.core.poly
        A = c.arr.to_arr(at)
        S = c.arr.to_arr(sp)
        N = c.core.SNum(P(A.sh[0]), True)
        c.ensure(label + ": one species per atom", c.and_(c.shape_is(at, N, 3), c.shape_is(sp, N)))
        which = c.choice("part_" + label, ["rows", "order", "complete"])

        def prov(r):
            w = dsl.witness(c, A.get((P(r), T.ZERO)), fn)
            return w[pos[0]] if pos[0] is not None else 0, w[pos[1]]
        if which == "rows":
            for r in c.each("row", N):
                k, i = prov(r)
                c.ensure(label + ": every atom is one that was supplied", c.and_(c.le(0, k), c.lt(k, m.n), c.le(0, i), c.lt(i, m.natoms(k)), c.veq(c.row(at, r), m.atom(k, i))))
                c.ensure(label + ": every atom keeps its species", c.eq(c.item(sp, r), m.sp(k, i)))
                c.cover("an atom is kept")
                c.ensure(label + ": only the atoms asked for", want(k, i))
        elif which == "order":
            for r in c.each("row", N):
                for s in c.each("row2", N):
                    c.require(c.lt(r, s))
                    k, i = prov(r)
                    k2, i2 = prov(s)
                    c.ensure(label + ": no atom appears twice", c.not_(c.and_(c.eq(k, k2), c.eq(i, i2))))
                    if ordered:
                        c.ensure(label + ": in the supplied order", c.lt(i, i2))
        else:
            for k in c.each("member", m.n):
                for i in c.each("atom", m.natoms(k)):
                    c.require(want(k, i))
                    r = T.var("_row", True)
                    a = A.get((r, T.ZERO)).single_atom()
                    if a is None or a.kind != "app" or a.name != fn:
                        raise T.Unsupported("a result that is not one of the inputs: %r" % (a,))
                    R = dsl.invert(c, ([(a.args[pos[0]], P(k))] if pos[0] is not None else []) + [(a.args[pos[1]], P(i))], r)
                    if R is None:
                        raise T.Unsupported("the position of a kept atom in the result: %r" % (a,))
                    R = c.core.SNum(R, True)
                    c.ensure(label + ": every atom asked for is there", c.and_(c.le(0, R), c.lt(R, N), c.veq([c.core.SNum(A.get((P(R), T.const(j)))) for j in range(3)], m.atom(k, i))))
                    c.ensure(label + ": with its species", c.eq(c.core.SNum(S.get((P(R),)), True), m.sp(k, i)))
        return
    at, sp = _np.asarray(at), _np.asarray(sp)
    c.ensure(label + ": one species per atom", at.ndim == 2 and at.shape[1] == 3 and sp.shape == (at.shape[0],))
    rows = [(tuple(p), int(s)) for p, s in zip(at.tolist(), sp.tolist())]
    left = list(rows)
    for k in range(m.n):
        for i in range(m.natoms(k)):
            key = (tuple(m.atom(k, i)), m.sp(k, i))
            n = left.count(key)
            while key in left:
                left.remove(key)
            from vc.dsl import cb
            w = cb(want(k, i))
            if w is None:
                c.ensure(label + ": an atom appears at most once", n <= 1)
            elif w:
                c.ensure(label + ": every atom asked for is there once", n == 1)
            else:
                c.ensure(label + ": only the atoms asked for", n == 0)
    c.ensure(label + ": every atom is one that was supplied", not left)
    if ordered and m.n == 1:
        it = iter([(tuple(m.atom(0, i)), m.sp(0, i)) for i in range(m.natoms(0))])
        c.ensure(label + ": in the supplied order", all(r in it for r in rows))


# ------------------------------------------------------------------------------------------------ real composites
class Tree:
    """reference description of a real object: leaf (region, atoms) or composite (children)"""


def margin_inside(mod, surf, X):
    """how far inside a surface each point is (positive: inside)"""
    X = _np.asarray(X, dtype=float)
    if isinstance(surf, mod.Sphere):
        return surf.radius - _np.linalg.norm(X - surf.center, axis=1)
    if isinstance(surf, mod.Plane):
        return -(X - surf.point) @ surf.normal
    d = X - surf.point
    h = d @ surf.axis
    r = _np.linalg.norm(d - h[:, None] * surf.axis, axis=1)
    return _np.minimum(surf.radius - r, surf.length / 2 - _np.abs(h))


def composite_scenario(s, scene):
    import czone.volume.volume as vm
    import czone.volume.algebraic as am
    import czone.generator.generator as gm
    import czone.molecule.molecule as mm
    import czone.scene.scene as sm
    rng = s.rng

    class Fixed(gm.BaseGenerator):
        """supplies the same atoms whatever it is asked"""
        def __init__(self, pts, sp):
            self.pts, self.sp = pts, sp

        def supply_atoms(self, bbox):
            return _np.array(self.pts), _np.array(self.sp)
    Zs = iter(range(1, 90))
    pos = lambda n: rng.normal(size=(n, 3)) * 2.5

    def leaf():
        if rng.random() < 0.15 and scene:
            n = int(rng.integers(1, 5))
            p = pos(n)
            z = rng.integers(1, 90, size=n)
            ob = mm.Molecule(z, p)
            ob.priority = int(rng.integers(-2, 3))
            t = Tree()
            t.ob, t.mol, t.kids, t.atoms, t.sp, t.prio = ob, True, None, p, z, ob.priority
            return t
        surf = [rand_surface(s, am, rng) for _ in range(int(rng.integers(1, 3)))]
        n = int(rng.integers(0, 12))
        p, z = pos(n), rng.integers(1, 90, size=n)
        bnd = am.Sphere(30.0, _np.zeros(3))
        ob = vm.Volume(alg_objects=surf + [bnd], generator=Fixed(p, z), priority=int(rng.integers(-2, 3)))
        t = Tree()
        m = _np.min([margin_inside(am, x, p) for x in surf], axis=0) if n else _np.zeros(0)
        t.ob, t.mol, t.kids, t.surf, t.prio = ob, False, None, surf, ob.priority
        t.atoms, t.sp = p[m > 0], z[m > 0]
        t.near = bool(n and _np.min(_np.abs(m)) < 1e-6)
        return t

    def node(depth):
        if depth == 0 or rng.random() < 0.6:
            return leaf()
        kids = [node(depth - 1) for _ in range(int(rng.integers(1, 4)))]
        kids = [k for k in kids if not k.mol] or [leaf_vol()]
        pr = int(rng.integers(-2, 3))
        ob = vm.MultiVolume(volumes=[k.ob for k in kids], priority=pr)
        t = Tree()
        t.ob, t.mol, t.kids, t.prio = ob, False, kids, pr
        return t

    def leaf_vol():
        while True:
            t = leaf()
            if not t.mol:
                return t

    def margin(t, X):
        if t.mol:
            return _np.full(len(X), -1.0)
        if t.kids is None:
            return _np.min([margin_inside(am, x, X) for x in t.surf], axis=0)
        return _np.max([margin(k, X) for k in t.kids], axis=0)

    def resolved(kids):
        """(positions, species) per child after resolving overlaps"""
        data = []
        for k in kids:
            if k.kids is not None:
                d = resolved(k.kids)
                data.append((_np.vstack([a for a, b in d] + [_np.zeros((0, 3))]), _np.hstack([b for a, b in d] + [_np.zeros(0, int)])))
            else:
                data.append((k.atoms, k.sp))
        out = []
        for i, k in enumerate(kids):
            X, Z = data[i]
            keep = _np.ones(len(X), bool)
            for j, o in enumerate(kids):
                if i != j and o.prio <= k.prio and len(X):
                    m = margin(o, X)
                    if _np.any(_np.abs(m) < 1e-7):
                        s.skip()
                    keep &= ~(m > 0)
            out.append((X[keep], Z[keep]))
        return out

    def rows(X, Z):
        return sorted((tuple(x), int(z)) for x, z in zip(_np.asarray(X).tolist(), Z))

    def compare(kids, X, Z):
        exp = resolved(kids)
        s.check("positions and species agree in number", _np.asarray(X).ndim == 2 and _np.shape(X) == (len(Z), 3), (_np.shape(X), _np.shape(Z)))
        s.check("exactly the resolved atoms with their species", rows(X, Z) == rows(_np.vstack([a for a, b in exp]), _np.hstack([b for a, b in exp])))
    n = int(rng.integers(1, 6))
    kids = [node(2) for _ in range(n)]
    if not scene:
        kids = [k for k in kids if not k.mol]
        if not kids:
            s.skip()
    s.note(members=len(kids), priorities=[k.prio for k in kids])
    if scene:
        how = int(rng.integers(0, 2))
        sc = sm.Scene(objects=[k.ob for k in kids]) if how else sm.Scene(bounds=[[0, 0, 0], [5, 5, 5]])
        if not how:
            for k in kids:
                sc.add_object(k.ob)
        sc.populate()
        compare(kids, sc.all_atoms, sc.all_species)
        s.check("the atoms object has as many atoms", len(sc.ase_atoms) == len(sc.all_species))
    else:
        sc = vm.MultiVolume([k.ob for k in kids])
        sc.populate_atoms()
        compare(kids, sc.atoms, sc.species)
        Y = pos(15)
        m = _np.max([margin(k, Y) for k in kids], axis=0)
        ok = _np.abs(m) > 1e-7
        s.check("the region is the union of the members", _np.all((sc.checkIfInterior(Y) == (m > 0))[ok]))
    # a later change of priority or of the members takes effect when populated again
    for _ in range(int(rng.integers(0, 3))):
        k = kids[int(rng.integers(0, len(kids)))]
        u = rng.random()
        while u < 0.4 and k.kids is not None:
            k = k.kids[int(rng.integers(0, len(k.kids)))]
        if u < 0.4 and not k.mol:
            # another generator
            n = int(rng.integers(0, 12))
            p, z = pos(n), rng.integers(1, 90, size=n)
            k.ob.add_generator(Fixed(p, z))
            k.atoms, k.sp = p, z
            m = margin(k, p) if n else _np.zeros(0)
            if n and _np.min(_np.abs(m)) < 1e-6:
                s.skip()
            k.atoms, k.sp = p[m > 0], z[m > 0]
        elif u < 0.7:
            k.prio = int(rng.integers(-3, 4))
            k.ob.priority = k.prio
        else:
            new = node(1) if scene else leaf_vol()
            kids.append(new)
            sc.add_object(new.ob) if scene else sc.add_volume(new.ob)
        if scene:
            sc.populate()
            compare(kids, sc.all_atoms, sc.all_species)
        else:
            sc.populate_atoms()
            compare(kids, sc.atoms, sc.species)


# ------------------------------------------------------------------------------------------------ generators
GEN = "czone.generator.generator."


def abs_generator(c):
    """an arbitrary deterministic generator: what it supplies is a function of itself and of the box it is asked to fill"""
    if not hasattr(c, "_abs_generator"):
        B = c.cls(GEN + "BaseGenerator")
        T, A = c.T, c.arr
        c.absfn.FACTS["gen_n"] = lambda args: [T.le0(-T.app("gen_n", args, True))]
        c.gen_calls = []

        def supply(self, bbox):
            X = A.to_arr(bbox)
            f = X.snap()
            n = A.dp(X.sh[0])
            k = T.var("_bk", True)
            ts = [A.as_poly(f((k, T.const(j)))) for j in range(3)] + [n]
            key, params, cts, cb, cps = c.absfn.canon(ts, [k])
            h = [c.core.poly(self.k), T.const(family("box#" + str(key)))] + list(params)
            N = T.app("gen_n", h, True)
            c.gen_calls.append((self, X.fresh_copy(), h))
            at = A.SArr((N, 3), "f", lambda idx: T.app("gen_atom", [T.ZERO] + list(idx) + h)).fresh_copy()
            sp = A.SArr((N,), "i", lambda idx: T.app("gen_sp", [T.ZERO] + list(idx) + h, True)).fresh_copy()
            c.gen_out = (at, sp)
            return at, sp
        c._abs_generator = sub(c, B, "AbsGenerator", {"supply_atoms": supply})
    return c._abs_generator


def fixed_generator(gm, pts, sp):
    """a real generator that supplies the same atoms, shifted with the box, and keeps what it supplied"""
    class Fixed(gm.BaseGenerator):
        def __init__(self):
            self.pts, self.sp, self.calls = pts, sp, []

        def supply_atoms(self, bbox):
            self.calls.append(_np.array(bbox, copy=True))
            self.out = (_np.array(self.pts), _np.array(self.sp))
            self.out0 = (self.out[0].copy(), self.out[1].copy())
            return self.out
    return Fixed()


def supplied(c, k, at, sp):
    """the supplied atoms as seen by kept_exactly (member 0)"""
    m = Members()
    m.n = 1
    if c.sym:
        N = c.core.SNum
        at, sp = c.arr.to_arr(at).fresh_copy(), c.arr.to_arr(sp).fresh_copy()
        P = c.core.poly
        m.natoms = lambda k: N(P(at.sh[0]), True)
        m.atom = lambda k, i: c.row(at, i)
        m.sp = lambda k, i: c.item(sp, i)
    else:
        at, sp = _np.array(at), _np.array(sp)
        m.natoms = lambda k: len(at)
        m.atom = lambda k, i: at[i].tolist()
        m.sp = lambda k, i: int(sp[i])
    return m
