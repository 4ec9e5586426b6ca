"""C08 Transforming a crystal moves every atom it supplies by that transformation."""
from vc.spec import Registry
from specs import common as K
from specs import gen as GN
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.generator.generator", "czone.volume.voxel", "czone.transform.transform", "czone.volume.volume", "czone.volume.algebraic")
G = "czone.generator.generator."
VX = "czone.volume.voxel."
TR = "czone.transform.transform."
A = "czone.volume.algebraic."
V = "czone.volume.volume."

ASSUMPTIONS = ["an affine map takes the convex hull of a set of points onto the convex hull of their images (geometry)",
               "sequences whose members disagree about the basis-only option are excluded (documented limitation of MultiTransform)"]


def make(c, kind, basis_only=False):
    """(transformation, its map of one point, its linear part)"""
    kw = dict(basis_only=basis_only, locked=c.choice("locked", [True, False]))
    if kind == "translation":
        d = c.vec("d")
        d0 = c.vals(d)
        return c.cls(TR + "Translation")(d, **kw), (lambda p: c.vadd(p, d0)), c.eye()
    if kind == "reflection":
        P = c.cls(A + "Plane")(c.unit("m"), c.vec("mp"))
        m, q = c.vals(P.normal), c.vals(P.point)
        M = [[(1 if i == j else 0) - 2 * m[i] * m[j] for j in range(3)] for i in range(3)]
        return c.cls(TR + "Reflection")(P, **kw), (lambda p: tf.mirror(c, m, q, p)), M
    o = c.vec("o") if c.choice("with_origin", ["no", "yes"]) == "yes" else None
    o0 = None if o is None else c.vals(o)
    if kind == "inversion":
        M = [[-1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
        return c.cls(TR + "Inversion")(origin=o, **kw), (lambda p: tf.affine(c, M, o0, p)), M
    if kind == "rotation":
        m = c.rotation("M")
        M = c.rows(m)
        return c.cls(TR + "Rotation")(m, origin=o, **kw), (lambda p: tf.affine(c, M, o0, p)), M
    m = c.mat("M")
    M = c.rows(m)
    c.require(c.lt(0.01, c.abs(c.det3(M))))
    return c.cls(TR + "MatrixTransform")(m, origin=o, **kw), (lambda p: tf.affine(c, M, o0, p)), M


def watch_collinear(c):
    """callers of the collinearity test are checked against its contract: vectors reported collinear span no volume with any
    third one"""
    if not c.sym:
        return None
    T = c.T
    calls = []

    def coll(self, a, b):
        f = c.core.SBool(T.bapp("coll%d" % len(calls)))
        calls.append((c.vals(a), c.vals(b), f))
        return f
    c.cls(VX + "Voxel")._collinear = coll
    return calls


def guarded(c, calls, f, B, det, factor):
    """f() does not refuse the bases B, whose determinant is factor times det (both not zero)"""
    if not c.sym:
        return f()
    n = len(calls)
    try:
        return f()
    except AssertionError:
        rows = B + c.transpose(B)
        for a, b, fl in calls[n:]:
            for r in rows:
                c.require(c.imp(fl, c.eq(c.det3([a, b, r]), 0)))
        c.fact("the new lattice has a volume", c.eq(c.det3(B), factor * det))
        c.require(c.imp(c.eq(factor * det, 0), c.or_(c.eq(factor, 0), c.eq(det, 0))))
        c.ensure("a linearly independent lattice stays one", False)
        raise c.core.PathEnd()


@R.proof("the collinearity test", [VX + "Voxel._collinear"], con=100)
def collinear(c):
    a, b = c.vec("a"), c.vec("b")
    a0, b0 = c.vals(a), c.vals(b)
    if not c.sym and c.rng.random() < 0.3:
        b = a * float(c.rng.integers(-3, 4))
        b0 = c.vals(b)
    c.require(c.lt(0, c.norm2(a0)))
    c.require(c.lt(0, c.norm2(b0)))
    f = c.cls(VX + "Voxel")()._collinear(a, b)
    if c.case(f):
        c.cover("reported collinear")
        x = c.vcross(a0, b0)
        if c.sym:
            T, P = c.T, c.core.poly
            # Lagrange: |a x b|^2 = |a|^2 |b|^2 - (a.b)^2
            na, nb = c.norm(a0), c.norm(b0)
            c.fact("lengths", c.and_(c.lt(0, na), c.lt(0, nb)))
            d = c.vdot(a0, b0)
            c.fact("cosine", c.eq(c.abs(d / (na * nb)), 1))
            c.fact("no area", c.eq(c.norm2(x), 0))
        c.ensure("they span no volume with any third vector", c.veq(x, [0, 0, 0]) if c.sym else True)
    else:
        c.cover("reported independent")


def body(c, kind):
    x = GN.crystal(c)
    calls = watch_collinear(c)
    if c.choice("scaled", ["no", "yes"]) == "yes":
        s = c.real("scale", lo=0.1, hi=10)
        x.gen.voxel.scale = s
        B0 = [[b * s for b in r] for r in x.B]
    else:
        s, B0 = 1, x.B
    c.ensure("the cell before", c.meq(c.rows(x.gen.voxel.sbases), B0))
    bo = c.choice("basis_only", [False, True])
    t, f, M = make(c, kind, bo)
    guarded(c, calls, lambda: x.gen.transform(t), c.mulmm(M, x.B), c.det3(x.B), c.det3(M))
    c.cover("moved")
    B1, o1 = c.rows(x.gen.voxel.sbases), c.vals(x.gen.origin)
    c.ensure("one origin", c.veq(o1, c.vals(x.gen.voxel.origin)))
    q = [c.real("q%d" % j) for j in range(3)]
    c.ensure("the origin is where it belongs", c.veq(o1, x.o if bo else f(x.o)))
    c.ensure("the cell is reoriented", c.meq(B1, c.mulmm(M, B0)))
    p = c.vadd(x.o, c.mulmv(B0, q))
    want = c.vadd(x.o, c.mulmv(M, c.mulmv(B0, q))) if bo else f(p)
    got = c.vadd(o1, c.mulmv(B1, q))
    if c.sym:
        for j in range(3):
            c.ensure("lattice sites are mapped to their images", c.eq(got[j], want[j]))
    else:
        c.ensure("lattice sites are mapped to their images", c.veq(got, want))
    c.same("the sites of the cell stay", c.np.array(x.gen.coords), x.frac_array)
    c.same("the elements stay", c.np.array(x.gen.species), x.Z_array)
    if not c.sym:
        P = c.points("P", 4)
        e = _np.ptp(P @ _np.linalg.inv(_np.array(B1)).T, axis=0)
        if _np.prod(e + 4) * x.n < 20000:
            at, sp = x.gen.supply_atoms(P)
            o = x.o if bo else f(x.o)
            GN.check_fill(lambda l, b: c.ensure(l, bool(b)), c.mulmm(M, B0), o, x.frac_array, x.Z_array, P, at, sp, GN.hull_test(P))


for _k, _cls in (("translation", "Translation"), ("rotation", "Rotation"), ("inversion", "Inversion"), ("matrix", "MatrixTransform"), ("reflection", "Reflection")):
    _own = "Translation" if _k == "translation" else "MatrixTransform"
    R.proof(_k, [G + "Generator.transform", TR + _own + ".applyTransformation", TR + _own + ".applyTransformation_bases", VX + "Voxel.bases", VX + "Voxel.origin"],
            con=40)((lambda k: lambda c: body(c, k))(_k))


@R.proof("sequence", [G + "Generator.transform", TR + "MultiTransform.applyTransformation_bases", TR + "MultiTransform.applyTransformation",
                      TR + "MultiTransform.basis_only"], con=60)
def sequence(c):
    chain(c, "multi")


@R.proof("copies with a list of transformations", [G + "BaseGenerator.from_generator", G + "Generator.transform"], con=60)
def copies(c):
    chain(c, "copy")


def chain(c, how):
    n = c.size("nt", hi=4)
    x = GN.crystal(c)
    g = x.gen
    q = [c.real("q%d" % j) for j in range(3)]
    p = c.vadd(x.o, c.mulmv(x.B, q))
    o = x.o
    if c.sym:
        c.carry_bases = True
        s = tf.transforms(c, "T", n)
        prop = tf.affine_chain(c, n, o, p, x.B, q)
        # the arbitrary transformations are invertible: they keep a lattice a lattice
        c.cls(VX + "Voxel")._collinear = lambda self, a, b: False
        T = c.T
        k = T.fresh("k", True)
        c.E.assume(T.forall([k], T.not_(T.bapp("tbonly", [k]))))
        if how == "multi":
            t = c.cls(TR + "MultiTransform")(s.list)
            g.transform(t)
        else:
            g = x.gen.from_generator(transformation=s.list)
            c.ensure("another generator", g is not x.gen)
            c.ensure("the original stays", c.and_(c.meq(c.rows(x.gen.voxel.sbases), x.B), c.veq(c.vals(x.gen.origin), o)))
        c.cover("moved")
        B1, o1 = c.rows(g.voxel.sbases), c.vals(g.origin)
        c.ensure("the origin is mapped", c.veq(o1, s.after(n, o)))
        c.ensure("the cell is mapped", c.meq(B1, s.bafter(n, x.B)))
        c.ensure("lattice sites are mapped to their images", c.veq(c.vadd(s.after(n, o), c.mulmv(s.bafter(n, x.B), q)), s.after(n, p)))
        c.same("the sites of the cell stay", c.np.array(g.coords), x.frac_array)
        c.same("the elements stay", c.np.array(g.species), x.Z_array)
        return
    s = tf.transforms(c, "T", n)
    if how == "multi":
        g.transform(c.cls(TR + "MultiTransform")(s.list))
    else:
        g = x.gen.from_generator(transformation=s.list)
        c.ensure("the original stays", c.and_(c.meq(c.rows(x.gen.voxel.sbases), x.B), c.veq(c.vals(x.gen.origin), o)))
    c.ensure("the origin is mapped", c.veq(c.vals(g.origin), s.after(n, o)))
    c.ensure("the cell is mapped", c.meq(c.rows(g.voxel.sbases), s.bafter(n, x.B)))
    c.ensure("lattice sites are mapped to their images", c.veq(c.vadd(c.vals(g.origin), c.mulmv(c.rows(g.voxel.sbases), q)), s.after(n, p)))
    c.same("the elements stay", c.np.array(g.species), x.Z_array)


# ------------------------------------------------------------------------------------------------ volumes
def joint_transform(c):
    """an arbitrary transformation: of points, and of surfaces by its contract (C09)"""
    T, P = c.T, c.core.poly
    cls = tf.abs_transform(c)
    S = K.abs_surface(c)

    def check(self, pts):
        return K.verdicts(c, lambda x: T.bapp("in_moved", [P(self.t), P(self.fam), P(self.k)] + list(x)), pts)
    M = K.sub(c, c.cls(A + "BaseAlgebraic"), "MovedSurface", {"checkIfInterior": check, "params": property(lambda self: (self.k,))})

    def alg(self, ob):
        if type(ob) is not S:
            raise T.Unsupported("a surface that is transformed twice")
        return K.make(M, t=self.k, fam=ob.fam, k=ob.k)
    cls.applyTransformation_alg = alg
    return K.make(cls, k=c.int("t")), M


def moving_generator(c):
    """an arbitrary generator that keeps what it was transformed by"""
    cls = K.abs_generator(c)

    def transform(self, t):
        self.moves = self.moves + 1
        self.last = t.k
    cls.transform = transform
    return K.make(cls, k=c.int("g"), moves=0, last=-1)


@R.proof("volume", [V + "Volume.transform", V + "Volume.checkIfInterior", V + "Volume.points", V + "Volume.addPoints", V + "Volume.createHull"], con=80)
def volume(c):
    from specs.c03 import hull_points
    n = c.size("ns", hi=3)
    kind = c.choice("kind", ["points", "surfaces"])
    gen = c.choice("generator", ["yes", "no"])
    prio = c.int("prio")
    x = c.vec("x")
    if c.sym:
        T, P = c.T, c.core.poly
        objs, inside = K.surfaces(c, "S", n)
        t, M = joint_transform(c)
        kw = dict(alg_objects=objs, priority=prio)
        H = None
        if kind == "points":
            H = hull_points(c, c.size("m", lo=4, hi=8))
            kw["points"] = H
            H0 = c.snapshot(H)
        if gen == "yes":
            kw["generator"] = moving_generator(c)
        vol = c.cls(V + "Volume")(**kw)
        g0 = vol.generator
        y = c.vals(t.applyTransformation(x))
        if kind == "points":
            TH = c.snapshot(t.applyTransformation(H0))
        vol.transform(t)
        c.cover("moved")
        c.ensure("as many surfaces", c.eq(c.length(vol.alg_objects), n))
        for i in c.each("i", n):
            s = vol.alg_objects[i]
            c.ensure("each surface is moved once, by this transformation", c.and_(type(s) is M, c.eq(s.k, i), c.eq(s.t, t.k)))
        if kind == "points":
            c.same("the points are moved", vol.points, TH)
        else:
            c.ensure("no points appear", vol.points is None)
        v = vol.checkIfInterior(c.np.array(y))
        fam = T.const(K.family("S"))

        def moved(k):
            return c.core.SBool(T.bapp("in_moved", [P(t.k), fam, P(k)] + [P(a) for a in y]))
        # contract of the surfaces (C09): inside before exactly when the image is inside after
        k = T.fresh("k", True)
        kk = c.core.SNum(k, True)
        c.E.assume(T.forall([k], T.implies(c.absfn.rng(k, P(n)), T.iff(c.b(moved(kk)), c.b(inside(kk, c.vals(x)))))))
        want = c.forall(n, lambda k: inside(k, c.vals(x)))
        if kind == "points":
            hp, hq = K.in_hull(c, H0, c.vals(x)), K.in_hull(c, TH, y)
            c.require(c.iff(hp, hq))    # affine maps keep convex hulls
            want = c.and_(hp, want)
        c.ensure("a point is inside exactly when its image is inside the moved volume", c.iff(c.item(v, 0), want))
        c.ensure("the priority stays", c.eq(vol.priority, prio))
        c.ensure("the generator stays", vol.generator is g0)
        if gen == "yes":
            c.ensure("the crystal moves exactly with a joint transformation", c.eq(g0.moves, c.ite(t.locked, 1, 0)))
            c.ensure("by the same map", c.or_(c.not_(t.locked), c.eq(g0.last, t.k)))
        return
    real_volume(c, K.sub_rng(c, "real"), lambda l, b: c.ensure(l, bool(b)))


def real_volume(c, rng, check, depth=0):
    import czone.volume.volume as vm
    import czone.volume.algebraic as am
    import czone.transform.transform as tm
    import czone.generator.generator as gm

    class Rec(gm.BaseGenerator):
        def __init__(self):
            self.moves = []

        def supply_atoms(self, bbox):
            return _np.zeros((0, 3)), _np.zeros(0)

        def transform(self, t):
            self.moves.append(t)
    leaves = []

    def leaf():
        surf = [K.rand_surface(None, am, rng) for _ in range(int(rng.integers(0, 4)))]
        P = rng.normal(size=(int(rng.integers(4, 9)), 3)) * 3 if rng.random() < 0.6 or not surf else None
        g = [None, Rec(), "crystal"][int(rng.integers(0, 3))]
        if g == "crystal":
            g = gm.Generator.from_unit_cell(Z=[6, 8], coords=rng.uniform(0, 1, size=(2, 3)), cellDims=[3, 4, 5], cellAngs=[80, 90, 100], origin=rng.normal(size=3))
        v = vm.Volume(points=P, alg_objects=surf, generator=g, priority=int(rng.integers(-2, 3)))
        leaves.append((v, surf, P, v.generator))
        return v

    def node(d):
        if d == 0 or rng.random() < 0.5:
            return leaf()
        return vm.MultiVolume([node(d - 1) for _ in range(int(rng.integers(1, 4)))])
    top = node(depth)
    state = [(am.copy.deepcopy(s), None if P is None else P.copy(), None if not isinstance(g, gm.Generator) else (g.origin.copy(), g.voxel.sbases.copy()), v.priority) for v, s, P, g in leaves]
    X = rng.normal(size=(12, 3)) * 3
    Y = X
    nloc = 0
    ts = []
    for _ in range(int(rng.integers(1, 4))):
        lk = bool(rng.random() < 0.6)
        bo = bool(rng.random() < 0.2)
        t, f, M = tf.rand_transform(tm, am, rng, kinds=["T", "R", "I", "F"], locked=lk, basis_only=bo)
        if rng.random() < 0.3:
            t2, f2, M2 = tf.rand_transform(tm, am, rng, kinds=["T", "R", "I", "F"], locked=lk, basis_only=bo)
            t, f, M = tm.MultiTransform([t, t2]), (lambda p, f=f, f2=f2: f2(f(p))), M2 @ M
        top.transform(t)
        Y = _np.array([f(p) for p in Y])
        ts.append((t, f, M, lk, bo))
    for (v, surf, P, g), (s0, P0, g0, pr) in zip(leaves, state):
        m = _np.full(len(X), 1e9)
        for s in s0:
            m = _np.minimum(m, K.margin_inside(am, s, X))
        want = m > 0
        near = _np.abs(m) < 1e-4
        if P0 is not None:
            from vc.dsl import cb
            hv = [cb(K.hull_verdict(P0, x)) for x in X]
            want &= _np.array([bool(h) for h in hv])
            near |= _np.array([h is None for h in hv])
            Q = P0
            for t, f, M, lk, bo in ts:
                Q = _np.array([f(p) for p in Q])
            check("the points are moved", v.points.shape == Q.shape and _np.allclose(v.points, Q, atol=1e-8))
        got = v.checkIfInterior(Y)
        check("a point is inside exactly when its image is inside the moved volume", bool(_np.all((got == want) | near)))
        check("the priority stays", v.priority == pr)
        check("as many surfaces", len(v.alg_objects) == len(s0))
        check("the generator stays", v.generator is g)
        check("the surfaces handed over are not touched", all(bool(_np.allclose(K.margin_inside(am, a, X), K.margin_inside(am, b, X))) for a, b in zip(surf, s0)))
        if isinstance(g, Rec):
            check("the generator moves exactly with joint transformations, in order", g.moves == [t for t, f, M, lk, bo in ts if lk])
        elif g is not None:
            o, B = g0
            for t, f, M, lk, bo in ts:
                if lk:
                    B = M @ B
                    if not bo:
                        o = f(o)
            check("the crystal moves with its volume", bool(_np.allclose(g.origin, o, atol=1e-8) and _np.allclose(g.voxel.sbases, B, atol=1e-8)))


@R.proof("composite volume", [V + "MultiVolume.transform"], con=60)
def composite(c):
    n = c.size("nv", hi=3)
    if c.sym:
        m = K.volumes(c, "V", n)
        cls = K.abs_volume(c)
        c._vol_moves = c.arr.SArr((c.core.poly(n),), "i", lambda idx: c.T.ZERO).fresh_copy()
        c._vol_last = c.arr.SArr((c.core.poly(n),), "i", lambda idx: -c.T.ONE).fresh_copy()

        def transform(self, t):
            c._vol_moves[self.k] = c._vol_moves[self.k] + 1
            c._vol_last[self.k] = t.k
        cls.transform = transform
        t = K.make(tf.abs_transform(c), k=c.int("t", lo=0))
        mv = c.cls(V + "MultiVolume")(volumes=m.list)
        mv.transform(t)
        c.cover("moved")
        c.ensure("the same members", c.eq(c.length(mv.volumes), n))
        for i in c.each("i", n):
            c.ensure("every member is transformed once by the transformation", c.and_(c.eq(c._vol_moves[i], 1), c.eq(c._vol_last[i], t.k), c.eq(mv.volumes[i].k, i)))
        return
    real_volume(c, K.sub_rng(c, "real"), lambda l, b: c.ensure(l, bool(b)), depth=2)


@R.scenario("crystals in moving volumes", quick=60, thorough=600)
def real(s):
    real_volume(None, s.rng, s.check, depth=int(s.rng.integers(0, 3)))
