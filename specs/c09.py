"""C09 Regions move with their transformations."""
from vc.spec import Registry
from specs import common as K
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.transform.transform", "czone.volume.algebraic")
TR = "czone.transform.transform."
A = "czone.volume.algebraic."


def make_transform(c, kind):
    """(transform, functions under contract)"""
    if kind == "translation":
        return c.cls(TR + "Translation")(c.vec("d"))
    if kind == "reflection":
        return c.cls(TR + "Reflection")(c.cls(A + "Plane")(c.unit("m"), c.vec("mp")))
    o = c.vec("o") if c.case(c.bool("with_origin")) else None
    if kind == "inversion":
        return c.cls(TR + "Inversion")(origin=o)
    if kind == "rotation":
        return c.cls(TR + "Rotation")(c.rotation("M"), origin=o)
    det = c.choice("det", [1, -1])
    return c.cls(TR + "MatrixTransform")(c.orthogonal("M" if det == 1 else "N", det), origin=o)


def make_surface(c, kind):
    tol = c.real("tol", lo=1e-6, hi=1)
    if kind == "sphere":
        return c.cls(A + "Sphere")(c.real("r", lo=1e-3), c.vec("p"), tol=tol)
    if kind == "plane":
        return c.cls(A + "Plane")(c.unit("n"), c.vec("p"), tol=tol)
    return c.cls(A + "Cylinder")(c.unit("n"), c.vec("p"), c.real("r", lo=1e-3), c.real("len", lo=1e-3), tol=tol)


def verdict(c, S, X):
    """verdicts of the surface's own test; undecided near the boundary in concrete runs"""
    v = S.checkIfInterior(X)
    if c.sym:
        return lambda i: c.item(v, i)
    from vc.dsl import CB
    am = c.mod("czone.volume.algebraic")
    m = K.margin_inside(am, S, X) + S.tol
    return lambda i: CB(None if abs(m[i]) < 1e-6 * (1 + _np.max(_np.abs(X[i]))) else bool(v[i]))


def sizes(c, S):
    r = [S.tol]
    if hasattr(S, "radius"):
        r.append(S.radius)
    if hasattr(S, "length"):
        r.append(S.length)
    return r


def body(c, tk, sk):
    t = make_transform(c, tk)
    S = make_surface(c, sk)
    N = c.size("n", big=True)
    X = c.points("X", N)
    before = verdict(c, S, X)
    sz = sizes(c, S)
    S2 = t.applyTransformation_alg(S)
    c.cover("moved")
    after = verdict(c, S2, t.applyTransformation(X))
    for i in c.each("i", N):
        c.ensure("a point is inside exactly when its image is inside the moved surface", c.iff(before(i), after(i)))
    c.ensure("radius, length and tolerance are kept", c.veq(sz, sizes(c, S2)))
    if c.sym:
        c.ensure("the surface stays of its kind", type(S2) is type(S))


for _tk, _cls in (("translation", "Translation"), ("rotation", "Rotation"), ("inversion", "Inversion"), ("matrix", "MatrixTransform"), ("reflection", "Reflection")):
    for _sk in ("sphere", "plane", "cylinder"):
        owner = "Translation" if _tk == "translation" else "MatrixTransform"
        R.proof("%s of a %s" % (_tk, _sk), [TR + owner + ".applyTransformation_alg", TR + owner + ".applyTransformation",
                                           A + _sk.capitalize() + ".checkIfInterior"], con=50)(
            (lambda tk, sk: lambda c: body(c, tk, sk))(_tk, _sk))


@R.proof("plane under any invertible matrix", [TR + "MatrixTransform.applyTransformation_alg", TR + "MatrixTransform.applyTransformation"], con=80)
def linear(c):
    M = c.mat("M")
    M0 = c.rows(M)
    d = c.det3(M0)
    c.require(c.lt(0.01, c.abs(d)))
    o = c.vec("o") if c.case(c.bool("with_origin")) else None
    t = c.cls(TR + "MatrixTransform")(M, origin=o)
    P = c.cls(A + "Plane")(c.unit("n"), c.vec("p"))
    n = c.vals(P.normal)
    x = c.vec("x")
    s0 = c.vals(P.sdist_from_plane(x))[0]
    # the normal as a covector: g with M^T g = n; the columns of the cofactor matrix over the determinant
    g = [0, 0, 0]
    rows = M0
    cof = [c.vcross(rows[1], rows[2]), c.vcross(rows[2], rows[0]), c.vcross(rows[0], rows[1])]
    g = [c.vdot(cof[i], n) / d for i in range(3)]
    c.require(c.lt(1e-9, c.norm(g)))
    Q = t.applyTransformation_alg(P)
    y = t.applyTransformation(x)
    s1 = c.vals(Q.sdist_from_plane(y))[0]
    c.ensure("signed distances are those before up to one positive factor", c.eq(s1 * c.norm(g), s0))
    c.cover("mapped")


# ------------------------------------------------------------------------------------------------ sequences
def moving_surface(c):
    """an arbitrary surface that the arbitrary transformations move: t_k turns its state s into talg(k, s)"""
    T, P = c.T, c.core.poly
    if not hasattr(c, "_mov"):
        B = c.cls(A + "BaseAlgebraic")

        def check(self, pts):
            return K.verdicts(c, lambda x: T.bapp("in_state", [P(self.state)] + list(x)), pts)

        def deep(self, memo):
            return K.make(type(self), state=self.state)
        c._mov = K.sub(c, B, "MovingSurface", {"checkIfInterior": check, "params": property(lambda self: self.state), "__deepcopy__": deep,
                                               "tol": 1e-5})
        cls = tf.abs_transform(c)

        def alg(self, ob):
            ob.state = c.core.SNum(T.app("talg", [P(self.k), P(ob.state)], True), True)
            return ob
        cls.applyTransformation_alg = alg
    return c._mov


def carry_state(c, s0, x):
    """state after m transformations: state(m+1) = talg(m, state(m)); by the contract of the m-th transformation a point is
    inside before exactly when its image is inside afterwards"""
    T, P = c.T, c.core.poly
    from vc import rt

    def sigma(m, s):
        return T.app("sigma", [m, s], True)

    def facts(args):
        m, s = args
        return [T.implies(T.eq(m, T.ZERO), T.eq(sigma(m, s), s)),
                T.implies(T.lt0(-m), T.eq(sigma(m, s), T.app("talg", [m - T.ONE, sigma(m - T.ONE, s)], True)))]
    c.absfn.FACTS["sigma"] = facts

    def carry(v):
        if not c.core.is_scalar(v) or isinstance(v, (bool, c.core.SBool)) or not c.core.poly(v).is_int:
            return None
        p = P(v)
        return lambda k: c.core.SNum(sigma(k, p), True)
    rt.CARRY.append(carry)
    xs = [P(v) for v in x]

    def ch(m):
        return [T.app("tchain", [m, T.const(j)] + xs) for j in range(3)]

    def inside(m):
        return T.bapp("in_state", [sigma(m, P(s0))] + ch(m))

    def step(m):
        """contract of transformation m at this surface and point"""
        y = ch(m)
        img = [tf.tmap(T, m, T.const(j), y) for j in range(3)]
        return T.iff(T.bapp("in_state", [T.app("talg", [m, sigma(m, P(s0))], True)] + img), T.bapp("in_state", [sigma(m, P(s0))] + y))
    return inside, step


@R.proof("sequence", [TR + "MultiTransform.applyTransformation_alg", TR + "MultiTransform.applyTransformation"], con=100)
def sequence(c):
    n = c.size("nt", hi=5)
    run_sequence(c, n, "multi")


@R.proof("copies with a list of transformations", [A + "BaseAlgebraic.from_alg_object"], con=100)
def from_alg(c):
    n = c.size("nt", hi=5)
    run_sequence(c, n, "copy")


def run_sequence(c, n, how):
    x = c.vec("x")
    if c.sym:
        s = tf.transforms(c, "T", n)
        cls = moving_surface(c)
        s0 = c.int("s0")
        S = K.make(cls, state=s0)
        inside, step = carry_state(c, s0, c.vals(x))
        T = c.T
        m = T.fresh("m", True)
        c.E.assume(T.forall([m], T.implies(c.absfn.rng(m, c.core.poly(n)), step(m))))
        t = c.cls(TR + "MultiTransform")(s.list)
        S2 = t.applyTransformation_alg(S) if how == "multi" else S.from_alg_object(transformation=s.list)
        y = t.applyTransformation(x)
        if how == "copy":
            c.ensure("the original is unchanged", c.and_(S2 is not S, c.eq(S.state, s0)))
        c.induction("inside after m transformations", n, lambda k: c.core.SBool(T.iff(inside(c.core.poly(k)), inside(T.ZERO))))
        v = S2.checkIfInterior(y)
        c.cover("moved")
        c.ensure("a point is inside exactly when its image is inside the moved surface",
                 c.iff(c.item(v, 0), c.core.SBool(T.bapp("in_state", [c.core.poly(s0)] + [c.core.poly(v) for v in c.vals(x)]))))
        return
    rng = K.sub_rng(c, "T")
    tm, am = c.mod("czone.transform.transform"), c.mod("czone.volume.algebraic")
    S = K.rand_surface(c, am, rng)
    kinds = None if isinstance(S, am.Plane) else ["T", "R", "I", "F"]
    data = [tf.rand_transform(tm, am, rng, kinds) for _ in range(n)]
    X = _np.vstack([x, rng.normal(size=(8, 3)) * 3])
    before = K.margin_inside(am, S, X)
    v0 = S.checkIfInterior(X)
    t = tm.MultiTransform([d[0] for d in data])
    if how == "multi":
        S2 = t.applyTransformation_alg(am.copy.deepcopy(S))
    else:
        S2 = S.from_alg_object(transformation=[d[0] for d in data])
        c.ensure("the original is unchanged", bool(_np.all(S.checkIfInterior(X) == v0)))
    Y = X
    for _, f, _ in data:
        Y = _np.array([f(p) for p in Y])
    v1 = S2.checkIfInterior(Y)
    for i in range(len(X)):
        if abs(before[i]) > 1e-3:
            c.ensure("a point is inside exactly when its image is inside the moved surface", bool(v0[i]) == bool(v1[i]))
    m1 = K.margin_inside(am, S2, Y)
    if not isinstance(S, am.Plane):
        c.ensure("distances are kept", bool(_np.allclose(m1, before, atol=1e-6)))
