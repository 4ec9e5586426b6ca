"""C10 Transformations are the maps they claim to be."""
from vc.spec import Registry
from specs import common as K
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.transform.transform",)
TR = "czone.transform.transform."
A = "czone.volume.algebraic."


def check(c, t, want):
    """the images of a batch of any size and of a single point"""
    N = c.size("n", big=True)
    X = c.points("X", N)
    X0 = c.snapshot(X)
    Y = t.applyTransformation(X)
    c.cover("a batch was mapped")
    c.ensure("one image per point", c.shape_is(Y, N, 3))
    for i in c.each("i", N):
        c.ensure("every point of a batch goes to its image", c.veq(c.row(Y, i), want(c.row(X0, i))))
    c.same("points passed in are not modified", X, X0)
    x = c.vec("x")
    x0 = c.vals(x)
    y = t.applyTransformation(x)
    c.ensure("a single point gives a single point", c.shape_is(y, 3))
    c.ensure("a single point goes to its image", c.veq(c.vals(y), want(x0)))
    c.ensure("the point passed in is not modified", c.veq(c.vals(x), x0))


@R.proof("translation", [TR + "Translation.__init__", TR + "Translation.shift", TR + "Translation.applyTransformation",
                         TR + "Translation.applyTransformation_bases"], con=80)
def translation(c):
    d = c.vec("d")
    d0 = c.vals(d)
    t = c.cls(TR + "Translation")(d)
    if c.choice("how", ["constructor", "replaced"]) == "replaced":
        t = c.cls(TR + "Translation")(c.vec("d1"))
        t.applyTransformation(c.vec("used"))
        t.shift = d
    check(c, t, lambda p: c.vadd(p, d0))
    B = c.mat("B")
    B0 = c.rows(B)
    c.ensure("directions are unaffected", c.meq(c.rows(t.applyTransformation_bases(B)), B0))
    # later changes of the argument do not reach the transformation
    d[0] = d[0] + 1
    c.ensure("the shift is that given at construction", c.veq(c.vals(t.shift), d0))


@R.proof("matrix transformation", [TR + "MatrixTransform.__init__", TR + "MatrixTransform.matrix", TR + "MatrixTransform.origin",
                                   TR + "MatrixTransform.applyTransformation", TR + "MatrixTransform.applyTransformation_bases"], con=80)
def matrix(c):
    M = c.mat("M")
    o = c.vec("o") if c.case(c.bool("with_origin")) else None
    t = c.cls(TR + "MatrixTransform")(M, origin=o)
    M0 = c.rows(M)
    o0 = None if o is None else c.vals(o)
    check(c, t, lambda p: tf.affine(c, M0, o0, p))
    if o is not None:
        c.ensure("the origin stays fixed", c.veq(c.vals(t.applyTransformation(o)), o0))
    B = c.mat("B")
    B0 = c.rows(B)
    c.ensure("bases (as columns) are mapped by the matrix", c.meq(c.rows(t.applyTransformation_bases(B)), c.mulmm(M0, B0)))
    c.ensure("the bases passed in are not modified", c.meq(c.rows(B), B0))
    c.ensure("the matrix is not modified", c.meq(c.rows(t.matrix), M0))


@R.proof("matrix and origin set later", [TR + "MatrixTransform.matrix", TR + "MatrixTransform.origin", TR + "MatrixTransform.applyTransformation"], con=60)
def later(c):
    t = c.cls(TR + "MatrixTransform")()
    M, o = c.mat("M"), c.vec("o")
    t.matrix = c.mat("L")
    t.matrix = M
    t.origin = o
    M0, o0 = c.rows(M), c.vals(o)
    check(c, t, lambda p: tf.affine(c, M0, o0, p))
    new = c.vec("newo")
    t.origin = new
    o2 = c.vals(new)
    y = c.vec("y")
    c.ensure("a new origin takes effect", c.veq(c.vals(t.applyTransformation(y)), tf.affine(c, M0, o2, c.vals(y))))


@R.proof("inversion", [TR + "Inversion.matrix", TR + "MatrixTransform.applyTransformation"], con=80)
def inversion(c):
    o = c.vec("o") if c.case(c.bool("with_origin")) else None
    t = c.cls(TR + "Inversion")(origin=o)
    if o is not None and c.choice("how", ["constructor", "replaced"]) == "replaced":
        t = c.cls(TR + "Inversion")(origin=c.vec("o1"))
        t.applyTransformation(c.vec("used"))
        t.origin = o
    o0 = [0, 0, 0] if o is None else c.vals(o)
    check(c, t, lambda p: c.vsub(c.vscale(2, o0), p))


@R.proof("rotation", [TR + "Rotation.__init__", TR + "Rotation.matrix", TR + "MatrixTransform.applyTransformation"], con=80)
def rotation(c):
    M = c.rotation("M")
    o = c.vec("o") if c.case(c.bool("with_origin")) else None
    if c.choice("how", ["constructor", "replaced"]) == "constructor":
        t = c.not_raises("every proper rotation is accepted", lambda: c.cls(TR + "Rotation")(M, origin=o))
    else:
        t = c.cls(TR + "Rotation")(c.rotation("L"), origin=None if o is None else c.vec("o1"))
        t.applyTransformation(c.vec("used"))
        t.matrix = M
        if o is not None:
            t.origin = o
    M0 = c.rows(M)
    o0 = None if o is None else c.vals(o)
    check(c, t, lambda p: tf.affine(c, M0, o0, p))


@R.proof("other matrices are refused", [TR + "Rotation.__init__", TR + "Rotation.matrix"], con=120)
def refused(c):
    M = c.mat("M")
    if not c.sym:
        # near and far from proper rotations
        r = K.sub_rng(c, "near")
        k = r.integers(0, 5)
        Q = tf.rand_orthogonal(r, 1)
        if k == 0:
            M = tf.rand_orthogonal(r, -1)
        elif k == 1:
            M = Q + r.normal(size=(3, 3)) * 10.0 ** r.uniform(-5.5, 0)
        elif k == 2:
            M = Q @ _np.diag([2.0, 0.5, 1.0]) @ tf.rand_orthogonal(r, 1)
        elif k == 3:
            M = -Q
    M0 = c.rows(M)
    how = c.choice("how", ["constructor", "setter"])
    try:
        if how == "constructor":
            t = c.cls(TR + "Rotation")(M)
        else:
            t = c.cls(TR + "Rotation")()
            t.matrix = M
    except AssertionError:
        c.ensure("a refusal is the declared one", True)
        return
    G = c.mulmm(M0, c.transpose(M0))
    for i in range(3):
        for j in range(3):
            c.ensure("an accepted matrix has orthonormal rows", c.le(c.abs(G[i][j] - (1 if i == j else 0)), 1e-6))
    c.ensure("an accepted matrix has determinant one", c.le(c.abs(c.det3(M0) - 1), 1e-6))
    c.ensure("the matrix is taken over", c.meq(c.rows(t.matrix), M0))


@R.proof("reflection", [TR + "Reflection.__init__", TR + "Reflection.plane", TR + "Reflection.matrix", TR + "MatrixTransform.applyTransformation",
                        A + "Plane.__init__"], con=80)
def reflection(c):
    nv, q = c.vec("nv"), c.vec("q")
    ln = c.norm(c.vals(nv))
    c.require(c.lt(1e-6, ln))
    P = c.cls(A + "Plane")(nv, q)
    n, q0 = c.vscale(1 / ln, c.vals(nv)), c.vals(q)
    how = c.choice("how", ["constructor", "setter", "replaced", "replaced after use"])
    if how == "constructor":
        t = c.cls(TR + "Reflection")(P)
    else:
        t = c.cls(TR + "Reflection")()
        if how != "setter":
            n1 = c.vec("n1")
            c.require(c.lt(1e-6, c.norm(c.vals(n1))))
            t.plane = c.cls(A + "Plane")(n1, c.vec("q1"))
            if how == "replaced after use":
                t.applyTransformation(c.vec("used"))
        t.plane = P
    check(c, t, lambda p: tf.mirror(c, n, q0, p))
    # consequences named by the property
    y = c.vec("y")
    y0 = c.vals(y)
    z = t.applyTransformation(y)
    off = c.vdot(c.vsub(y0, q0), n)
    c.ensure("the mirror point is on the other side", c.eq(c.vdot(c.vsub(c.vals(z), q0), n), -off))
    c.ensure("it undoes itself", c.veq(c.vals(t.applyTransformation(z)), y0))
    f = c.np.array(c.vsub(y0, c.vscale(off, n)))
    c.ensure("points of the plane stay fixed", c.veq(c.vals(t.applyTransformation(f)), c.vals(f)))
    c.ensure("the plane is not modified", c.and_(c.veq(c.vals(P.normal), n), c.veq(c.vals(P.point), q0)))


@R.proof("sequence", [TR + "MultiTransform.__init__", TR + "MultiTransform.add_transform", TR + "MultiTransform.applyTransformation"], con=100)
def sequence(c):
    n = c.size("nt", hi=5)
    s = tf.transforms(c, "T", n)
    t = c.cls(TR + "MultiTransform")(s.list)
    check(c, t, lambda p: s.after(n, p))
    c.ensure("all members are kept", c.eq(c.length(t.transforms), n))


@R.proof("sequence on bases", [TR + "MultiTransform.applyTransformation_bases"], con=60)
def sequence_bases(c):
    n = c.size("nt", hi=5)
    s = tf.transforms(c, "T", n)
    c.carry_bases = True
    t = c.cls(TR + "MultiTransform")(s.list)
    B = c.mat("B")
    B0 = c.rows(B)
    c.ensure("bases are mapped by the members in order", c.meq(c.rows(t.applyTransformation_bases(B)), s.bafter(n, B0)))


@R.proof("members added one by one", [TR + "MultiTransform.__init__", TR + "MultiTransform.add_transform", TR + "MultiTransform.applyTransformation"], con=60)
def added(c):
    t = c.cls(TR + "MultiTransform")()
    s = tf.transforms(c, "T", 3)
    how = c.choice("how", ["single", "tuple", "mixed", "used in between"])
    a, b, d = [c.list_at(s.list, k) for k in range(3)]
    if how == "single":
        for x in (a, b, d):
            t.add_transform(x)
    elif how == "tuple":
        t.add_transform((a, b, d))
    elif how == "used in between":
        t.add_transform([a, b])
        t.applyTransformation(c.vec("used"))
        t.add_transform(d)
    else:
        t.add_transform(a)
        t.add_transform([b, d])
    check(c, t, lambda p: s.after(3, p))


@R.scenario("sequences of sequences", quick=60, thorough=600)
def nested(s):
    import czone.transform.transform as tm
    import czone.volume.algebraic as am
    rng = s.rng
    ts = [tf.rand_transform(tm, am, rng) for _ in range(int(rng.integers(0, 6)))]
    X = rng.normal(size=(int(rng.integers(0, 6)), 3)) * 3
    X0 = X.copy()

    def fold(X):
        Y = X.copy()
        for _, f, _ in ts:
            Y = _np.array([f(p) for p in Y]).reshape(-1, 3)
        return Y
    cut = sorted(rng.integers(0, len(ts) + 1, size=2))
    parts = [ts[:cut[0]], ts[cut[0]:cut[1]], ts[cut[1]:]]
    M = tm.MultiTransform([tm.MultiTransform([t[0] for t in p]) for p in parts])
    s.close("a sequence of sequences", M.applyTransformation(X), fold(X))
    s.check("points passed in are not modified", _np.array_equal(X, X0))
    # the same sequence used twice
    s.close("applied twice", M.applyTransformation(M.applyTransformation(X)), fold(fold(X)), tol=1e-6)
    for t, f, _ in ts:
        s.close("members unaffected", t.applyTransformation(X), _np.array([f(p) for p in X]).reshape(-1, 3))
    i = rng.integers(-3, 4, size=(2, 3))
    s.close("integer coordinates", M.applyTransformation(i), fold(i.astype(float)))
