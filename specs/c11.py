"""C11 Rotation builders return proper rotations that do what was asked."""
from vc.spec import Registry
from specs import common as K
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.transform.transform",)
TR = "czone.transform.transform."


def proper(c, M):
    c.ensure("the rows are orthonormal", c.meq(c.mulmm(M, c.transpose(M)), c.eye()))
    c.ensure("the determinant is one", c.eq(c.det3(M), 1))


@R.proof("one vector onto another", [TR + "rot_vtv"], con=300)
def vtv(c):
    a, b = c.unit("a"), c.unit("b")
    s, t = c.real("s", lo=1e-6, hi=1e6), c.real("t", lo=1e-6, hi=1e6)
    if not c.sym:
        rng = K.sub_rng(c, "pair")
        k = rng.integers(0, 8)
        if k < 3:
            a = tf.rand_orthogonal(rng)[0] if k else _np.eye(3)[rng.integers(0, 3)] * rng.choice([-1, 1])
            b = a if rng.random() < 0.3 else -a
            if k == 2:
                b = b + rng.normal(size=3) * 10.0 ** rng.uniform(-9, -2)
                b = b / _np.linalg.norm(b)
    v, w = a * s, b * t
    if not c.sym:
        v, w = shaped(c, rng, v), shaped(c, rng, w)
    v0 = c.snapshot(v)
    w0 = c.snapshot(w)
    M = c.call(TR + "rot_vtv")(v, w)
    c.cover("returned")
    c.ensure("a 3x3 matrix", c.shape_is(M, 3, 3))
    M = c.rows(M)
    proper(c, M)
    c.ensure("the direction of the first vector goes onto that of the second", c.veq(c.mulmv(M, c.vals(a)), c.vals(b)))
    c.same("the first vector is not modified", v, v0)
    c.same("the second vector is not modified", w, w0)


def shaped(c, rng, v):
    k = rng.integers(0, 5)
    return v if k < 2 else v.tolist() if k == 2 else v.reshape(3, 1) if k == 3 else v.reshape(1, 3)


@R.proof("turn about an axis", [TR + "rot_v"], con=200)
def axis(c):
    u = c.unit("u")
    s = c.real("s", lo=1e-6, hi=1e6)
    th = c.real("th")
    sn, cs = c.sincos(th)
    if c.sym:
        # the series of sine and cosine: sin t = t sinc(t^2), cos t = 1 - t^2 cosc(t^2)
        from vc import scirot
        t = c.core.poly(th)
        a, b = scirot.sinc_cosc(t * t)
        c.require(c.core.SBool(c.T.and_(c.T.eq(c.core.poly(sn), t * a), c.T.eq(c.core.poly(cs), c.T.ONE - t * t * b))))
        v = u * s
    else:
        v = shaped(c, K.sub_rng(c, "shape"), u * s)
    M = c.call(TR + "rot_v")(v, th)
    c.cover("returned")
    M = c.rows(M)
    proper(c, M)
    n = c.vals(u)
    c.ensure("the axis stays fixed", c.veq(c.mulmv(M, n), n))
    # any vector perpendicular to the axis: the cross product with some y
    y = c.vals(c.vec("y"))
    w = c.vcross(n, y)
    c.ensure("perpendicular vectors turn by the angle in the right-handed sense",
             c.veq(c.mulmv(M, w), c.vadd(c.vscale(cs, w), c.vscale(sn, c.vcross(n, w)))))


def Rz(c, t):
    s, k = c.sincos(t)
    return [[k, -s, 0], [s, k, 0], [0, 0, 1]]


def Rx(c, t):
    s, k = c.sincos(t)
    return [[1, 0, 0], [0, k, -s], [0, s, k]]


@R.proof("Euler angles", [TR + "rot_zxz"], con=150)
def euler(c):
    al, be, ga = c.real("alpha"), c.real("beta"), c.real("gamma")
    how = c.choice("convention", ["default", "intrinsic", "extrinsic"])
    f = c.call(TR + "rot_zxz")
    M = f(al, be, ga) if how == "default" else f(al, be, ga, convention=how)
    M = c.rows(M)
    c.cover("returned")
    proper(c, M)
    # intrinsic: alpha about Z, then beta about the moved X, then gamma about the moved Z: the product in that order;
    # extrinsic: gamma about z, then beta about x, then alpha about z, each about the fixed axes: the last turn leftmost
    c.ensure("the documented composition of turns", c.meq(M, c.mulmm(Rz(c, al), c.mulmm(Rx(c, be), Rz(c, ga)))))


@R.proof("unknown conventions are refused", [TR + "rot_zxz"], con=10)
def unknown(c):
    c.raises("an unknown convention is refused", ValueError, lambda: c.call(TR + "rot_zxz")(c.real("alpha"), 0.1, 0.2, convention="other"))


@R.proof("alignment of sets", [TR + "rot_align"], con=150)
def align(c):
    Q = c.rotation("Q")
    n = c.size("n", lo=3, hi=6)
    V = c.points("V", n)
    # full rank: some three of the vectors are independent
    i, j, k = [c.index(x, n) for x in ("i", "j", "k")]
    Q0 = c.rows(Q)
    if c.sym:
        from vc import scirot
        scirot.ALIGN.append([[c.core.poly(x) for x in r] for r in Q0])
    a, b, d = c.row(V, i), c.row(V, j), c.row(V, k)
    D = c.det3([a, b, d])
    c.require(c.lt(1e-3, c.abs(D)))
    W = V @ Q.T
    V0 = c.snapshot(V)
    M = c.rows(c.call(TR + "rot_align")(V, W))
    c.cover("returned")
    proper(c, M)
    for r in range(3):
        for col in range(3):
            # Cramer's rule: det(a,b,d) x = (x.a) b*d + (x.b) d*a + (x.d) a*b
            x = c.vsub(M[r], Q0[r])
            bd, da, ab = c.vcross(b, d), c.vcross(d, a), c.vcross(a, b)
            if c.sym:
                c.lincomb("Cramer", D * x[col], [(bd[col], c.vdot(x, a)), (da[col], c.vdot(x, b)), (ab[col], c.vdot(x, d))])
                c.cancel("independent vectors determine the rotation", D, x[col])
            c.ensure("the rotation relating the sets is reproduced", c.eq(x[col] if c.sym else M[r][col], 0 if c.sym else Q0[r][col]))
    c.same("the vectors are not modified", V, V0)


@R.scenario("vectors of every kind", quick=400, thorough=4000)
def kinds(s):
    import czone.transform.transform as tm
    rng = s.rng

    def proper(M, tol=1e-7):
        s.close("orthonormal", M @ M.T, _np.eye(3), tol)
        s.close("determinant", _np.linalg.det(M), 1, tol)
    # integer directions, repeated components, tiny components
    k = rng.integers(0, 4)
    if k == 0:
        v, w = rng.integers(-2, 3, size=3), rng.integers(-2, 3, size=3)
    elif k == 1:
        v = rng.normal(size=3)
        w = -v * rng.uniform(0.1, 10) + rng.normal(size=3) * 10.0 ** rng.uniform(-12, -1)
    elif k == 2:
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-8, 0, size=3)
        w = rng.normal(size=3) * 10.0 ** rng.uniform(-8, 0, size=3)
    else:
        v = _np.eye(3)[rng.integers(0, 3)] * rng.choice([-1.0, 1.0]) + rng.normal(size=3) * 1e-10
        w = _np.eye(3)[rng.integers(0, 3)] * rng.choice([-1.0, 1.0])
    if not _np.any(v) or not _np.any(w):
        s.skip()
    M = tm.rot_vtv(v, w)
    proper(M)
    s.close("direction", M @ v / _np.linalg.norm(v), w / _np.linalg.norm(w), 1e-7)
    th = float(rng.choice([0.0, _np.pi, -_np.pi / 2, 2 * _np.pi, rng.normal() * 4, rng.normal() * 1e-9]))
    M = tm.rot_v(v, th)
    proper(M)
    u = v / _np.linalg.norm(v)
    A = _np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    s.close("Rodrigues", M, _np.eye(3) + _np.sin(th) * A + (1 - _np.cos(th)) * A @ A, 1e-7)
    n = int(rng.integers(3, 7))
    V = rng.normal(size=(n, 3))
    if rng.random() < 0.3:
        V = rng.integers(-2, 3, size=(n, 3)).astype(float)
    if _np.linalg.svd(V)[1][-1] < 0.05:
        s.skip()
    Q = tf.rand_orthogonal(rng)
    s.close("set alignment", tm.rot_align(V, V @ Q.T), Q, 1e-6)
