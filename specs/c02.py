"""C02 Plane distances, projections and flips agree with geometry."""
from vc.spec import Registry

R = Registry()
MODULES = ("czone.volume.algebraic",)
A = "czone.volume.algebraic."


def plane(c, tol=1e-5):
    nv, pt = c.vec("nv"), c.vec("pt")
    ln = c.norm(c.vals(nv))
    c.require(c.lt(1e-6, ln))
    how = c.choice("how", ["constructor", "point, then normal", "normal, then point"])
    if how == "constructor":
        P = c.cls(A + "Plane")(nv, pt, tol=tol)
    else:
        # parameters replaced after the plane was used
        P = c.cls(A + "Plane")(c.np.array([0.0, 0.0, 1.0]), c.vec("pt1"), tol=tol)
        u = c.points("Y", c.size("ny"))
        P.sdist_from_plane(u), P.dist_from_plane(u), P.project_point(u)
        if how == "point, then normal":
            P.point, P.normal = pt, nv
        else:
            P.normal, P.point = nv, pt
    return P, c.vscale(1 / ln, c.vals(nv)), c.vals(pt)


def unchanged(c, P, n, p0, sign=1):
    c.ensure("the plane keeps its normal and point", c.and_(c.veq(c.vals(P.normal), c.vscale(sign, n)), c.veq(c.vals(P.point), p0)))


@R.proof("distances of a batch", [A + "Plane.sdist_from_plane", A + "Plane.dist_from_plane"], con=80)
def batch(c):
    P, n, p0 = plane(c)
    N = c.size("n", big=True)
    X = c.points("X", N)
    X0 = c.snapshot(X)
    s = P.sdist_from_plane(X)
    d = P.dist_from_plane(X)
    c.cover("batch")
    c.ensure("one distance per point", c.and_(c.shape_is(s, N), c.shape_is(d, N)))
    for i in c.each("i", N):
        x = c.row(X0, i)
        want = c.vdot(c.vsub(x, p0), n)
        c.ensure("signed distance", c.eq(c.item(s, i), want))
        c.ensure("unsigned distance is the magnitude", c.eq(c.item(d, i), c.abs(want)))
        # the magnitude is the Euclidean distance: no point y of the plane is nearer, and one attains it
        y = c.vals(c.vec("y"))
        off = c.vdot(c.vsub(y, p0), n)
        y = c.vsub(y, c.vscale(off, n))
        c.ensure("no point of the plane is nearer", c.le(c.item(d, i) * c.item(d, i), c.norm2(c.vsub(x, y))))
    c.same("points are not modified", X, X0)
    unchanged(c, P, n, p0)


@R.proof("distance of a single point", [A + "Plane.sdist_from_plane", A + "Plane.dist_from_plane"], con=80)
def single(c):
    P, n, p0 = plane(c)
    X = c.vec("x")
    x = c.vals(X)
    s = c.vals(P.sdist_from_plane(X))[0]
    d = c.vals(P.dist_from_plane(X))[0]
    want = c.vdot(c.vsub(x, p0), n)
    c.ensure("signed distance", c.eq(s, want))
    c.ensure("unsigned distance", c.eq(d, c.abs(want)))
    # sides: moving outwards by a positive amount from a point of the plane gives a positive distance
    t = c.real("t")
    q = P.point + P.normal * t
    c.ensure("positive outside, negative inside", c.eq(c.vals(P.sdist_from_plane(q))[0], t))
    unchanged(c, P, n, p0)


@R.proof("projection of a batch", [A + "Plane.project_point"], con=80)
def project_batch(c):
    P, n, p0 = plane(c)
    N = c.size("n", big=True)
    X = c.points("X", N)
    X0 = c.snapshot(X)
    Y = P.project_point(X)
    c.ensure("one projection per point", c.shape_is(Y, N, 3))
    for i in c.each("i", N):
        x, y = c.row(X0, i), c.row(Y, i)
        c.ensure("the projection lies on the plane", c.eq(c.vdot(c.vsub(y, p0), n), 0))
        c.ensure("the displacement is the signed distance along the normal",
                 c.veq(c.vsub(x, y), c.vscale(c.vdot(c.vsub(x, p0), n), n)))
    c.same("points are not modified", X, X0)
    unchanged(c, P, n, p0)


@R.proof("projection of a single point", [A + "Plane.project_point"], con=80)
def project_single(c):
    P, n, p0 = plane(c)
    X = c.vec("x")
    x = c.vals(X)
    Y = P.project_point(X)
    c.ensure("a single point gives a single point", c.shape_is(Y, 3))
    y = c.vals(Y)
    c.ensure("the projection lies on the plane", c.eq(c.vdot(c.vsub(y, p0), n), 0))
    c.ensure("the displacement is the signed distance along the normal", c.veq(c.vsub(x, y), c.vscale(c.vdot(c.vsub(x, p0), n), n)))
    c.ensure("the point is not modified", c.veq(c.vals(X), x))
    unchanged(c, P, n, p0)


@R.proof("flip", [A + "Plane.flip_orientation"], con=60)
def flip(c):
    P, n, p0 = plane(c, tol=1e-3)
    X = c.vec("x")
    s0 = c.vals(P.sdist_from_plane(X))[0]
    Q = P.flip_orientation()
    c.ensure("the plane itself is returned", Q is P)
    unchanged(c, P, n, p0, -1)
    c.ensure("signed distances are negated", c.eq(c.vals(P.sdist_from_plane(X))[0], -s0))
    c.ensure("the same set of points", c.iff(c.eq(c.vals(P.dist_from_plane(X))[0], 0), c.eq(s0, 0)))
    c.ensure("the tolerance is kept", c.eq(P.tol, 1e-3))
    P.flip_orientation()
    unchanged(c, P, n, p0, 1)
