"""C13 Bounding regions enclose the volume."""
import itertools

import numpy as np

from vc.spec import Registry
from vc import dsl
from specs import common as K

R = Registry()
MODULES = ("czone.volume.volume", "czone.volume.algebraic")
V = "czone.volume.volume."
A = "czone.volume.algebraic."

TRUSTED = ["scipy.optimize.linprog: a solved program's point is feasible and no feasible point improves on it; infeasible and unbounded are reported exactly so (round-off is covered by the concrete runs)",
           "scipy.spatial.HalfspaceIntersection: refuses a point that is not strictly inside; the convex hull of its intersections is the bounded region of the half spaces"]
ASSUMPTIONS = ["translating points translates their convex hull (geometry)", "an unbounded convex region is unbounded along an axis, in one of its directions (geometry)"]


# ------------------------------------------------------------------------------------------------ boxes
def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), a[0] * 0)


def box(c, rows):
    """center and half edges of the parallelepiped whose corners are the eight rows, in any order; None if they are not"""
    T, P = c.T, c.core.poly
    if not isinstance(rows.shape[0], int) or rows.shape[0] != 8:
        return None
    X = [[P(x) for x in r] for r in c.rows(rows)]

    def zero(v):
        return all(x is T.ZERO or T.clear_denominators(x) is T.ZERO for x in v)
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    for tri in itertools.combinations(range(1, 8), 3):
        e = [sub(X[i], X[0]) for i in tri]
        rest = [i for i in range(1, 8) if i not in tri]
        want = [[e[a][k] + e[b][k] for k in range(3)] for a, b in ((0, 1), (0, 2), (1, 2))] + [[e[0][k] + e[1][k] + e[2][k] for k in range(3)]]
        for q in want:
            hit = [i for i in rest if zero(sub(sub(X[i], X[0]), q))]
            if not hit:
                break
            rest.remove(hit[0])
        else:
            half = [[x.scale(T.Fraction(1, 2)) if hasattr(T, "Fraction") else x * T.const(0.5) for x in v] for v in e]
            C = [X[0][k] + half[0][k] + half[1][k] + half[2][k] for k in range(3)]
            N = c.core.SNum
            return [N(x) for x in C], [[N(x) for x in v] for v in half]
    return None


@R.proof("the hull of a box", [V + "makeRectPrism"], con=0)
def weights(c):
    """lemma: a point at coordinates between -1 and 1 along the half edges of a box is a convex combination of its corners"""
    c.mod("czone.volume.volume").makeRectPrism(1, 1, 1)
    t = [c.real("t%d" % i) for i in range(3)]
    for x in t:
        c.require(c.and_(c.le(-1, x), c.le(x, 1)))
    C = [c.real("c%d" % i) for i in range(3)]
    e = [[c.real("e%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    total, point = 0, [0, 0, 0]
    for s in itertools.product((1, -1), repeat=3):
        f = [1 + a * x for a, x in zip(s, t)]
        c.ensure("the factors of a weight are not negative", c.and_(*[c.le(0, x) for x in f]))
        w = f[0] * f[1] * f[2] / 8
        total = total + w
        point = [p + w * (C[k] + sum(s[i] * e[i][k] for i in range(3))) for k, p in enumerate(point)]
    c.ensure("the weights add up to one", c.eq(total, 1))
    c.ensure("the corners add up to the point", c.veq(point, [C[k] + sum(t[i] * e[i][k] for i in range(3)) for k in range(3)]))


@R.proof("rectangular prisms", [V + "makeRectPrism"], con=60)
def prisms(c):
    abc = [c.real(k, pos=True) for k in "abc"]
    mid = c.choice("mid", [False, True])
    f = c.mod("czone.volume.volume").makeRectPrism
    if mid:
        m = c.vec("m")
        m0 = c.vals(c.snapshot(m))
        r = f(*abc, center=m) if c.choice("named", [False, True]) else f(*abc, m)
        lo = [m0[k] - abc[k] / 2 for k in range(3)]
        c.ensure("the center given is unchanged", c.veq(c.vals(m), m0))
    else:
        r = f(*abc)
        lo = [0, 0, 0]
    c.cover("a prism was made")
    c.ensure("eight corners", c.shape_is(r, 8, 3))
    rows = c.rows(r)
    for s in itertools.product((0, 1), repeat=3):
        p = [lo[k] + s[k] * abc[k] for k in range(3)]
        c.ensure("each corner is there", c.or_(*[c.veq(q, p) for q in rows]))


@R.proof("orthonormal frames", [A + "Cylinder.__init__"], con=0)
def frames(c):
    """lemma: the components of a vector along three orthonormal vectors give the vector back, and the first two give its distance from the third"""
    c.cls(A + "Cylinder")(axis=c.np.array([0.0, 0.0, 1.0]), point=c.vec("p"), radius=1, length=1)
    T, P = c.T, c.core.poly
    a, b, z, d = [[c.real(n + str(i)) for i in range(3)] for n in "abzd"]
    for u, v, k in ((a, a, 1), (b, b, 1), (z, z, 1), (a, b, 0), (a, z, 0), (b, z, 0)):
        c.require(c.eq(c.vdot(u, v), k))
    n = c.vcross(a, b)
    aa, bb, ab, zz = (c.vdot(u, v) - k for u, v, k in ((a, a, 1), (b, b, 1), (a, b, 0), (z, z, 1)))
    az, bz = c.vdot(a, z), c.vdot(b, z)
    nz = c.vdot(n, z)
    x = c.vcross(n, z)
    for k in range(3):
        c.lincomb("the third is along the product of the others", x[k], [(b[k], az), (0 - a[k], bz)])
    for k in range(3):
        c.lincomb("so it is that product up to its sign", n[k] - nz * z[k], [(0 - n[k], zz)] + [(u, v) for u, v in zip([z[(k + 1) % 3], 0 - z[(k + 2) % 3]], [x[(k + 2) % 3], x[(k + 1) % 3]])])
    # n = nz z, |n| = 1
    c.lincomb("the product has length one", c.norm2(n) - 1, [(c.norm2(b), aa), (1, bb), (0 - ab, ab)])
    c.lincomb("the sign", nz * nz - 1, [(1, c.norm2(n) - 1), (c.norm2(n), zz)] + [(0 - x[k], x[k]) for k in range(3)])
    for k in range(3):
        # |n|^2 d = (d.a |b|^2 - d.b a.b) a + (d.b |a|^2 - d.a a.b) b + (d.n) n
        da, db, dz, dn = c.vdot(d, a), c.vdot(d, b), c.vdot(d, z), c.vdot(d, n)
        parts = [(0 - d[k], c.norm2(n) - 1), (da * a[k], bb), (0 - db * a[k], ab), (db * b[k], aa), (0 - da * b[k], ab)]
        parts += [(n[k] * d[j], n[j] - nz * z[j]) for j in range(3)]
        parts += [(dz * nz, n[k] - nz * z[k]), (dz * z[k], nz * nz - 1)]
        c.lincomb("components", d[k] - da * a[k] - db * b[k] - dz * z[k], parts)
    r = [d[k] - da * a[k] - db * b[k] - dz * z[k] for k in range(3)]
    # |d x z|^2 = |d|^2 |z|^2 - (d.z)^2
    c.lincomb("the distance from the third", c.norm2(c.vcross(d, z)) - da * da - db * db, [(c.norm2(d), zz)] + [(d[k], r[k]) for k in range(3)])


@R.proof("the box of a cylinder", [A + "Cylinder.get_bounding_box"], con=60)
def cylinder(c):
    r, L = c.real("r", pos=True), c.real("L", pos=True)
    pt = c.vec("p")
    p0 = c.vals(c.snapshot(pt))
    cls = c.cls(A + "Cylinder")
    if c.sym:
        # invariant of the class (C09): the axis has length one
        z = [c.real("z%d" % i) for i in range(3)]
        c.require(c.eq(c.norm2(z), 1))
        ax = c.arr.SArr.from_terms((3,), "f", [c.core.poly(x) for x in z])
        cyl = K.make(K.sub(c, cls, "UnitCylinder", {"axis": property(lambda self: ax), "radius": property(lambda self: r), "length": property(lambda self: L),
                                                    "point": property(lambda self: pt)}), tol=1e-5)
    else:
        c.require(c.and_(c.lt(1e-3, r), c.lt(1e-3, L)))
        ax = c.vec("ax")
        if c.rng.random() < 0.4:
            ax = np.array([[1, 1, 1], [1, 0, 0], [0, 0, -1], [1, -1, 0], [1, 1, 1.001], [-1, -1, -1]])[c.rng.integers(6)] * 1.0
        c.require(c.lt(0.1, c.norm(c.vals(ax))))
        cyl = cls(axis=ax, point=pt, radius=float(r), length=float(L))
        z = cyl.axis.tolist()
    B = cyl.get_bounding_box()
    c.cover("a box was made")
    if c.sym:
        f = box(c, B)
        if f is None:
            raise c.T.Unsupported("the box of a cylinder is not a box")
        C, e = f
        c.ensure("the box is centered in the cylinder", c.veq(C, p0))
        # which half edge is the axis's
        T, P = c.T, c.core.poly
        along = [i for i in range(3) if all(T.clear_denominators(P(x)) is T.ZERO for x in c.vcross(e[i], z))]
        if len(along) != 1:
            raise T.Unsupported("a box that is not along the axis")
        w = e[along[0]]
        u, v = [e[i] for i in range(3) if i != along[0]]
        c.ensure("half of the length along the axis", c.eq(c.norm2(w) * 4, L * L * c.norm2(z)))
        c.ensure("the sides are at the radius", c.and_(c.eq(c.norm2(u), r * r), c.eq(c.norm2(v), r * r)))
        zz = c.norm2(z) - 1
        for n, q in (("first", u), ("second", v)):
            x = c.vdot(q, z)
            c.ensure("the %s side is across the axis" % n, c.eq(x, 0))
        c.ensure("the sides are at right angles", c.eq(c.vdot(u, v), 0))
    else:
        rng = c.rng
        for k in range(6):
            d = rng.normal(size=3)
            d -= np.dot(d, z) * np.array(z)
            d *= (r if k < 4 else r * rng.random()) / np.linalg.norm(d)
            q = np.array(p0) + d + np.array(z) * L * (rng.choice([-0.5, 0.5]) if k < 4 else rng.uniform(-0.5, 0.5))
            c.ensure("the cylinder is enclosed", in_points(q, B, 1e-7 * (1 + r + L)))
    c.ensure("the point given is unchanged", c.veq(c.vals(pt), p0))


def in_points(q, B, tol):
    """is q in the convex hull of B, up to tol?"""
    from scipy.optimize import linprog
    B = np.asarray(B, dtype=float)
    if not np.isfinite(B).all() or len(B) == 0:
        return False
    # the least largest violation of the combination
    n = len(B)
    A = np.vstack([np.c_[B.T, -np.ones(3)], np.c_[-B.T, -np.ones(3)]])
    r = linprog(np.r_[np.zeros(n), 1], A_ub=A, b_ub=np.r_[q, -q], A_eq=[[1.0] * n + [0.0]], b_eq=[1.0], bounds=[(0, None)] * (n + 1))
    return bool(r.status == 0 and r.x[-1] <= tol)


# ------------------------------------------------------------------------------------------------ volumes
def kinds(c):
    """surfaces of an arbitrary kind; only a sphere shows more of itself than whether it contains a point"""
    if hasattr(c, "_kinds13"):
        return c._kinds13
    T, P, N, B = c.T, c.core.poly, c.core.SNum, c.core.SBool
    mod = c.mod("czone.volume.volume")
    base = c.cls(A + "BaseAlgebraic")
    S = c.arr.SArr

    def box(self):
        c.boxed.append(self.k)
        k = P(self.k)
        r = S((T.const(8), T.const(3)), "f", lambda idx: T.app("cyl_corner", [k] + list(idx))).fresh_copy()
        assumed(c, r, c.inside(self.k, c.x))
        return r
    cls = sub_(c, base, "AnySurface", {
        "checkIfInterior": lambda self, pts: K.verdicts(c, lambda x: T.bapp("in_any", [P(self.k)] + list(x)), pts),
        "params": property(lambda self: (self.k,)),
        "radius": property(lambda self: N(T.app("any_r", [P(self.k)]))),
        "center": property(lambda self: S((3,), "f", lambda idx: T.app("any_c", [P(self.k)] + list(idx)))),
        "get_bounding_box": box})

    def kind(k):
        return N(T.app("any_kind", [P(k)], True), True)
    for code, name in ((0, "Sphere"), (1, "Plane"), (2, "Cylinder")):
        real = getattr(mod, name)

        class Kind(type):
            def __instancecheck__(self, o, code=code, real=real):
                if isinstance(o, cls):
                    return bool(c.eq(kind(o.k), code))
                return type.__instancecheck__(real, o)
        setattr(mod, name, Kind(name, (object,), {}))

    def inside(k, x):
        return B(T.bapp("in_any", [P(k)] + [P(v) for v in x]))

    def planes(lst):
        """contract of the corners of planes ('the corners of planes' below)"""
        n = c.length(lst)
        c.require(c.lt(0, n)) if not c.core.E.branch(T.lt0(-P(n))) else None
        status = c.int("status", lo=0)
        rows = c.size("rows", lo=0)
        r = S((P(rows), T.const(3)), "f", lambda idx: T.app("corner", list(idx))).fresh_copy()
        c.asked.append((lst, status))
        if c.case(c.eq(status, 0)):
            assumed(c, r, c.forall(n, lambda i: c.inside(c.list_at(lst, i).k, c.x)))
        else:
            c.require(c.eq(rows, 0))
        return r, status
    mod.get_bounding_box_planes = planes
    c.inside, c.kind, c.boxed, c.asked = inside, kind, [], []
    c._kinds13 = cls
    return cls


sub_ = K.sub


def assumed(c, r, cond):
    """the convex hull of the rows encloses the point asked about if the condition holds"""
    c.require(c.imp(cond, K.in_hull(c, r, c.x)))


@R.proof("the box of a volume", [V + "Volume.get_bounding_box"], con=150)
def volume(c):
    what = c.choice("bounded by", ["surfaces", "points", "both"])
    mod = c.mod("czone.volume.volume")
    if not c.sym:
        return volume_runs(c, mod, what)
    T, P = c.T, c.core.poly
    n = c.size("n", lo=0)
    cls = kinds(c)
    c.boxed, c.asked = [], []
    x = c.x = [c.real("x%d" % i) for i in range(3)]
    lst = K.seq(c, n, lambda k: K.make(cls, k=k))
    pts = c.points("pts", c.size("np", lo=4)) if what != "surfaces" else None
    vol = c.cls(V + "Volume")
    v = K.make(K.sub(c, vol, "AnyVolume", {"points": property(lambda self: pts), "alg_objects": property(lambda self: lst)}))
    # the point asked about is in the nominal region
    c.require(c.forall(n, lambda k: c.inside(k, x)))
    ctr = lambda k: [c.core.SNum(T.app("any_c", [P(k), T.const(j)])) for j in range(3)]
    rad = lambda k: c.core.SNum(T.app("any_r", [P(k)]))
    c.require(c.forall(n, lambda k: c.imp(c.eq(c.kind(k), 0), c.and_(c.lt(0, rad(k)), *[c.and_(c.le(x[j] - ctr(k)[j], rad(k)), c.le(ctr(k)[j] - x[j], rad(k))) for j in range(3)]))))
    if pts is not None:
        p0 = c.snapshot(pts)
        c.require(K.in_hull(c, p0, x))
    B = v.get_bounding_box()
    c.cover("a bounding region was computed")
    if B is None:
        c.ensure("only a region that is not bounded has none", what == "surfaces")
        c.ensure("no sphere or cylinder was overlooked", c.forall(n, lambda k: c.and_(c.ne(c.kind(k), 0), c.ne(c.kind(k), 2))))
        if c.asked:
            c.ensure("only planes that do not bound a region are passed over", c.ne(c.asked[-1][1], 0))
            # all planes were asked about
            l = c.asked[-1][0]
            k = c.index("plane", n)
            c.require(c.eq(c.kind(k), 1))
            r = T.var("_r13", True)
            R = dsl.invert(c, [(P(l.seq_at(r).k), P(k))], r)
            if R is None:
                raise T.Unsupported("where a plane is among those asked about")
            R = c.core.SNum(R, True)
            c.ensure("all planes were asked about", c.and_(c.le(0, R), c.lt(R, c.length(l)), c.eq(c.list_at(l, R).k, k)))
        return
    if c.asked:
        l = c.asked[-1][0]
        for i in c.each("asked", c.length(l)):
            k = c.list_at(l, i).k
            c.ensure("planes asked about are surfaces of the volume", c.and_(c.le(0, k), c.lt(k, n), c.eq(c.kind(k), 1)))
            c.fact("the point is inside them", c.inside(k, x))
    for k in c.boxed:
        c.ensure("the cylinder boxed is a surface of the volume", c.and_(c.le(0, k), c.lt(k, n), c.eq(c.kind(k), 2)))
        c.fact("the point is inside it", c.inside(k, x))
    f = box(c, B)
    if f is not None:
        # 'the hull of a box'
        C, e = f
        axes = []
        for v in e:
            on = [j for j in range(3) if P(v[j]) is not T.ZERO]
            if len(on) != 1:
                raise T.Unsupported("a box that is not along the axes")
            axes.append((on[0], v[on[0]]))
        if sorted(a for a, _ in axes) != [0, 1, 2]:
            raise T.Unsupported("a flat box")
        for j, h in axes:
            c.fact("the point is between the sides of the box", c.and_(c.le(x[j] - C[j], c.abs(h)), c.le(C[j] - x[j], c.abs(h))))
        c.require(K.in_hull(c, B, x))
    c.ensure("the convex hull of the bounding points contains the region", K.in_hull(c, B, x))


def volume_runs(c, mod, what):
    from czone.volume import algebraic as am
    rng = c.rng
    o = rng.normal(size=3) * rng.choice([0, 3, 40])
    pts = None
    surf = []
    if what != "surfaces":
        pts = o + rng.normal(size=(int(rng.integers(5, 12)), 3)) * 3
    if what != "points":
        for _ in range(int(rng.integers(0, 3))):
            surf.append(am.Sphere(float(rng.uniform(1.0, 5.0)), o + rng.normal(size=3)))
        for _ in range(int(rng.integers(0, 3))):
            ax = rng.normal(size=3) if rng.random() < 0.7 else np.eye(3)[rng.integers(3)]
            surf.append(am.Cylinder(ax, o + rng.normal(size=3), float(rng.uniform(1, 4)), float(rng.uniform(2, 8))))
        if rng.random() < 0.6:
            for s in (np.eye(3) if rng.random() < 0.5 else np.linalg.qr(rng.normal(size=(3, 3)))[0]):
                surf += [am.Plane(s, o + s * rng.uniform(0.5, 4)), am.Plane(-s, o - s * rng.uniform(0.5, 4))]
        for _ in range(int(rng.integers(0, 4))):
            s = rng.normal(size=3)
            surf.append(am.Plane(s, o + s * rng.uniform(0.1, 2)))
        surf = [surf[i] for i in rng.permutation(len(surf))]
        if not surf:
            surf = [am.Sphere(2.0, o)]
    v = mod.Volume(points=pts, alg_objects=surf)
    how = int(rng.integers(0, 4))
    if how == 1:
        from czone.transform import Translation
        d = rng.normal(size=3) * 20
        v.get_bounding_box()
        v.transform(Translation(d))
        o = o + d
    elif how == 2:
        v = v.from_volume()
    elif how == 3 and surf:
        v.get_bounding_box()
        s = am.Sphere(float(rng.uniform(0.5, 6)), o)
        v.add_alg_object(s)
    B = v.get_bounding_box()
    X = o + rng.normal(size=(400, 3)) * rng.choice([1, 3, 6])
    if pts is not None:
        w = rng.dirichlet(np.ones(len(v.points)) * 0.3, size=200)
        X = np.vstack([X, w @ v.points])
    inside = v.checkIfInterior(X)
    if B is None:
        objs = v.alg_objects
        c.ensure("only a region that is not bounded has none", pts is None and not any(isinstance(s, (am.Sphere, am.Cylinder)) for s in objs))
        if sum(isinstance(s, am.Plane) for s in objs) > 3:
            c.ensure("only planes that do not bound a region are passed over", not bounded_planes([s for s in objs if isinstance(s, am.Plane)]))
        return
    B = np.asarray(B)
    c.ensure("rows of three coordinates", B.ndim == 2 and B.shape[1] == 3 and np.isfinite(B).all())
    Y = X[inside]
    # the points furthest out first
    Y = Y[np.argsort(-np.linalg.norm(Y - Y.mean(axis=0), axis=1))][:12] if len(Y) else Y
    for y in Y:
        c.ensure("the convex hull of the bounding points contains the region", in_points(y, B, 1e-6 * (1 + np.abs(B - o).max())))


def corners_of(planes):
    """corners of the region of the planes, by trying every three of them"""
    N = np.array([p.normal / np.linalg.norm(p.normal) for p in planes])
    d = np.array([n @ p.point for n, p in zip(N, planes)])
    out = []
    for t in itertools.combinations(range(len(N)), 3):
        M = N[list(t)]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        q = np.linalg.solve(M, d[list(t)])
        if (N @ q <= d + 1e-7 * (1 + np.abs(d).max())).all():
            out.append(q)
    return np.array(out).reshape(-1, 3)


def bounded_planes(planes):
    """do the normals leave no direction free?"""
    from scipy.optimize import linprog
    N = np.array([p.normal / np.linalg.norm(p.normal) for p in planes])
    if np.linalg.matrix_rank(N) < 3:
        return False
    # bounded iff 0 is a strictly positive combination of the normals that span
    r = linprog(np.zeros(len(N)), A_eq=N.T, b_eq=np.zeros(3), bounds=[(1, None)] * len(N))
    if r.status == 0:
        return True
    for e in np.vstack([np.eye(3), -np.eye(3)]):
        r = linprog(-e, A_ub=N, b_ub=np.zeros(len(N)), bounds=[(-1, 1)] * 3)
        if r.status != 0 or -r.fun > 1e-9:
            return False
    return True


# ------------------------------------------------------------------------------------------------ regions of planes
class Program:
    """contract of linprog on a region {y: A y <= b, lower <= y <= upper}: status 0 with a feasible point that no feasible point
    improves on; 2 if there is no feasible point; 3 if the objective is unbounded below on it"""


class Halves:
    """contract of HalfspaceIntersection: refuses a point that is not strictly inside of every half space; otherwise the convex
    hull of the intersections of a bounded region is the region"""


def solver(c, mod, n):
    T, P, N = c.T, c.core.poly, c.core.SNum
    c.programs, c.halves = [], []
    nrm = lambda i: [N(T.app("pl_n", [P(i), T.const(j)])) for j in range(3)]
    pt = lambda i: [N(T.app("pl_p", [P(i), T.const(j)])) for j in range(3)]

    def side(i, q, strict=False):
        v = c.vdot(nrm(i), c.vsub(q, pt(i)))
        return c.lt(v, 0) if strict else c.le(v, 0)

    def row(A, i, k):
        return [c.item(A, i, j) for j in range(k)]

    def offset(A, b):
        """the translation by which a system of inequalities differs from the planes"""
        w = c.at("w")
        t = P(c.item(b, w))
        s = []
        for j in range(3):
            e = T.FunSubst({"pl_n": lambda a, j=j: T.ite(T.eq(a[1], T.const(j)), T.ONE, T.ZERO) if not a[1].is_const else T.const(int(a[1].const == j))})
            s.append(N(e(t)) - pt(w)[j])
        if any(P(w).single_atom() in T.free_vars(P(v)) for v in s):
            raise T.Unsupported("planes that are not all moved by the same translation")
        c.fact("inequalities are those of the planes, all moved alike", c.and_(c.veq(row(A, w, 3), nrm(w)), c.eq(c.item(b, w), c.vdot(nrm(w), c.vadd(pt(w), s)))))
        return s

    def linprog(obj, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), **kw):
        if A_eq is not None or b_eq is not None or kw:
            raise T.Unsupported("linear programs of another form")
        co = c.vals(obj)
        k = len(co)
        if k not in (3, 4):
            raise T.Unsupported("linear programs of another form")
        A = c.arr.to_arr(A_ub).fresh_copy()
        b = c.arr.to_arr(b_ub).fresh_copy().reshape(-1)
        c.fact("a program over all planes", c.and_(c.shape_is(A, n, k), c.shape_is(b, n)))
        bd = [bounds] * k if isinstance(bounds, tuple) and len(bounds) == 2 and not isinstance(bounds[0], tuple) else list(bounds)
        s = offset(A, b)
        r = Program()
        tag = "%d" % len(c.programs)
        r.co, r.A, r.b, r.k, r.s, r.tag = co, A, b, k, s, tag
        c.programs.append(r)
        w = c.at("row" + tag)
        if k == 4:
            c.fact("the radius counts by the length of the normal", c.eq(c.item(A, w, 3), c.norm(nrm(w))))

        def allowed(y):
            cs = []
            for v, (lo, hi) in zip(y, bd):
                cs += [c.le(lo, v)] if lo is not None else []
                cs += [c.le(v, hi)] if hi is not None else []
            return cs
        r.allowed = allowed
        points = c.known(r)
        for name, q in points:
            c.fact("%s is feasible" % name, c.and_(c.le(c.vdot(row(A, w, k), q), c.item(b, w)), *allowed(q)))
        status = c.int("status" + tag, lo=0, hi=3)
        c.require(c.ne(status, 1))
        r.status = status
        if c.case(c.eq(status, 0)):
            r.x = c.vec("opt" + tag, k)
            xs = c.vals(r.x)
            r.fun = c.vdot(co, xs)
            if k == 4:
                c.univ.append(lambda i: c.le(c.vdot(row(A, i, k), xs), c.item(b, i)))
            for q in allowed(xs):
                c.require(q)
            for name, q in points + c.further(r):
                c.require(c.le(r.fun, c.vdot(co, q)))
        elif c.case(c.eq(status, 2)):
            r.x = r.fun = None
            if points:
                # not with a feasible point
                raise c.core.PathEnd()
        else:
            r.x = r.fun = None
            # a feasible point whose objective is below any bound
            q = [c.real("far%s_%d" % (tag, j)) for j in range(k)]
            if c.far_away:
                c.univ.append(lambda i: c.le(c.vdot(row(A, i, k), q), c.item(b, i)))
                for f in allowed(q):
                    c.require(f)
                c.far_away(r, q)
        return r

    class Intersection:
        def __init__(self, halfspaces, interior_point, **kw):
            H = c.arr.to_arr(halfspaces).fresh_copy()
            p = c.vals(interior_point)
            c.fact("half spaces of all planes", c.and_(c.shape_is(H, n, 4), len(p) == 3))
            self.s = offset(H, -H[:, 3])
            i = c.at("side")
            if c.has_interior:
                # a point that is the centre of a ball within the planes is not on any of them
                c.fact("the point given is strictly inside", c.lt(c.vdot(row(H, i, 3), p) + c.item(H, i, 3), 0))
            elif c.case(c.bool("strict")):
                c.univ.append(lambda i: c.lt(c.vdot(row(H, i, 3), p) + c.item(H, i, 3), 0))
            else:
                raise mod.QhullError("interior point")
            self.H, self.p = H, p
            self.intersections = c.arr.to_arr(c.array("corners", (c.size("ncorners", lo=4), 3)))
            c.halves.append(self)
    mod.linprog, mod.HalfspaceIntersection = linprog, Intersection
    return nrm, pt, side, row


@R.proof("the corners of planes", [A + "get_bounding_box"], con=0)
def corners(c):
    if not c.sym:
        raise dsl.Skip()
    T, P, N = c.T, c.core.poly, c.core.SNum
    mod = c.mod("czone.volume.algebraic")
    n = c.size("n", lo=1)
    S = c.arr.SArr
    c.univ = []

    def at(name):
        """an arbitrary plane; what is known of all of them is known of it"""
        i = c.index(name, n)
        for f in c.univ:
            c.require(f(i))
        return i
    c.at = at
    fld = lambda name: property(lambda self: S((3,), "f", lambda idx: T.app("pl_" + name, [P(self.k)] + list(idx))).fresh_copy())
    pl = K.sub(c, c.cls(A + "Plane"), "AnyPlane", {"normal": fld("n"), "point": fld("p")})
    lst = K.seq(c, n, lambda k: K.make(pl, k=k))
    what = c.choice("planes", ["any", "bounded", "unbounded"])
    nrm, pt, side, row = solver(c, mod, n)
    c.has_interior = what != "any"
    unit = [[1 if i == j else 0 for i in range(3)] for j in range(3)]
    up = lambda v, s: c.vadd(v, s)
    z = [c.real("z%d" % i) for i in range(3)]
    rho, M = c.real("rho", pos=True), c.real("M", pos=True)
    c.known = lambda r: []
    c.further = lambda r: []
    c.far_away = None
    # normals are not zero (C09), nor longer in a direction than they are long
    c.univ.append(lambda i: c.lt(0, c.norm(nrm(i))))
    if what != "any":
        c.univ.append(lambda i: c.le(c.vdot(nrm(i), c.vsub(z, pt(i))) + rho * c.norm(nrm(i)), 0))
        c.known = lambda r: [("the center of a ball inside of all planes", up(z, r.s) + ([rho] if r.k == 4 else []))]
    direction = None
    if what == "bounded":
        def far_away(r, q):
            if r.k == 4:
                c.ensure("the radius is what is maximised", c.and_(c.eq(r.co[3], -1), *[c.eq(v, 0) for v in r.co[:3]]))
                w = c.at("far row" + r.tag)
                v = nrm(w)
                c.ensure("a component is no longer than the vector", c.and_(c.le(v[0], c.norm(v)), c.le(0 - v[0], c.norm(v))))
                c.require(c.and_(c.le(v[0], c.norm(v)), c.le(0 - v[0], c.norm(v))))
                ends = []
                for sgn in (1, -1):
                    e = [q[0] - r.s[0] + sgn * q[3], q[1] - r.s[1], q[2] - r.s[2]]
                    c.fact("the ends of a ball inside are inside", c.le(sgn * v[0] * q[3], c.norm(v) * q[3]))
                    c.fact("they are", side(w, e))
                    # so both lie within the bounds of the region, and the radius is bounded
            else:
                w = c.at("far row" + r.tag)
                c.fact("a far point is inside of the planes", side(w, c.vsub(q, r.s)))
            # the region is bounded, and so is every linear objective on it
            raise c.core.PathEnd()
        c.far_away = far_away
    elif what == "unbounded":
        j, sg = c.choice("axis", [0, 1, 2]), c.choice("towards", [1, -1])

        def further(r):
            if r.k != 3:
                return []
            # a point of the region as far as we like
            q = [c.real("beyond%s_%d" % (r.tag, i)) for i in range(3)]
            c.univ.append(lambda i: side(i, q))
            w = c.at("beyond row" + r.tag)
            c.fact("a point far out is feasible", c.and_(c.le(c.vdot(row(r.A, w, 3), up(q, r.s)), c.item(r.b, w)), *r.allowed(up(q, r.s))))
            if c.case(c.lt(r.co[j] * sg, 0)) and c.case(c.and_(*[c.eq(r.co[i], 0) for i in range(3) if i != j])):
                c.require(c.lt(r.co[j] * (q[j] + r.s[j]), r.fun))
            return [("a point far out", up(q, r.s))]
        c.further = further
    B, status = mod.get_bounding_box(lst)
    c.cover("the planes were examined")
    x = [c.real("x%d" % i) for i in range(3)]
    if what == "bounded":
        c.ensure("planes that enclose a bounded region are recognised", c.eq(status, 0))
    if what == "unbounded":
        c.ensure("planes that do not are recognised", c.eq(status, 3))
    if not c.case(c.eq(status, 0)):
        c.ensure("no corners without a region", c.shape_is(B, 0, 3))
        return
    if len(c.halves) != 1:
        c.ensure("corners are those of the half spaces", False)
        return
    h = c.halves[0]
    s = h.s
    w = c.at("a plane")
    p = c.vsub(h.p, s)
    c.ensure("regions reported have an interior", side(w, p, True))
    # the half spaces bound a region: along each axis there is a least and a greatest value (programs solved)
    q = [c.real("q%d" % i) for i in range(3)]
    c.univ.append(lambda i: c.le(c.vdot(row(h.H, i, 3), q) + c.item(h.H, i, 3), 0))
    for r in c.programs:
        if r.k == 3 and r.fun is not None:
            i = c.at("bound row" + r.tag)
            d = c.vsub(r.s, s)
            y = c.vadd(q, d)
            c.fact("points of the region are feasible", c.and_(c.le(c.vdot(row(r.A, i, 3), y), c.item(r.b, i)), *r.allowed(y)))
            c.require(c.le(r.fun, c.vdot(r.co, y)))
    for k in range(3):
        for sg in (1, -1):
            lims = [r.fun - c.vdot(r.co, c.vsub(r.s, s)) for r in c.programs if r.k == 3 and r.fun is not None]
            c.ensure("the region is bounded in every direction", c.or_(False, *[c.le(l, sg * q[k]) for l in lims]))
    # the corners are translated back
    m = h.intersections.sh[0]
    c.ensure("as many corners", c.shape_is(B, N(P(m), True), 3))
    for i in c.each("corner", N(P(m), True)):
        c.ensure("each corner is moved back", c.veq(c.row(B, i), c.vsub(c.row(h.intersections, i), s)))
    c.require(side(w, x))
    c.ensure("points of the region are in the half spaces, moved", c.le(c.vdot(row(h.H, w, 3), up(x, s)) + c.item(h.H, w, 3), 0))


@R.scenario("regions of planes", quick=80, thorough=1500)
def regions(c):
    from czone.volume import algebraic as am
    rng = c.rng
    o = rng.normal(size=3) * rng.choice([0, 5, 60]) - rng.choice([0, 100]) * (rng.random() < 0.5)
    kind = ["bounded", "empty", "unbounded"][int(rng.integers(0, 3))]
    k = int(rng.integers(4, 12))
    N = rng.normal(size=(k, 3))
    N /= np.linalg.norm(N, axis=1)[:, None]
    if kind == "bounded":
        Q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.random() < 0.6 else np.eye(3)
        N = np.vstack([N[:k - 4], Q, -Q])
    elif kind == "unbounded":
        u = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1]) if rng.random() < 0.5 else rng.normal(size=3)
        u = u / np.linalg.norm(u)
        N = np.array([n if n @ u <= -0.02 else n - (n @ u + 0.02) * u for n in N])
        if rng.random() < 0.5:
            # a prism
            N = np.array([n - (n @ u) * u for n in N])
        N /= np.linalg.norm(N, axis=1)[:, None]
    D = rng.uniform(0.3, 4.0, size=len(N))
    planes = []
    for n, d in zip(N, D):
        t = rng.normal(size=3) * 2
        planes.append(am.Plane(n, o + n * d + (t - (t @ n) * n)))
    if kind == "empty":
        i = int(rng.integers(0, len(planes)))
        n, q = planes[i].normal, planes[i].point
        planes.append(am.Plane(-n, q + n * rng.uniform(0.2, 3)))
    planes = [planes[i] for i in rng.permutation(len(planes))]
    before = [(np.copy(p.normal), np.copy(p.point)) for p in planes]
    c.note(kind=kind, planes=len(planes), origin=o.tolist())
    B, status = am.get_bounding_box(planes)
    for p, (n, q) in zip(planes, before):
        c.check("the planes are unchanged", np.array_equal(p.normal, n) and np.array_equal(p.point, q))
    if kind == "empty":
        c.check("no common interior is reported as infeasible", status in (2, 4), status)
    if kind == "unbounded":
        # (4: the solver could not tell for round-off)
        c.check("a region without bounds is reported", status in (3, 4), status)
    if kind != "bounded":
        c.check("no corners without a region", np.shape(B) == (0, 3), np.shape(B))
        return
    c.check("a bounded region is recognised", status == 0, status)
    want = corners_of(planes)
    tol = 1e-5 * (1 + np.abs(want - o).max())
    B = np.asarray(B)
    far = np.linalg.norm(B[:, None] - want[None], axis=2)
    c.check("every corner is there", far.min(axis=0).max() < tol, far.min(axis=0).max())
    c.check("only corners", far.min(axis=1).max() < tol, far.min(axis=1).max())
