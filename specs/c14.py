"""C14 Planes snapped to a crystal are crystallographic planes of the asked family."""
import numpy as np

from vc.spec import Registry
from specs import common as K
from specs import gen

R = Registry()
MODULES = ("czone.volume.algebraic", "czone.util.misc", "czone.transform.strain", "czone.generator.generator")
V = "czone.volume.algebraic."


class Host:
    """what is read from a crystal"""


def affine(c, lat):
    """a homogeneous strain known by its contract only (C16): an affine map x -> o + L (x - o) with an invertible matrix L, o the
    origin of the generator read last"""
    HS = c.cls("czone.transform.strain.HStrain")
    old = lat

    class Field(HS):
        def __init__(self):
            self.L = c.rows(c.mat("L"))
            self.read = []
            if c.sym:
                # the images of the lattice vectors, by name
                self.lat = [c.vals(c.vec("s%d" % j)) for j in range(3)]
                for s, v in zip(self.lat, old):
                    c.require(c.veq(s, c.mulmv(self.L, v)))
            else:
                self.lat = [c.mulmv(self.L, v) for v in old]
            c.require(c.lt(0.01, c.abs(c.det3(self.lat))))

        def scrape_params(self, obj):
            self.read.append(obj)

        def apply_strain(self, points):
            X = c.np.array(points)
            if not self.read:
                raise ValueError("the origin of the strain was not read")
            o = c.vals(self.read[-1].origin)
            if c.sym and len(X.sh) == 2 and X.concrete:
                return c.np.array([c.vadd(o, self.image(c.vsub(r, o))) for r in c.rows(X)])
            o = c.np.array(o)
            return o + c.np.dot(X - o, c.np.array(self.L).T)

        def image(self, d):
            d = [c.core.poly(x) for x in d]
            for v, s in zip(old, self.lat):
                if all(c.core.poly(a) is b for a, b in zip(v, d)):
                    return s
            return c.mulmv(self.L, [c.core.SNum(x) for x in d])
    return Field()


def inverses(c):
    """matrix inversion by its contract: of a matrix that is not singular, a matrix whose products with it are the identity"""
    from vc import npx
    T, P = c.T, c.core.poly
    known = {}

    def inverse(M):
        M = [[P(x) for x in r] for r in M]
        key = tuple(x.id for r in M for x in r)
        if key not in known:
            from vc.npx import det_terms
            c.E.need_nonzero(det_terms(M))
            n = len(M)
            G = [[T.fresh("inv", False) for _ in r] for r in M]
            for A, B in ((M, G), (G, M)):
                for i in range(n):
                    for j in range(n):
                        c.E.assume(T.eq(sum((A[i][k] * B[k][j] for k in range(n)), T.ZERO), T.ONE if i == j else T.ZERO))
            known[key] = G
            known[tuple(M[j][i].id for i in range(n) for j in range(n))] = [list(r) for r in zip(*G)]
        return known[key]
    npx.OPAQUE[:] = [inverse]
    return lambda M: [[c.core.SNum(x) for x in r] for r in inverse(M)]


@R.proof("snapped planes", [V + "snap_plane_near_point", "czone.util.misc.round_away", V + "Plane.__init__"], con=400, time=200)
def snapped(c):
    M = gen.cell(c, "cell")
    o = c.vec("o")
    h = Host()
    h.voxel = Host()
    h.voxel.sbases = M.T
    h.voxel.origin = o
    h.origin = o
    strained = c.case(c.bool("strained"))
    h.strain_field = affine(c, c.rows(M)) if strained else None
    ov = c.vals(o)
    lat = c.rows(M)             # lattice vectors
    if strained:
        lat = h.strain_field.lat
    hkl = [c.int(x, lo=None if c.sym else -4, hi=None if c.sym else 4) for x in "hkl"]
    c.require(c.or_(*[c.ne(x, 0) for x in hkl]))
    P = c.vec("P")
    if c.sym:
        form, at, mode = c.choice("how", [("tuple", "array", "default"), ("array", "list", "nearest"), ("tuple", "row", "floor"), ("array", "array", "ceil")])
    else:
        form, at = c.choice("form", ["tuple", "array"]), c.choice("at", ["array", "list", "row"])
        mode = c.choice("mode", ["nearest", "floor", "ceil", "default"])
    idx = tuple(hkl) if form == "tuple" else c.np.array(hkl)
    Pv = c.vals(P)
    P0 = c.snapshot(P)
    point = P if at == "array" else list(Pv) if at == "list" else c.np.array([Pv])
    # the reciprocal lattice direction: its product with every lattice vector is the index
    if c.sym:
        G = inverses(c)(c.transpose(lat))
    else:
        G = np.linalg.inv(np.array(lat, dtype=float).T)
    N = [sum(hkl[i] * G[i][a] for i in range(3)) for a in range(3)]
    for j in range(3):
        parts = [(hkl[i], c.vdot(G[i], lat[j]) - (1 if i == j else 0)) for i in range(3)]
        c.lincomb("products of the reciprocal direction with the lattice vectors are the indices", c.vdot(N, lat[j]) - hkl[j], parts)
    c.require(c.lt(1e-20, c.norm2(N)))
    pl = c.call(V + "snap_plane_near_point")(point, h, idx, *([] if mode == "default" else [mode]))
    c.cover("a plane was found")
    n, p = c.vals(pl.normal), c.vals(pl.point)
    c.ensure("the normal is a unit vector", c.eq(c.norm2(n), 1))
    c.ensure("the normal has the reciprocal direction", c.and_(c.veq(c.vcross(n, N), [0, 0, 0]), c.lt(0, c.vdot(n, N))))
    k = c.vdot(N, c.vsub(p, ov))
    x = c.vdot(N, c.vsub(Pv, ov))
    if c.sym:
        # the whole numbers the code may have chosen
        near = c.np
        for r in ([near.round(x), near.floor(x + 0.5), near.ceil(x - 0.5)] if mode in ("nearest", "default") else [near.fix(x)] if mode == "floor" else [c.mod("czone.util.misc").round_away(x)]):
            r = c.core.SNum(c.core.poly(r), True)
            if c.T.clear_denominators(c.core.poly(k - r)) is c.T.ZERO:
                c.fact("the indexed sum of the points on the plane", c.eq(k, r))
                break
        c.ensure("the indexed sum of the points on the plane is an integer", c.eq(k, c.floor(k)))
    else:
        c.ensure("the indexed sum of the points on the plane is an integer", c.eq(k, round(float(k))))
    if mode in ("nearest", "default"):
        c.ensure("no other plane of the family is closer", c.and_(c.le(k - x, 0.5), c.le(x - k, 0.5)))
    else:
        # on the side of the origin: between the origin and the point
        s = c.abs(k) if mode == "floor" else c.abs(x)
        b = c.abs(x) if mode == "floor" else c.abs(k)
        tol = 0 if c.sym else 1e-9
        c.ensure("on the same side of the origin", c.le(-tol, k * x))
        c.ensure("towards the origin" if mode == "floor" else "away from the origin", c.le(s - tol, b))
        c.ensure("no plane lies between", c.lt(b, s + 1) if c.sym else b < s + 1 + tol)
    c.ensure("the cell, the origin and the point are unchanged", c.and_(c.meq(c.rows(h.voxel.sbases), c.transpose(c.rows(M))), c.veq(c.vals(h.origin), ov), c.same_array(P, P0)))
    c.ensure("the indices are unchanged", c.veq(c.vals(c.np.array(idx)), hkl))


@R.scenario("real crystals", quick=150, thorough=2000)
def real(s):
    from czone.generator import Generator
    from czone.transform import HStrain, Rotation, Translation, MultiTransform
    from czone.transform.transform import rot_v
    from czone.volume.algebraic import snap_plane_near_point
    from pymatgen.core import Structure, Lattice
    rng = s.rng
    a, b, d = rng.uniform(2.5, 6, size=3)
    ang = rng.uniform(70, 110, size=3)
    st = Structure(Lattice.from_parameters(a, b, d, *ang), ["Au"], [[0, 0, 0]])
    origin = rng.normal(size=3) * 5 if rng.random() < 0.7 else np.zeros(3)
    g = Generator(structure=st, origin=origin.copy())
    if rng.random() < 0.6:
        g.transform(Rotation(matrix=rot_v(rng.normal(size=3), rng.uniform(0, 6)), origin=rng.normal(size=3)))
    if rng.random() < 0.4:
        g.transform(Translation(rng.normal(size=3) * 3))
    k = int(rng.integers(0, 5))
    if k == 1:
        g.strain_field = HStrain(rng.uniform(0.8, 1.2, size=3))
    elif k == 2:
        g.strain_field = HStrain(np.concatenate([rng.uniform(0.8, 1.2, size=3), rng.uniform(-0.1, 0.1, size=3)]))
    elif k == 3:
        g.strain_field = HStrain(rng.uniform(0.8, 1.2, size=3), mode="crystal")
    elif k == 4:
        g.strain_field = HStrain(rng.uniform(0.8, 1.2, size=3), origin=rng.normal(size=3))
    hkl = rng.integers(-3, 4, size=3)
    if not hkl.any():
        hkl[int(rng.integers(3))] = 1
    F = rng.integers(-4, 5, size=(12, 3)) + (rng.random((12, 3)) if rng.random() < 0.5 else 0)

    def sites(F):
        X = g.voxel.origin + F @ g.voxel.sbases.T
        if g.strain_field is not None:
            g.strain_field.scrape_params(g)
            X = g.strain_field.apply_strain(X)
        return X
    before = (g.voxel.sbases.copy(), np.array(g.origin), g.voxel.origin.copy(), sites(F))
    for mode in ("nearest", "floor", "ceil"):
        P = rng.normal(size=3) * rng.choice([1.0, 10, 50])
        exact = rng.random() < 0.15
        if exact:
            # a point on a plane of the family: the plane through the point itself, or for a rounding error the next one
            P = sites(rng.integers(-3, 4, size=(1, 3)))[0]
        P0 = P.copy()
        pl = snap_plane_near_point(P, g, tuple(int(x) for x in hkl), mode=mode)
        s.check("the point is unchanged", np.array_equal(P, P0))
        # the planes of the family, from the crystal's sites: signed distances of sites with sum n are affine in n
        X0, X1 = sites(np.zeros((1, 3)))[0], sites(np.eye(3))
        B = X1 - X0
        N = np.linalg.solve(B, hkl.astype(float))
        gap = 1 / np.linalg.norm(N)
        s.close("the normal is the reciprocal direction of the indices", pl.normal, N * gap, 1e-7)
        idx = N @ (pl.point - X0)
        s.close("the plane contains the points whose indexed sum is an integer", idx, round(idx), 1e-6)
        want = round(idx)
        on = F @ hkl
        same = np.isclose(on, want, atol=1e-9)
        dist = pl.sdist_from_plane(sites(F))
        s.close("signed distances of the sites", dist, (on - want) * gap, 1e-6 * (1 + np.abs(on).max()))
        x = N @ (P - X0)
        if mode == "nearest":
            s.check("no other plane is closer", abs(idx - x) <= 0.5 + 1e-6)
        elif mode == "floor":
            s.check("the next plane towards the origin", idx * x >= -1e-6 and abs(idx) <= abs(x) + 1e-6 and abs(x) < abs(idx) + 1 + 1e-6)
        else:
            s.check("the next plane away from the origin", idx * x >= -1e-6 and abs(x) <= abs(idx) + 1e-6 and abs(idx) < abs(x) + 1 + 1e-6)
        if exact and mode == "nearest":
            s.close("a point on a plane gives that plane", pl.sdist_from_plane(P), 0.0, 1e-6)
    after = (g.voxel.sbases, np.array(g.origin), g.voxel.origin, sites(F))
    s.check("asking for a plane changes nothing in the crystal", all(np.array_equal(p, q) for p, q in zip(before, after)))
    s.raises("an unknown mode is refused", ValueError, lambda: snap_plane_near_point(np.zeros(3), g, (1, 0, 0), mode="other"))


@R.scenario("points on a plane", quick=40, thorough=400)
def on_a_plane(s):
    """cells and points for which the arithmetic is exact: a point on a plane of the family is on the plane asked for, whatever the mode"""
    from czone.generator import Generator
    from czone.volume.algebraic import snap_plane_near_point
    from pymatgen.core import Structure, Lattice
    rng = s.rng
    a = 2.0 ** rng.integers(0, 4, size=3)
    ax = int(rng.integers(3))
    o = a * rng.integers(-3, 4, size=3) * (rng.random() < 0.5)
    g = Generator(structure=Structure(Lattice(np.diag(a)), ["Au"], [[0, 0, 0]]), origin=o.copy())
    if not (np.array_equal(g.voxel.sbases, np.diag(a)) and np.array_equal(g.voxel.origin, o)):
        return
    for mode in ("nearest", "floor", "ceil"):
        h = [0, 0, 0]
        h[ax] = int(rng.choice([-2, -1, 1, 2]))
        P = o + a * rng.integers(-8, 9, size=3)
        pl = snap_plane_near_point(P, g, tuple(h), mode=mode)
        s.close("a point on a plane gives that plane (%s)" % mode, pl.sdist_from_plane(P), 0.0, 1e-9)
