"""C23 Alpha shapes report true circumradii and truly exposed atoms."""
import itertools

import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.surface.alpha_shape",)
A = "czone.surface.alpha_shape."
ASSUMPTIONS = [
    "scipy.spatial.Delaunay returns simplices that index the points given and, for every corner of every simplex, the simplex "
    "across the facet opposite to that corner, or -1 on the outside",
]


# ------------------------------------------------------------------------------------------------ circumradii
@R.proof("circumradii", [A + "tetrahedron_circumradii"], con=300)
def circumradii(c):
    f = c.mod("czone.surface.alpha_shape").tetrahedron_circumradii
    n = c.size("n", lo=1, hi=5)
    P = c.array("P", (n, 4, 3))
    for t in c.each("t", n):
        p = [[c.item(P, t, k, a) for a in range(3)] for k in range(4)]
        e = [c.vsub(p[k], p[0]) for k in (1, 2, 3)]
        vol = c.vdot(e[0], c.vcross(e[1], e[2]))
        if c.sym:
            c.require(c.ne(vol, 0))
        elif abs(vol) < 0.5:
            continue
        before = c.snapshot(P)
        r = f(P)
        c.cover("radii were computed")
        c.ensure("one radius per tetrahedron", c.shape_is(r, n))
        c.ensure("the corners given are unchanged", c.same_array(P, before))
        rt = c.item(r, t)
        c.ensure("a radius is not negative", c.le(0, rt))
        # the circumcenter, relative to the first corner: (l1 e2 x e3 + l2 e3 x e1 + l3 e1 x e2) / (2 vol)
        l = [c.norm2(v) for v in e]
        w = [c.vcross(e[1], e[2]), c.vcross(e[2], e[0]), c.vcross(e[0], e[1])]
        o = [sum(l[k] * w[k][a] for k in range(3)) / (2 * vol) for a in range(3)]
        if not c.sym:
            c.ensure("the circumcenter is as far from the first corner as the radius", c.eq(rt, c.norm(o)))
            for k in range(3):
                c.ensure("the radius is that of the sphere through the corners", c.eq(rt, c.norm(c.vsub(e[k], o))))
            continue
        first = rt * rt - c.norm2(o)
        c.ensure("the circumcenter is as far from the first corner as the radius", c.eq(first, 0))
        one = 2 * vol * (1 / (2 * vol)) - 1
        for k in range(3):
            x = 2 * c.vdot(o, e[k]) - l[k]
            c.lincomb("a corner is on the sphere", x, [(l[k], one)])
            c.lincomb("the radius is that of the sphere through the corners", rt * rt - c.norm2(c.vsub(e[k], o)), [(1, first), (1, x)])
            c.ensure("the radius is that of the sphere through the corners", c.eq(rt * rt, c.norm2(c.vsub(e[k], o))))


# ------------------------------------------------------------------------------------------------ exposed atoms
class Tri:
    """an arbitrary triangulation of n points"""

    def __init__(self, c, P):
        T, SA = c.T, c.arr.SArr
        self.P = P
        n = c.arr.dp(P.sh[0])
        m = T.fresh("simplices", True)
        c.E.assume(T.le(T.ONE, m))
        F = c.absfn.FACTS

        # simp(m, n, t, k), neigh(m, n, t, k): corner k of the simplex t of m, over n points, and the simplex across it
        def ok(args):
            return T.and_(c.absfn.rng(args[2], args[0]), c.absfn.rng(args[3], T.const(4)))
        F["simp"] = lambda args: [T.implies(ok(args), c.absfn.rng(T.app("simp", args, True), args[1]))]
        F["neigh"] = lambda args: [T.implies(ok(args), T.and_(T.le(T.const(-1), T.app("neigh", args, True)), T.lt(T.app("neigh", args, True), args[0])))]
        self.m, self.n = m, n
        self.simplices = SA((m, 4), "i", lambda ix: T.app("simp", (m, n) + tuple(ix), True))
        self.neighbors = SA((m, 4), "i", lambda ix: T.app("neigh", (m, n) + tuple(ix), True))
        self.npoints, self.nsimplex = c.core.SNum(n, True), c.core.SNum(m, True)
        self.points = P


class Ghost:
    """passed(t): the radius of t was at most that of the probe in one of the calls so far"""

    def __init__(self, c):
        from vc import core
        self._serial = core.next_serial()
        self.passed = lambda t: c.T.FALSE

    def put(self, f):
        from vc import core
        core.record(self, "passed", self.passed, lambda o, n: o.passed, lambda o, n, v: setattr(o, "passed", v))
        self.passed = f


def contracts(c, mod, made, asked, R0):
    """Delaunay and tetrahedron_circumradii replaced by their contracts"""
    T, SA = c.T, c.arr.SArr
    g = Ghost(c)

    def Delaunay(points, **k):
        t = Tri(c, c.arr.to_arr(points).fresh_copy())
        made.append(t)
        return t

    def radii(points):
        P = c.arr.to_arr(points)
        c.E.oblige("circumradii are asked of tetrahedra", c.b(c.shape_is(P, P.shape[0], 4, 3)), kind="pre")
        s = T.fresh("call", True)
        asked.append((s, P.fresh_copy()))
        probe = c.core.poly(R0)
        c.absfn.FACTS["radius"] = lambda args: [T.le0(-T.app("radius", args))]
        before = g.passed
        g.put(lambda t: T.or_(before(t), T.le(T.app("radius", (s, t)), probe)))
        return SA(P.sh[:1], "f", lambda ix: T.app("radius", (s,) + tuple(ix)))
    mod.Delaunay = Delaunay
    mod.tetrahedron_circumradii = radii
    return g


def exposed(c, T, t, k, n4, outside, passed):
    """corner k of the simplex t is on a facet that is outside or next to an outer simplex that fails the test"""
    return T.or_(*[T.and_(T.not_(T.eq(T.const(j), k)), T.or_(T.lt0(n4[j]), T.and_(T.not_(passed(n4[j])), outside(n4[j])))) for j in range(4)])


def check_sym(c, out, tri, passed):
    T = c.T
    nb = lambda t: [T.app("neigh", (tri.m, tri.n, t, T.const(j)), True) for j in range(4)]
    outside = lambda t: T.or_(*[T.lt0(v) for v in nb(t)])
    for e in c.each("e", c.length(out)):
        v = c.core.poly(c.list_at(out, e))
        a = v.single_atom()
        if a is None or a.name != "simp":
            raise T.Unsupported("atoms reported that are not read from the simplices")
        t, k = a.args[2], a.args[3]
        c.fact("it is a corner of a simplex of the triangulation", c.core.SBool(T.and_(c.absfn.rng(t, tri.m), c.absfn.rng(k, T.const(4)))))
        c.ensure("an atom reported is an atom", c.core.SBool(c.absfn.rng(v, c.arr.dp(tri.P.sh[0]))))
        c.ensure("an atom reported is a corner of a tetrahedron that passes the probe test", c.core.SBool(passed(t)))
        c.ensure("an atom reported is on an exposed facet of that tetrahedron", c.core.SBool(exposed(c, T, t, k, nb(t), outside, passed)))
    return outside


def radii_of(P):
    """circumradii from the linear equations of the circumcenter"""
    out = []
    for p in P:
        M = 2 * (p[1:] - p[0])
        try:
            o = np.linalg.solve(M, ((p[1:] - p[0]) ** 2).sum(1))
            out.append(np.linalg.norm(o))
        except np.linalg.LinAlgError:
            out.append(np.inf)
    return np.array(out)


def sound(ck, tri, idx, lo, hi, surf=None):
    """lo, hi: the tetrahedra that surely / possibly pass the test"""
    S, N = tri.simplices, tri.neighbors
    outer = (N < 0).any(axis=1)
    good = set()
    for t in np.nonzero(hi)[0]:
        for j in range(4):
            nb = N[t, j]
            if nb < 0 or (not lo[nb] and outer[nb]):
                good |= {int(S[t, k]) for k in range(4) if k != j}
    idx = [int(i) for i in idx]
    ck("every atom reported once", len(set(idx)) == len(idx))
    ck("every atom reported is on an exposed facet of a tetrahedron that passes the test", set(idx) <= good)
    return good


@R.proof("exposed atoms", [A + "alpha_shape_alg_3D"], con=0)
def exposed_atoms(c):
    mod = c.mod("czone.surface.alpha_shape")
    n = c.size("n", lo=1)
    X = c.points("X", n)
    before = c.snapshot(X)
    R0 = c.real("R", pos=True)
    made, asked = [], []
    g = contracts(c, mod, made, asked, R0)
    full = c.case(c.bool("full"))
    r = mod.alpha_shape_alg_3D(X, R0, full) if full else mod.alpha_shape_alg_3D(X, R0)
    c.cover("a shape was computed")
    out = r[0] if full else r
    T = c.T
    c.ensure("one triangulation of the points", len(made) == 1 and len(asked) == 1)
    tri, (s, Q) = made[0], asked[0]
    c.ensure("the positions given are unchanged", c.same_array(X, before))
    # the test is that of the radii: positions are moved by no more than the stated noise
    for t in c.each("t", c.core.SNum(tri.m, True)):
        for k in range(4):
            i = T.app("simp", (tri.m, tri.n, c.core.poly(t), T.const(k)), True)
            c.fact("a corner is an atom", c.core.SBool(c.absfn.rng(i, c.arr.dp(X.sh[0]))))
            for a in range(3):
                d = c.item(Q, t, k, a) - c.core.SNum(c.arr.as_poly(X.get((i, T.const(a)))))
                c.ensure("the test is for the tetrahedra of the points, moved by little", c.and_(c.le(0, d), c.le(d, 2e-4)))
        for a in range(3):
            i = c.index("i", n)
            d = c.item(tri.P, i, a) - c.item(X, i, a)
            c.ensure("the points triangulated are those given, moved by little", c.and_(c.le(0, d), c.le(d, 2e-4)))
    check_sym(c, out, tri, g.passed)
    if full:
        c.ensure("the triangulation is that of the points", r[1]["tri"] is tri)


def sampling_loop(c, g):
    """invariant of the loop over samples: the tetrahedra accepted so far are those that passed the test in one of the samples"""
    from vc import rt, npx
    T, SA = c.T, c.arr.SArr

    def rule(n, at, body, cells, qual, line):
        if "with_sampling" not in qual:
            return NotImplemented
        env = rt.closure_env(body)
        cell = {nm: (get, put) for nm, get, put in cells}
        gens = [v for v in env.values() if isinstance(v, npx.SRng)]
        tri = [v for v in env.values() if isinstance(v, Tri)]
        if len(tri) != 1 or not gens:
            return NotImplemented
        tri = tri[0]

        def masks():
            """the boolean arrays the loop builds, one verdict per tetrahedron"""
            out = []
            for nm, (get, put) in cell.items():
                try:
                    v = get()
                except Exception:
                    continue
                if isinstance(v, SA) and v.kind == "b" and len(v.sh) == 1:
                    out.append(nm)
            return out

        def check(k, when):
            if k is T.ZERO:
                return
            if name not in masks():
                raise T.Unsupported("the mask of accepted tetrahedra is not set")
            v = cell[name][0]()
            t = T.fresh("t", True)
            c.E.oblige("one verdict per tetrahedron (%s)" % when, T.eq(c.arr.dp(v.sh[0]), tri.m), kind="inv")
            c.E.oblige("what is accepted has passed the test in a sample, and the reverse (%s)" % when, T.implies(c.absfn.rng(t, tri.m), T.iff(c.arr.as_bool(v.get((t,))), g.passed(t))), kind="inv")

        def havoc(k):
            for gen in gens:
                gen._draw()
                gen.n = c.core.SNum(T.fresh("draws", True), True)
            if k is not T.ZERO and c.E.branch(T.lt0(-k)):
                st = T.fresh("st", True)
                g.put(lambda t: T.bapp("passed", [st, t]))
                cell[name][1](SA((tri.m,), "b", lambda ix: T.bapp("passed", (st,) + tuple(ix))))
                return [name]
            g.put(g.passed)
            return []
        name = "probe_test"
        if name not in cell:
            return NotImplemented
        return rt.invariant_for(n, at, body, cells, "the loop over samples", check, havoc)
    rt.FOR_RULES[:] = [rule]


@R.proof("exposed atoms of samples", [A + "alpha_shape_alg_3D_with_sampling"], con=0)
def exposed_samples(c):
    mod = c.mod("czone.surface.alpha_shape")
    n = c.size("n", lo=1)
    X = c.points("X", n)
    before = c.snapshot(X)
    R0 = c.real("R", pos=True)
    N = c.int("samples", lo=1)
    made, asked = [], []
    g = contracts(c, mod, made, asked, R0)
    sampling_loop(c, g)
    full = c.case(c.bool("full"))
    kw = {}
    if c.case(c.bool("seeded")):
        kw["seed"] = c.int("seed", lo=0)
    elif c.case(c.bool("own generator")):
        kw["rng"] = c.np.random.default_rng(c.int("seed", lo=0))
    if c.case(c.bool("no noise")):
        kw["std"] = 0
    r = mod.alpha_shape_alg_3D_with_sampling(X, R0, N, return_alpha_shape=full, **kw)
    c.cover("a shape was computed")
    T = c.T
    out = r[0] if full else r
    c.ensure("one triangulation", len(made) == 1)
    tri = made[0]
    c.ensure("the positions given are unchanged", c.same_array(X, before))
    for i in c.each("i", n):
        for a in range(3):
            c.ensure("the points triangulated are those given", c.eq(c.item(tri.P, i, a), c.item(X, i, a)))
    if "std" in kw:
        for s, Q in asked:
            for t in c.each("t", c.core.SNum(tri.m, True)):
                for k in range(4):
                    i = T.app("simp", (tri.m, tri.n, c.core.poly(t), T.const(k)), True)
                    c.fact("a corner is an atom", c.core.SBool(c.absfn.rng(i, c.arr.dp(X.sh[0]))))
                    for a in range(3):
                        c.ensure("the test is for the tetrahedra of the points", c.eq(c.item(Q, t, k, a), c.core.SNum(c.arr.as_poly(X.get((i, T.const(a)))))))
    check_sym(c, out, tri, g.passed)
    if full:
        c.ensure("the triangulation is that of the points", r[1]["tri"] is tri)


# ------------------------------------------------------------------------------------------------ the real functions
def cloud(rng):
    kind = int(rng.integers(0, 4))
    if kind == 0:
        P = rng.random((int(rng.integers(6, 60)), 3)) * 4
    elif kind == 1:
        # a crystal
        g = np.arange(int(rng.integers(2, 5)))
        P = np.array(list(itertools.product(g, g, g)), dtype=float) * rng.uniform(1.5, 4)
    elif kind == 2:
        # a shell with a hollow
        v = rng.standard_normal((int(rng.integers(20, 80)), 3))
        P = v / np.linalg.norm(v, axis=1)[:, None] * rng.uniform(3, 6)
    else:
        # two clusters
        P = np.vstack([rng.random((12, 3)) * 2, rng.random((12, 3)) * 2 + [9, 0, 0]])
    return P + rng.normal(size=3) * 5


@R.scenario("point clouds", quick=120, thorough=1500)
def clouds(s):
    from czone.surface import alpha_shape as M
    rng = s.rng
    P = cloud(rng)
    P0 = P.copy()
    probe = float(rng.uniform(0.5, 6)) if rng.random() < 0.8 else float(rng.choice([0.01, 50.0]))
    np.random.seed(int(rng.integers(1 << 30)))
    tol = 1e-3
    idx, d = M.alpha_shape_alg_3D(P, probe, True)
    s.check("the positions given are unchanged", np.array_equal(P, P0))
    tri = d["tri"]
    s.check("the triangulation is that of the points", np.abs(tri.points - P).max() <= 2e-4)
    rad = radii_of(tri.points[tri.simplices])
    sound(s.check, tri, idx, rad <= probe * (1 - tol), rad <= probe * (1 + tol))
    s.check("every atom reported is an atom", all(0 <= i < len(P) for i in idx))
    np.random.seed(int(rng.integers(1 << 30)))
    # samples without noise, and with noise
    N = int(rng.integers(1, 5))
    std = 0.0 if rng.random() < 0.5 else 1e-4
    jit = P + 1e-3 * rng.random(P.shape)
    seed = int(rng.integers(1000))
    idx, d = M.alpha_shape_alg_3D_with_sampling(jit, probe, N, std=std, seed=seed, return_alpha_shape=True)
    tri = d["tri"]
    g = np.random.default_rng(seed)
    tests = []
    for _ in range(N):
        Q = jit + std * g.standard_normal(size=jit.shape)
        tests.append(radii_of(Q[tri.simplices]))
    low = np.min(tests, axis=0)
    sound(s.check, tri, idx, low <= probe * (1 - tol), low <= probe * (1 + tol))
    again = M.alpha_shape_alg_3D_with_sampling(jit, probe, N, std=std, rng=np.random.default_rng(seed))
    s.check("equal streams give equal results", sorted(again) == sorted(idx))


@R.scenario("circumradii of batches", quick=150, thorough=2000)
def batches(s):
    from czone.surface.alpha_shape import tetrahedron_circumradii as f
    rng = s.rng
    n = int(rng.integers(1, 12))
    P = rng.normal(size=(n, 4, 3)) * rng.uniform(0.5, 20) + rng.normal(size=3) * 10
    vol = np.abs(np.linalg.det(P[:, 1:] - P[:, :1]))
    size = np.abs(P[:, 1:] - P[:, :1]).max(axis=(1, 2))
    ok = vol > 1e-2 * size ** 3
    P0 = P.copy()
    r = f(P)
    s.check("the corners given are unchanged", np.array_equal(P, P0))
    s.check("one radius per tetrahedron", np.shape(r) == (n,))
    s.close("the radius is that of the sphere through the corners", r[ok], radii_of(P)[ok], 1e-7)
    perm = rng.permutation(4)
    s.close("the order of the corners does not matter", f(P[:, perm])[ok], r[ok], 1e-7)
    k = int(rng.integers(n))
    s.close("a radius does not depend on the other tetrahedra", f(P[k:k + 1])[0], r[k], 1e-9 if ok[k] else np.inf)
    rows = rng.permutation(n)
    s.check("a list of tetrahedra is accepted", np.allclose(f([list(map(list, t)) for t in P]), r, equal_nan=True))
    s.check("the order of the tetrahedra does not matter", np.allclose(f(P[rows]), r[rows], equal_nan=True))
