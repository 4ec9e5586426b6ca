"""C21 Planar defect builders place well separated defects of the right kind."""
import numpy as np

from vc.spec import Registry
from vc import dsl
from specs import common as K

R = Registry()
MODULES = ("czone.prefab.prefab",)
PF = "czone.prefab.prefab."

TRUSTED = ["crystals and regions are copied whole by from_generator, from_volume and add_generator (run concretely; C08 and C25 cover what a copy is)",
           "pymatgen: Lattice.d_hkl is the spacing of the planes of an unstrained lattice"]
ASSUMPTIONS = ["callees by contract: snap_plane_near_point gives a plane of the family (C14), get_N_splits keeps its distance (C20), transformations act on cells as in C08, planes have unit normals (C09)",
               "the deductive part is about crystals without a strain field; a fault's direction in a hexagonal crystal is only run concretely"]


# ------------------------------------------------------------------------------------------------ concrete runs
def body(rng, o, a, plane_normal):
    """a random volume about o, wide enough for several planes"""
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere, Plane, Cylinder
    k = int(rng.integers(0, 5))
    r = a * rng.uniform(3.0, 4.5)
    if k == 0:
        return Volume(alg_objects=[Sphere(r, o)])
    if k == 1:
        return Volume(points=makeRectPrism(1.6 * r, 1.8 * r, 1.7 * r, center=o))
    if k == 2:
        return Volume(alg_objects=[Sphere(r, o), Plane(rng.normal(size=3), o + rng.normal(size=3) * 0.2)])
    if k == 3:
        return Volume(alg_objects=[Cylinder(plane_normal + 0.2 * rng.normal(size=3), o, r * 0.7, 2 * r)])
    from scipy.stats import special_ortho_group
    Q = special_ortho_group.rvs(3, random_state=rng)
    return Volume(alg_objects=[Plane(s * q, o + s * q * r * 0.75) for q in Q for s in (1, -1)])


def members(obj):
    return sorted(obj.volumes, key=lambda v: -v.priority)


def cut(v):
    return [s for s in v.alg_objects]


def fill(g, X):
    """indices and sites of a generator's lattice near the points X: fractional coordinates"""
    B = np.asarray(g.voxel.sbases)
    return np.linalg.solve(B, (X - np.asarray(g.voxel.origin)).T).T


def same_crystal(g, X, Z):
    """are the X sites of g?"""
    F = fill(g, X)
    S = g.structure.frac_coords
    d = F[:, None] - S[None]
    d -= np.round(d)
    e = np.linalg.norm(d @ np.asarray(g.voxel.sbases).T, axis=2)
    return e.min(axis=1).max() < 1e-5 and np.array_equal(np.asarray(g.structure.atomic_numbers)[e.argmin(axis=1)], Z)


def crystal_of(rng, kind):
    from pymatgen.core import Structure, Lattice
    from czone.generator import Generator
    from czone.transform import Rotation, Translation, Reflection
    from czone.volume import Plane
    from scipy.stats import special_ortho_group
    if kind == "fcc":
        a = rng.uniform(3.5, 5.5)
        g = Generator(structure=Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Au"], [[0, 0, 0]]))
    elif kind == "zb":
        a = rng.uniform(5, 6.5)
        g = Generator(structure=Structure.from_spacegroup("F-43m", Lattice.cubic(a), ["Zn", "S"], [[0, 0, 0], [.25, .25, .25]]))
    else:
        a = rng.uniform(3.0, 4.5)
        g = Generator(structure=Structure.from_spacegroup("P6_3mc", Lattice.hexagonal(a, a * 1.633), ["Zn", "S"], [[1 / 3, 2 / 3, 0.0], [1 / 3, 2 / 3, 0.375]]))
    if rng.random() < 0.8:
        g.transform(Rotation(special_ortho_group.rvs(3, random_state=rng), origin=rng.normal(size=3)))
    if rng.random() < 0.2 and kind == "fcc":
        g.transform(Reflection(Plane(rng.normal(size=3), rng.normal(size=3))))
    if rng.random() < 0.8:
        g.transform(Translation(rng.normal(size=3) * rng.choice([1, 30])))
    return a, g


def examine(c, kind, prefab, vol, g, obj, types, plane, N, sep, a, inside, seen):
    """the object built, from outside"""
    rng = c.rng
    h = np.linalg.inv(np.asarray(g.voxel.sbases)).T @ np.array(plane)
    n = h / np.linalg.norm(h)
    d = 1 / np.linalg.norm(h)
    ms = members(obj)
    c.check("one region more than defects", len(ms) == N + 1, len(ms))
    c.check("each region takes precedence over those before it", [m.priority for m in ms] == sorted([m.priority for m in ms], reverse=True) and len({m.priority for m in ms}) == N + 1)
    n0 = len(vol.alg_objects)
    planes = []
    for i, m in enumerate(ms):
        c.check("the volume is cut by one plane", len(m.alg_objects) == n0 + (i > 0), (i, len(m.alg_objects)))
        c.check("hull points are those of the volume", (m.points is None) == (vol.points is None) and (vol.points is None or np.allclose(m.points, vol.points)))
        if i:
            planes.append(m.alg_objects[-1])
    o = np.asarray(g.voxel.origin)
    idx = [h @ (p.point - o) for p in planes]
    for p, k in zip(planes, idx):
        c.check("planes belong to the family", np.linalg.norm(np.cross(p.normal, n)) < 1e-8 and abs(k - np.round(k)) < 1e-6, k)
        c.check("regions lie on the side the crystal is not changed again", p.normal @ n > 0)
    c.check("planes are separated", all(x - y >= sep - 1e-6 for x, y in zip(idx, idx[1:])), idx)
    # reference: apply the operations one after the other
    Y = inside(60)
    kinds = set()
    prev = ms[0].generator
    c.check("the first region has the crystal given", np.allclose(prev.voxel.sbases, g.voxel.sbases) and np.allclose(prev.voxel.origin, o))
    for m, p in zip(ms[1:], planes):
        q = m.generator
        bb = p.point + rng.normal(size=(8, 3)) * a * 1.5
        X, Z = prev.supply_atoms(bb)
        det = np.linalg.det(np.asarray(q.voxel.sbases)) * np.linalg.det(np.asarray(prev.voxel.sbases))
        if det < 0:
            kinds.add("twin")
            c.check("twins only in cubic crystals", kind != "wurtzite")
            W = X - 2 * np.outer((X - p.point) @ n, n)
            c.check("a twin is the mirror image in its plane", same_crystal(q, W, Z))
        else:
            kinds.add("stacking_fault")
            s = np.asarray(q.voxel.origin) - np.asarray(prev.voxel.origin)
            c.check("a stacking fault is a shift", np.allclose(q.voxel.sbases, prev.voxel.sbases))
            f = np.linalg.solve(np.asarray(prev.voxel.sbases), s)
            if kind != "wurtzite":
                c.check("within the plane", abs(s @ n) < 1e-6 * a, s @ n)
                c.check("by a third of a lattice vector", np.allclose(3 * f, np.round(3 * f), atol=1e-6) and not np.allclose(f, np.round(f), atol=0.1), f)
            else:
                c.check("half a cell down the axis", abs(f[2] + 0.5) < 1e-6, f)
                c.check("by thirds of lattice vectors within the plane", np.allclose(3 * f[:2], np.round(3 * f[:2]), atol=1e-6) and not np.allclose(f[:2], np.round(f[:2]), atol=0.1), f)
        prev = q
    c.check("the kinds reported are those placed", {k for k, v in types.items() if v} == kinds, (types, kinds))
    # nothing given was changed
    for what, x, y in seen():
        c.check("nothing given was changed: " + what, np.array_equal(x, y))
    return planes, idx, ms, n, d


def watch(vol, g):
    def look():
        r = [("origin", np.array(g.voxel.origin)), ("cell", np.array(g.voxel.sbases)), ("atoms", np.array(g.structure.frac_coords)),
             ("priority", np.array(vol.priority)), ("surfaces", np.array(len(vol.alg_objects))), ("crystal of the volume", np.array(vol.generator is None))]
        for s in vol.alg_objects:
            r += [("surface", np.hstack([np.ravel(getattr(s, x)) for x in ("center", "point", "normal", "axis", "radius", "length", "tol") if hasattr(s, x)]))]
        if vol.points is not None:
            r.append(("points", np.array(vol.points)))
        if vol.generator is not None:
            r += [("origin in the volume", np.array(vol.generator.voxel.origin)), ("cell in the volume", np.array(vol.generator.voxel.sbases))]
        return r
    first = look()
    return lambda: [(w, x, y) for (w, x), (_, y) in zip(first, look())] + [("number", np.array(len(first)), np.array(len(look())))]


@R.scenario("cubic crystals", quick=60, thorough=700)
def cubic(c):
    from czone.prefab.prefab import fccMixedTwinSF, fccStackingFault, fccTwin
    rng = c.rng
    kind = "fcc" if rng.random() < 0.7 else "zb"
    a, g = crystal_of(rng, kind)
    plane = tuple(int(x) for x in rng.choice([-1, 1], size=3))
    h = np.linalg.inv(np.asarray(g.voxel.sbases)).T @ np.array(plane)
    o = np.asarray(g.voxel.origin) + rng.normal(size=3) * rng.choice([0.5, 20])
    vol = body(rng, o, a, h / np.linalg.norm(h))
    if rng.random() < 0.3:
        vol.add_generator(g)
    N, sep = int(rng.integers(0, 5)), int(rng.integers(1, 4))
    ratio = float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
    which = int(rng.integers(0, 3))
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    if which == 0:
        pf = fccMixedTwinSF(generator=g, volume=vol, ratio=ratio, N=N, min_sep=sep, plane=plane)
    elif which == 1:
        pf, ratio = fccStackingFault(generator=g, volume=vol, N=N, min_sep=sep, plane=plane), 1.0
    else:
        pf, ratio = fccTwin(generator=g, volume=vol, N=N, min_sep=sep, plane=plane), 0.0
    seen = watch(vol, g)
    c.note(kind=kind, which=which, N=N, sep=sep, ratio=ratio, plane=plane, surfaces=[type(s).__name__ for s in vol.alg_objects])
    try:
        obj, types = pf.build_object(return_defect_types=True)
        if rng.random() < 0.3:
            obj, types = pf.build_object(return_defect_types=True)
    except ValueError as e:
        if "too large" in str(e):
            c.skip()
        raise
    planes, idx, ms, n, d = examine(c, kind, pf, vol, g, obj, types, plane, N, sep, a, lambda k: o + rng.normal(size=(k, 3)) * a, seen)
    if ratio in (0.0, 1.0):
        c.check("only the kind asked for", not types["stacking_fault" if ratio == 0 else "twin"])
    obj.populate_atoms()
    X = obj.atoms
    if len(X) < 2:
        return
    from scipy.spatial import cKDTree
    t = cKDTree(X)
    nn = a / np.sqrt(2) if kind == "fcc" else a * np.sqrt(3) / 4
    D, _ = t.query(X, k=2)
    # zinc blende: a plane through one kind of atoms and twinned would need to be placed between the two layers
    if kind == "fcc":
        c.check("atoms keep the crystal's spacing", D[:, 1].min() > nn * 0.999, D[:, 1].min() / nn)
        deep = deep_inside(vol, X, nn * 1.2)
        cnt = np.array([len(q) - 1 for q in t.query_ball_point(X[deep], nn * 1.01)])
        c.check("atoms inside have all neighbors", (cnt == 12).all(), np.unique(cnt))


def deep_inside(vol, X, r):
    from czone.volume import algebraic as am
    from scipy.spatial import ConvexHull
    m = [K.margin_inside(am, x, X) for x in vol.alg_objects]
    if vol.points is not None:
        E = ConvexHull(vol.points).equations
        m.append(-(X @ E[:, :3].T + E[:, 3]).max(axis=1))
    return np.min(m, axis=0) > r


@R.scenario("hexagonal crystals", quick=40, thorough=500)
def hexagonal(c):
    from czone.prefab.prefab import wurtziteStackingFault
    rng = c.rng
    a, g = crystal_of(rng, "wurtzite")
    h = np.linalg.inv(np.asarray(g.voxel.sbases)).T @ np.array([0, 0, 2])
    o = np.asarray(g.voxel.origin) + rng.normal(size=3) * rng.choice([0.5, 20])
    vol = body(rng, o, a * 1.2, h / np.linalg.norm(h))
    N, sep = int(rng.integers(0, 4)), int(rng.integers(1, 4))
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    pf = wurtziteStackingFault(generator=g, volume=vol, N=N, min_sep=sep)
    seen = watch(vol, g)
    c.note(N=N, sep=sep, surfaces=[type(s).__name__ for s in vol.alg_objects])
    try:
        obj, types = pf.build_object(return_defect_types=True)
    except ValueError as e:
        if "too large" in str(e):
            c.skip()
        raise
    examine(c, "wurtzite", pf, vol, g, obj, types, (0, 0, 2), N, sep, a, lambda k: o + rng.normal(size=(k, 3)) * a, seen)
    obj.populate_atoms()
    X = obj.atoms
    if N == 0 or len(X) < 2:
        return
    from scipy.spatial import cKDTree
    D, _ = cKDTree(X).query(X, k=2)
    c.note(mind=float(D[:, 1].min() / (a * 1.633 * 0.375)))


# ------------------------------------------------------------------------------------------------ proofs
def world(c, h):
    """What build_object relies on, by contract: the crystal and the volume it is given (and copies of them), the planes of a
    family (C14), random split positions (C20), planes with unit normals (C09), and how transformations act on cells (C08)."""
    from vc import npx
    T, P, N, SA = c.T, c.core.poly, c.core.SNum, c.arr.SArr
    mod = c.mod("czone.prefab.prefab")
    rec = c.core.record

    class w:
        pass
    w.mod = mod
    n = w.n = [c.real("n%d" % i) for i in range(3)]
    c.require(c.eq(c.norm2(n), 1))
    d = w.d = c.real("d", pos=True)
    S0 = w.S0 = [[c.real("S%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    # n and d are direction and spacing of the planes h: the cell vectors lie on the planes h_j
    for j in range(3):
        c.require(c.eq(c.vdot(n, [S0[i][j] for i in range(3)]), h[j] * d))
    o = w.o = [c.real("o%d" % i) for i in range(3)]
    c.fact("a square", c.lt(0, d * d))
    if h[:2] == (0, 0):
        inv = [[c.real("inv%d%d" % (i, j)) for j in range(3)] for i in range(3)]
        up, s = [sum(h[i] * inv[i][j] for i in range(3)) for j in range(3)], c.real("q", pos=True)
        c.require(c.eq(s * d, 1))
    else:
        # orthogonal cell vectors of equal length: the direction of the planes h is that of the lattice vector h
        up, s = [sum(S0[i][j] * h[j] for j in range(3)) for i in range(3)], 3 * d
    c.require(c.veq(up, [s * x for x in n]))
    c.lincomb("the length of the direction", c.norm2(up) - s * s, [(up[i] + s * n[i], up[i] - s * n[i]) for i in range(3)] + [(s * s, c.norm2(n) - 1)])
    c.fact("a square", c.lt(0, s * s))
    c.fact("a direction", c.lt(0, c.norm2(up)))

    def arr(rows):
        return SA.from_terms((3, 3), "f", [P(x) for r in rows for x in r])

    def vec(v):
        return SA.from_terms((3,), "f", [P(x) for x in v])

    class Voxel:
        def __init__(self, S):
            self.sbases = arr(S)
            self.bases = arr(S)

        @property
        def reciprocal_bases(self):
            # only their direction matters: S^-T h = n / d
            return arr(inv)

        @property
        def origin(self):
            return vec(o)

    Gen = c.cls("czone.generator.generator.Generator")

    def turned(S, t):
        """the cell after a transformation ('the cell after a transformation', C08)"""
        if isinstance(t, mod.Reflection):
            m = c.vals(t.plane.normal)
            cols = [[S[i][j] for i in range(3)] for j in range(3)]
            cols = [c.vsub(v, c.vscale(2 * c.vdot(m, v), m)) for v in cols]
            return [[cols[j][i] for j in range(3)] for i in range(3)]
        if isinstance(t, mod.Translation):
            return S
        raise T.Unsupported("a transformation of another kind")

    class A:
        """a crystal: the one it was made from and what was done to it since"""

        def start(self, root, ops, S):
            self.__dict__["state"] = (root, ops, S)
            self.__dict__["_serial"] = c.core.next_serial() if hasattr(c.core, "next_serial") else c.lists.next_serial()
            return self

        def set(self, st):
            rec(self, "state", self.__dict__["state"], lambda o, k: o.__dict__[k], lambda o, k, v: o.__dict__.__setitem__(k, v))
            self.__dict__["state"] = st

    def copy_of(g):
        return new(*g.state)

    def transform(self, t):
        root, ops, S = self.state
        self.set((root, ops + (t,), turned(S, t)))
        return self

    def from_generator(self, **kw):
        g = copy_of(self)
        for t in kw.pop("transformation", []):
            transform(g, t)
        if kw:
            raise T.Unsupported("from_generator with " + ", ".join(kw))
        return g

    class Lattice:
        def d_hkl(self, k):
            c.ensure("the spacing is that of the planes asked for", tuple(k) == h)
            return d

    body_ = {"voxel": property(lambda self: Voxel(self.state[2])), "lattice": property(lambda self: Lattice()), "from_generator": from_generator,
             "transform": transform, "origin": property(lambda self: vec(o)), "start": A.start, "set": A.set,
             "__deepcopy__": lambda self, memo: copy_of(self), "__copy__": lambda self: copy_of(self), "strain_field": property(lambda self: None)}
    cls = w.gcls = K.sub(c, Gen, "AnyCrystal", body_)

    def new(root, ops, S):
        return object.__new__(cls).start(root, ops, S)
    w.new = new
    g = w.g = new("given", (), S0)

    # planes: the normal of a plane is the direction given (C09)
    Plane = c.cls("czone.volume.algebraic.Plane")

    def set_normal(self, v):
        v = c.vals(c.np.array(v).reshape(3))
        if c.core.E.known(c.b(c.eq(c.norm2(v), 1))) if hasattr(c.core.E, "known") else False:
            self._normal = vec(v)
            return
        c.fact("the normal given has length one", c.eq(c.norm2(v), 1))
        self._normal = vec(v)
    def born(cls, *a, **k):
        f = object.__new__(cls)
        f.__dict__["_serial"] = c.lists.next_serial()
        return f
    UPlane = K.sub(c, Plane, "UnitPlane", {"__new__": born, "normal": property(lambda self: self._normal, set_normal)})
    mod.Plane = UPlane

    def snap(point, generator, miller, mode="nearest"):
        """a plane of the family (C14)"""
        root, ops, S = generator.state
        p = [c.core.SNum(T.fresh("snapped", False)) for _ in range(3)]
        f = UPlane.__new__(UPlane)
        f._normal, f._point, f._tol = vec(n), vec(p), 1e-5
        if root == "given" and not ops and tuple(miller) == h:
            q = c.core.SNum(T.fresh("plane", True), True)
            c.require(c.eq(c.vdot(n, c.vsub(p, o)), q * d))
            w.snaps.append((p, q))
        return f
    w.snaps = []
    mod.snap_plane_near_point = snap
    w.vec, w.snap, w.UPlane = vec, snap, UPlane

    # splits
    w.asked = []

    def splits(k, m, l, seed=None):
        k, m, l = N(P(k), True), N(P(m), True), N(P(l), True)
        if not c.case(c.lt(0, k)):
            return c.lists.SList()
        if not c.case(c.core.SBool(T.bapp("fits21", [T.fresh("fits", True)]))):
            raise ValueError("m is too large for number of splits requested and l")
        at = lambda i: N(T.app("split21", [P(i)], True), True)
        c.require(c.forall(k, lambda i: c.and_(c.le(m, at(i)), c.lt(at(i), l - m))))
        c.require(c.forall(k, lambda i: c.imp(c.lt(i + 1, k), c.le(m, at(i + 1) - at(i)))))
        w.asked.append((k, m, l))
        return c.lists.SList.symbolic(P(k), lambda i: at(i))
    mod.get_N_splits = splits
    w.split = lambda i: N(T.app("split21", [P(i)], True), True)

    # volumes
    Vol = c.cls("czone.volume.volume.Volume")
    K13 = surfaces(c, mod)

    def from_volume(self, **kw):
        if self is not w.vol:
            raise T.Unsupported("a region made from another region")
        v = part(copy_of(kw["generator"]) if "generator" in kw else None, ())
        if set(kw) - {"generator"}:
            raise T.Unsupported("from_volume with " + ", ".join(kw))
        v.priority = self._priority
        return v

    def add(self, s, *a):
        if a or self is w.vol or not isinstance(s, Plane):
            c.ensure("the volume given is unchanged", self is not w.vol)
            raise T.Unsupported("a surface of another kind")
        old = self.__dict__["cuts"]
        rec(self, "cuts", old, lambda o, k: o.__dict__[k], lambda o, k, v: o.__dict__.__setitem__(k, v))
        self.__dict__["cuts"] = old + ((tuple(c.vals(s.normal)), tuple(c.vals(s.point))),)

    def get_pr(self):
        return self.__dict__["_priority"]

    def set_pr(self, v):
        if self is w.vol:
            c.ensure("the volume given is unchanged", False)
        rec(self, "_priority", self.__dict__["_priority"], lambda o, k: o.__dict__[k], lambda o, k, v: o.__dict__.__setitem__(k, v))
        self.__dict__["_priority"] = v

    def refuse(name):
        def f(self, *a, **k):
            raise T.Unsupported("a region's " + name)
        return f
    vcls = K.sub(c, Vol, "AnyRegion", dict(
        {"from_volume": from_volume, "add_alg_object": add, "priority": property(get_pr, set_pr)},
        **{x: refuse(x) for x in ("add_generator", "addPoints", "transform", "populate_atoms", "remove_alg_object")}))
    gcls = K.sub(c, vcls, "GivenVolume", {
        "alg_objects": property(lambda self: K13), "get_bounding_box": lambda self: w.box, "generator": property(lambda self: w.g)})

    def part(gen, cuts, cls=vcls):
        v = object.__new__(cls)
        v.__dict__.update(_priority=0, cuts=tuple(cuts), gen=gen, _serial=c.lists.next_serial())
        return v
    w.part = part
    w.box = c.points("box", c.size("corners", lo=1))
    w.vol = part(None, (), gcls)
    w.vol.__dict__["_priority"] = c.int("priority")

    def multi(volumes=None, priority=0):
        m = type("Built", (), {})()
        m.volumes = c.lists.SList(volumes)
        return m
    mod.MultiVolume = multi

    return w


def surfaces(c, mod):
    """surfaces of arbitrary kinds; spheres show their center and radius"""
    T, P, N, SA = c.T, c.core.poly, c.core.SNum, c.arr.SArr
    base = c.cls("czone.volume.algebraic.BaseAlgebraic")
    cls = K.sub(c, base, "SomeSurface", {
        "radius": property(lambda self: N(T.app("any_r", [P(self.k)]))),
        "center": property(lambda self: SA((3,), "f", lambda idx: T.app("any_c", [P(self.k)] + list(idx))))})
    real = mod.Sphere

    class Kind(type):
        def __instancecheck__(self, x):
            if isinstance(x, cls):
                return bool(c.eq(N(T.app("any_kind", [P(x.k)], True), True), 0))
            return type.__instancecheck__(real, x)
    mod.Sphere = Kind("Sphere", (object,), {})
    return K.seq(c, c.size("surfaces", lo=0), lambda k: K.make(cls, k=k))


def offering(c, w, n, at, body, cells, cell, vals, line):
    """invariant of the loop that lists the planes: they are one spacing apart, and so is the point at hand"""
    from vc import rt
    T, P, SL, SA, Num = c.T, c.core.poly, c.lists.SList, c.arr.SArr, c.core.SNum
    lists = [v for v in vals.values() if isinstance(v, SL) and v.sym is None and list.__len__(v) == 1 and isinstance(list.__getitem__(v, 0), w.UPlane)]
    points = [k for k, v in vals.items() if k in cell and isinstance(v, SA) and v.sh == (3,)]
    if len(lists) != 1:
        return NotImplemented
    lst = lists[0]
    p0 = c.vals(list.__getitem__(lst, 0).point)
    st = {}

    def place(k):
        return [p0[i] + Num(P(k), True) * w.n[i] * w.d for i in range(3)]

    def plane(j):
        f = w.UPlane.__new__(w.UPlane)
        f.__dict__.update(_normal=w.vec(w.n), _point=w.vec(place(j)), _tol=1e-5, _serial=0)
        return f

    def check(k, when):
        if k is T.ZERO:
            for x in points:
                c.ensure("the point at hand is that of the first plane", c.veq(c.vals(cell[x][0]()), p0))
            return
        k0 = st["k"]
        c.ensure("one more plane", c.eq(Num(P(c.length(lst)), True), Num(k0, True) + 2))
        j = T.fresh("j", True)
        c.E.assume(c.absfn.rng(j, k0 + T.ONE))
        c.ensure("planes before are kept", lst.seq_at(j) is st["at"](j))
        p = lst.seq_at(k0 + T.ONE)
        c.ensure("the direction is the same", c.veq(c.vals(p.normal), w.n))
        c.ensure("a plane is one spacing on", c.veq(c.vals(p.point), place(k0 + T.ONE)))
        for x in points:
            v = cell[x][0]()
            c.ensure("the point at hand goes with it", c.veq(c.vals(v), place(k0 + T.ONE)))
            c.ensure("planes have points of their own", v.buf is not p.point.buf)

    def havoc(k):
        k = st["k"] = P(k)
        for x in points:
            cell[x][1](w.vec(place(k)).fresh_copy())
        memo = {}

        def at_(j):
            if j not in memo:
                memo[j] = plane(j)
            return memo[j]
        st["at"] = at_
        lst._rec()
        list.__delitem__(lst, slice(None))
        lst.sym = (k + T.ONE, at_)
        return points
    return rt.invariant_for(n, at, body, cells, "the loop over planes", check, havoc)


def building(c, w, N, h, kind, flags_at):
    """invariant of the loop over defects: the regions so far are those before and one more each time"""
    from vc import rt, npx
    T, P, SL, Num = c.T, c.core.poly, c.lists.SList, c.core.SNum
    st = {}

    def rule(n, at, body, cells, qual, line):
        env = rt.closure_env(body, body)
        cell = {nm: (get, put) for nm, get, put in cells}
        vals = dict(env)
        for nm, (get, put) in cell.items():
            try:
                vals[nm] = get()
            except Exception:
                pass
        gens = [k for k, v in vals.items() if isinstance(v, w.gcls) and k in cell]
        if len(gens) != 1:
            return offering(c, w, n, at, body, cells, cell, vals, line)
        gname = gens[0]
        lists = [v for v in vals.values() if isinstance(v, SL) and v.sym is None and list.__len__(v) == 1 and hasattr(list.__getitem__(v, 0), "cuts")]
        if len(lists) != 1:
            raise T.Unsupported("which list the regions are collected in")
        vols = lists[0]
        signs = [k for k, v in vals.items() if k in cell and isinstance(v, int) and not isinstance(v, bool)]
        # with one kind of defect, whether there is any is known beforehand
        dicts = [v for v in vals.values() if isinstance(v, dict)] if len(flags_at) > 1 else []
        ghost = {"twin": T.FALSE, "stacking_fault": T.FALSE}
        first = list.__getitem__(vols, 0)
        # before the loop
        E = c.core.E

        def flags():
            for dct in dicts:
                for name in flags_at:
                    got = dct[name]
                    yield name, c.iff(got, c.core.SBool(ghost[name]))

        def check(k, when):
            now = cell[gname][0]()
            if k is T.ZERO:
                c.ensure("there is a region to begin with", list.__len__(vols) == 1)
                p = first
                c.ensure("the first region has the crystal given", p.gen is not None and p.gen.state[0] == "given" and p.gen.state[1] == ())
                c.ensure("the first region is not cut", len(p.cuts) == 0)
                c.ensure("the first region is the last in precedence", c.eq(p._priority, N))
                c.ensure("the crystal at hand is that of the region", now.state[0] == "given" and now.state[1] == ())
                for s in signs:
                    st[s] = cell[s][0]()
                for name, f in flags():
                    c.ensure("nothing is reported before anything was placed", f)
                return
            kk = st["k"]
            c.ensure("one more region", c.eq(Num(P(c.length(vols)), True), Num(kk, True) + 2))
            j = T.fresh("j", True)
            E.assume(c.absfn.rng(j, kk + T.ONE))
            c.ensure("regions before are kept", vols.seq_at(j) is st["vols"](j))
            p = vols.seq_at(kk + T.ONE)
            if not hasattr(p, "cuts"):
                raise T.Unsupported("what was added to the regions")
            i = Num(kk, True)
            c.ensure("a new region has a crystal", p.gen is not None)
            root, ops, S = p.gen.state
            c.ensure("the crystal is made from that before", root is st["gen"])
            c.ensure("by one operation", len(ops) == 1)
            t = ops[0]
            c.ensure("the volume is cut by one plane", len(p.cuts) == 1)
            nn, pp = p.cuts[0]
            c.ensure("the plane's direction is that of the family", c.veq(list(nn), w.n))
            # its place in the family
            sp, q = st["base"]
            pos = w.split(N - 1 - i)
            for a in range(3):
                c.fact("the plane is one of those chosen", c.eq(pp[a], sp[a] + pos * w.n[a] * w.d))
            c.lincomb("the plane belongs to the family", c.vdot(w.n, c.vsub(list(pp), w.o)) - (q + pos) * w.d,
                      [(w.n[a], pp[a] - sp[a] - pos * w.n[a] * w.d) for a in range(3)]
                      + [(pos * w.d, c.norm2(w.n) - 1), (1, c.vdot(w.n, c.vsub(list(sp), w.o)) - q * w.d)])
            with c.under(c.lt(0, i)):
                c.ensure("planes keep the separation asked for", c.le(w.sep, w.split(N - i) - pos))
            c.ensure("precedence grows from region to region", c.eq(p._priority, N - 1 - i))
            same = now.state[0] is root and now.state[1] == ops if not isinstance(now.state[0], str) else False
            c.ensure("the crystal at hand is that of the last region", same)
            kind(w, c, t, st, p, pp)
            twin = isinstance(t, w.mod.Reflection)
            name = "twin" if twin else "stacking_fault"
            ghost[name] = T.TRUE
            for nm, f in flags():
                c.ensure("the kinds reported are those placed", f)
            # the sign that goes with the crystal
            for s in signs:
                v = cell[s][0]()
                if st["mode"] == "mirrored":
                    c.ensure("the direction follows the crystal", c.eq(v, -st["now"][s] if twin else st["now"][s]))
                else:
                    c.ensure("directions are of length one", c.or_(c.eq(v, 1), c.eq(v, -1)))

        def havoc(k):
            k = P(k)
            st["k"] = k
            inside = k is not T.ZERO
            m = c.case(c.core.SBool(T.bapp("mirrored21", [T.fresh("m", True)]))) if "twin" in flags_at else False
            S = w.S0
            if m:
                cols = [[S[i][j] for i in range(3)] for j in range(3)]
                cols = [c.vsub(v, c.vscale(2 * c.vdot(w.n, v), w.n)) for v in cols]
                S = [[cols[j][i] for j in range(3)] for i in range(3)]
            g = w.new("loop", (), S)
            g.__dict__["state"] = (g, (), S)
            st["gen"] = g
            cell[gname][1](g)
            st["mode"] = "mirrored" if "twin" in flags_at else "alternating"
            st["now"], st["m"] = {}, m
            done = [gname]
            flip = c.case(c.core.SBool(T.bapp("flip21", [T.fresh("f", True)]))) if st["mode"] == "alternating" else m
            for s in signs:
                v = st[s] * (-1 if flip else 1)
                st["now"][s] = v
                cell[s][1](v)
                done.append(s)
            memo = {}

            def at_(j):
                if j not in memo:
                    memo[j] = w.part(None, ())
                    memo[j].__dict__["_serial"] = 0
                return memo[j]
            st["vols"] = at_
            vols._rec()
            list.__delitem__(vols, slice(None))
            vols.sym = (k + T.ONE, at_)
            # the defects so far
            for name in flags_at:
                b = T.bapp("placed21_" + name, [T.fresh("b", True)])
                ghost[name] = b
                E.assume(T.implies(T.le(k, T.ZERO), T.not_(b)))
                for dct in dicts:
                    dct[name] = c.core.SBool(b)
            if "twin" in flags_at:
                for r, name in ((1, "twin"), (0, "stacking_fault")):
                    E.assume(T.implies(T.eq(P(w.ratio), T.const(r)), T.not_(ghost[name])))
                if m:
                    E.assume(ghost["twin"])
            npx.GLOBAL_RNG._draw()
            npx.GLOBAL_RNG.n = Num(T.fresh("draws", True), True)
            st["ghost"] = ghost
            return done
        offered = [v for v in vals.values() if isinstance(v, SL) and v.sym is not None and isinstance(v.seq_at(T.ZERO), w.UPlane)]
        if len(offered) != 1:
            raise T.Unsupported("which planes are offered")
        p0 = c.vals(offered[0].seq_at(T.ZERO).point)
        hit = [b for b in w.snaps if all(P(x) is P(y) for x, y in zip(b[0], p0))]
        if not hit:
            raise T.Unsupported("where the planes offered begin")
        st["base"] = hit[0]
        return rt.invariant_for(n, at, body, cells, "the loop over defects", check, havoc)
    rt.FOR_RULES[:] = [rule]
    return st


def cubic_kind(w, c, t, st, p, pp):
    S = st["gen"].state[2]
    n, d = w.n, w.d
    if isinstance(t, w.mod.Reflection):
        c.ensure("a twin is not placed if only faults are asked for", c.ne(w.ratio, 1))
        c.ensure("a twin is mirrored across its plane", c.veq(c.vals(t.plane.normal), n))
        c.ensure("a twin is mirrored in its plane", c.veq(c.vals(t.plane.point), list(pp)))
        c.ensure("no more than the crystal", not t.basis_only)
        return
    if not isinstance(t, w.mod.Translation):
        raise c.T.Unsupported("a defect of another kind")
    c.ensure("a fault is not placed if only twins are asked for", c.ne(w.ratio, 0))
    s = c.vals(t.shift)
    h = w.h
    v = [h[0], h[1], -2 * h[2]]
    sgn = -1 if st["m"] else 1
    b0 = [sum(w.S0[i][j] * v[j] for j in range(3)) for i in range(3)]
    # the shift lies in the plane: n is perpendicular to S0 v, which a mirror image leaves as it is
    c.lincomb("the direction lies in the plane", c.vdot(n, b0), [(v[j], c.vdot(n, [w.S0[i][j] for i in range(3)]) - h[j] * d) for j in range(3)])
    u = c.vdot(n, b0)
    for i in range(3):
        c.lincomb("a fault is a third of a lattice vector, against the direction in a mirrored crystal", 3 * s[i] - sgn * b0[i], [((2 * n[i] * -sgn if st["m"] else 0), u)])
    c.lincomb("a fault is a shift within the plane", 3 * c.vdot(n, s), [(n[i], 3 * s[i] - sgn * b0[i]) for i in range(3)] + [(sgn, u)])
    c.ensure("no more than the crystal", not t.basis_only)


def hexagonal_kind(w, c, t, st, p, pp):
    if not isinstance(t, w.mod.Translation):
        raise c.T.Unsupported("a defect of another kind")
    s = c.vals(t.shift)
    S = w.S0
    f = []
    for k in (1, 2, -1, -2):
        f.append(c.veq([6 * x for x in s], [2 * k * (S[i][0] - S[i][1]) - 3 * S[i][2] for i in range(3)]))
    c.ensure("a fault is half a cell down the axis and thirds of lattice vectors within the plane", c.or_(*f))
    c.ensure("no more than the crystal", not t.basis_only)


FLAGS = ("twin", "stacking_fault")


def built(c, cls, kw, h, kind, flags, ratio):
    w = world(c, h)
    w.h = h
    N = c.int("N", lo=0)
    sep = w.sep = c.int("sep", lo=0)
    w.ratio = c.real("ratio", lo=0, hi=1) if ratio is None else ratio
    if ratio is None:
        kw["ratio"] = w.ratio
    f = getattr(w.mod, cls)(generator=w.g, volume=w.vol, N=N, min_sep=sep, **kw)
    st = building(c, w, N, h, kind, flags)
    try:
        r = f.build_object(return_defect_types=True)
    except ValueError:
        c.ensure("only a request that does not fit is refused", c.lt(0, N))
        return
    c.cover("an object was built")
    obj, types = r
    c.ensure("one region more than defects", c.eq(c.length(obj.volumes), N + 1))
    if c.case(c.eq(N, 0)):
        c.ensure("nothing placed, nothing reported", c.not_(c.or_(*[c.b(types[k]) for k in flags])))
    else:
        c.ensure("the regions are those made", st.get("vols") is not None)
        j = c.index("region", N + 1)
        c.ensure("regions are in order", obj.volumes.seq_at(c.core.poly(j)) is st["vols"](c.core.poly(j)))
        for name in flags:
            c.ensure("the kinds placed are reported", c.iff(types[name], c.core.SBool(st["ghost"][name])) if len(flags) > 1 else c.b(types[name]))
    if ratio is not None and len(flags) == 2:
        c.ensure("only the kind asked for is reported", c.not_(c.b(types["twin" if ratio == 1 else "stacking_fault"])))
    c.ensure("the crystal given is unchanged", w.g.state[1] == ())
    c.ensure("the volume given is unchanged", w.vol.cuts == ())


PLANES = [(a, b, d) for a in (1, -1) for b in (1, -1) for d in (1, -1)]


@R.proof("defects in cubic crystals", [PF + "fccMixedTwinSF.build_object"], con=0, max_paths=400)
def cubic_proof(c):
    c.mod("czone.prefab.prefab")
    if not c.sym:
        raise dsl.Skip()
    h = c.choice("plane", PLANES)
    built(c, "fccMixedTwinSF", dict(plane=h), h, cubic_kind, FLAGS, None)


@R.proof("one kind of defect", [PF + "fccStackingFault", PF + "fccTwin"], con=0, max_paths=400)
def one_kind(c):
    if not c.sym:
        raise dsl.Skip()
    h = (1, 1, 1)
    if c.choice("kind", ["faults", "twins"]) == "faults":
        built(c, "fccStackingFault", dict(plane=h), h, cubic_kind, FLAGS, 1)
    else:
        built(c, "fccTwin", dict(plane=h), h, cubic_kind, FLAGS, 0)


@R.proof("defects in hexagonal crystals", [PF + "wurtziteStackingFault.build_object"], con=0, max_paths=400)
def hexagonal_proof(c):
    if not c.sym:
        raise dsl.Skip()
    built(c, "wurtziteStackingFault", {}, (0, 0, 2), hexagonal_kind, ("stacking_fault",), 1)
