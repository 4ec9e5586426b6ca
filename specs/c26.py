"""C26 Single crystal equilibrium shapes are bounded by their facets."""
import itertools

import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.prefab.wulff", "czone.volume.volume", "czone.volume.algebraic")
W = "czone.prefab.wulff."
B = W + "WulffBase."
S = W + "WulffSingle."
TRUSTED = ["wulffpack: the particle of given surface energies, primitive cell and size yields its facets, each with a unit normal and its signed distance from the center (which facets those are is checked concretely)"]
KEYS = [(1, 0, 0), (1, 1, 1), (1, 1, 0), (2, 1, 1)]


class Thing:
    pass


class Facets:
    """facets of particles: an arbitrary number of unit normals and signed distances for each particle"""

    def __init__(self, c):
        self.c = c
        self.made = []
        mod = c.mod("czone.prefab.wulff")
        if c.sym:
            mod.Atoms = lambda *a, **k: K.make(Thing, kw=k, args=a)
        mod.SingleCrystal = lambda *a: self.particle("free", a)
        mod.Winterbottom = lambda *a: self.particle("substrate", a)

    def particle(self, kind, args):
        c = self.c
        # equal parameters give equal shapes
        key = (kind, sorted((str(k), repr(v)) for k, v in dict(args[0]).items()) if args else (), [repr(x) for x in args[1:-2]],
               [repr(sorted(x.kw.items())) if isinstance(x, Thing) else repr((x.cell[:].tolist(), x.positions.tolist())) for x in args[-2:-1]], repr(args[-1:]))
        for q in self.made:
            if q.key == key:
                return q
        p = K.make(Thing, key=key, kind=kind, args=args, no=len(self.made), facet_fractions="fractions %d" % len(self.made))
        p.n = c.size("facets%d" % p.no, hi=8)
        fam = "%s%d" % (kind, p.no)
        if c.sym:
            T, P = c.T, c.core.poly
            at = K.family("wulff" + fam)
            N = lambda k: [T.app("facet", (T.const(at), T.const(j), P(k))) for j in range(3)]

            # contract: normals have length one
            c.absfn.FACTS["facet"] = lambda a: [T.eq(sum((T.app("facet", (a[0], T.const(j), a[2])) ** 2 for j in range(3)), T.ZERO), T.ONE)]
            p.normal = lambda k: [c.core.SNum(x) for x in N(k)]
            p.dist = lambda k: c.core.SNum(T.app("facet_at", (T.const(at), P(k))))
            item = lambda k: K.make(Thing, normal=c.arr.SArr.from_terms((3,), "f", N(k)), distance_from_origin=p.dist(k))
            p._yield_facets = lambda: c.lists.SymSeq(P(p.n), lambda k: item(c.core.SNum(k, True)))
        else:
            rng = K.sub_rng(c, fam)
            A = rng.normal(size=(p.n, 3))
            A /= np.linalg.norm(A, axis=1)[:, None]
            d = rng.uniform(-0.5, 4, size=p.n)
            p.normal, p.dist = lambda k: A[k], lambda k: d[k]
            p._yield_facets = lambda: iter([K.make(Thing, normal=A[k].copy(), distance_from_origin=d[k]) for k in range(p.n)])
        p.forms = [K.make(Thing, facets=p._yield_facets() if c.sym else list(p._yield_facets()))]
        self.made.append(p)
        return p


def generator(c, name):
    if not c.sym:
        from specs import gen
        from pymatgen.core import Structure, Lattice
        g = c.cls("czone.generator.generator.Generator")(structure=Structure(Lattice.cubic(K.sub_rng(c, name).uniform(3, 5)), ["Au"], [[0, 0, 0]]))
        g.name = name
        return g
    prim = K.make(Thing, cart_coords="coords " + name, lattice=K.make(Thing, matrix="matrix " + name), species="species " + name)
    cls = K.sub(c, c.cls("czone.generator.generator.Generator"), "AnyGenerator", {
        "__init__": lambda self: None, "structure": property(lambda self: K.make(Thing, get_primitive_structure=lambda: prim))})
    return K.make(cls, name=name)


def shape(c, label, vol, p, g):
    """the volume is the intersection of the inner sides of p's facets and filled by g"""
    N = c.size("n", hi=6)
    X = c.points("X", N)
    r = vol.checkIfInterior(X)
    tol = 1e-5
    c.ensure(label + ": one verdict per point", c.shape_is(r, N))
    for i in c.each("i", N):
        x = c.row(X, i)
        off = lambda k: c.vdot(c.vals(p.normal(k)), x) - p.dist(k)
        if c.sym:
            # the distance from a facet, written so that it also holds for a normal of another length
            def along(k):
                u = c.vals(p.normal(k))
                return c.vdot(u, c.vsub(x, c.vscale(p.dist(k), u))) / c.norm(u)
            k = c.index("k", p.n)
            c.fact("a normal has length one", c.eq(c.norm(c.vals(p.normal(k))), 1))
            c.fact(label + ": the distance from a facet", c.eq(along(k), off(k)))
            c.ensure(label + ": inside exactly when on the inner side of every facet", c.iff(c.item(r, i), c.forall(p.n, lambda k: c.lt(along(k), tol))))
        else:
            v = [off(k) for k in range(p.n)]
            if all(abs(a) > 2 * tol for a in v):
                c.ensure(label + ": inside exactly when inside every facet", bool(r[i]) == all(a < 0 for a in v))
    c.ensure(label + ": as many surfaces as facets", c.eq(c.length(vol.alg_objects), p.n))
    c.ensure(label + ": filled by the crystal given", getattr(vol.generator, "name", None) == g.name)
    c.ensure(label + ": nothing else bounds it", vol.points is None)


def asked(c, label, p, kind, g, energies, natoms, extra=()):
    """the particle was asked for with exactly these parameters"""
    a = p.args
    c.ensure(label + ": the kind of shape", p.kind == kind)
    c.ensure(label + ": the number of parameters", len(a) == 3 + len(extra))
    if len(a) != 3 + len(extra):
        return
    e = dict(a[0])
    c.ensure(label + ": the surfaces", set(e) == set(energies))
    for k in energies:
        c.ensure(label + ": the energy of a surface", c.eq(e[k], energies[k]))
    for x, y in zip(a[1:], extra):
        c.ensure(label + ": the interface", x == y if isinstance(y, tuple) else c.eq(x, y))
    c.ensure(label + ": the size", c.eq(a[-1], natoms))
    at = a[-2]
    if c.sym:
        c.ensure(label + ": the primitive cell of the crystal", at.kw.get("cell") == "matrix " + g.name and at.kw.get("positions") == "coords " + g.name and not at.args)
    else:
        s = g.structure.get_primitive_structure()
        c.ensure(label + ": the primitive cell of the crystal", np.allclose(at.cell[:], s.lattice.matrix) and np.allclose(at.positions, s.cart_coords))


def energies(c, name):
    r = {}
    for k in c.choice(name, [KEYS[:1], KEYS[:3], KEYS]):
        e = c.real("e_%s%s" % (name, "".join(map(str, k))), pos=True)
        r[k] = e if c.sym else float(e)
    return r


@R.proof("free shapes", [S + "__init__", S + "get_construction", S + "wulff", B + "planes_from_wulff", B + "generator", B + "natoms", B + "surface_energies"], con=60)
def free(c):
    f = Facets(c)
    g = generator(c, "first")
    E = energies(c, "E")
    n = c.int("natoms", lo=1, hi=None if c.sym else 5000)
    w = c.cls(W + "WulffSingle")(g, dict(E), n)
    areas = c.choice("areas", [False, True])
    r = w.get_construction(return_facet_areas=True) if areas else w.get_construction()
    c.cover("a shape was built")
    c.ensure("a shape was computed", len(f.made) == 1)
    p = f.made[0]
    asked(c, "first", p, "free", g, E, n)
    shape(c, "first", r[0] if areas else r, p, g)
    if areas:
        c.ensure("the areas are those of the shape", r[1] == p.facet_fractions)
    c.ensure("the areas are those of the shape", w.get_areas() == p.facet_fractions)
    # other parameters: another shape
    what = c.choice("replaced", ["nothing", "energies", "natoms", "generator"])
    if what == "energies":
        E = energies(c, "E2")
        w.surface_energies = dict(E)
    elif what == "natoms":
        n = c.int("natoms2", lo=1, hi=None if c.sym else 5000)
        w.natoms = n
    elif what == "generator":
        g = generator(c, "second")
        w.generator = g
    v = w.get_construction()
    p = f.made[-1]
    asked(c, "again", p, "free", g, E, n)
    shape(c, "again", v, p, g)
    c.ensure("the areas follow", w.get_areas() == p.facet_fractions)


@R.proof("shapes on a substrate", [S + "winterbottom", B + "planes_from_wulff"], con=40)
def substrate(c):
    f = Facets(c)
    g = generator(c, "first")
    E = energies(c, "E")
    n = c.int("natoms", lo=1, hi=None if c.sym else 5000)
    w = c.cls(W + "WulffSingle")(g, dict(E), n)
    if c.choice("before", [False, True]):
        w.get_construction()
    face = c.choice("interface", KEYS[1:3])
    e = c.real("interface_energy")
    v = w.winterbottom(face, e)
    c.cover("a shape was built")
    p = f.made[-1]
    asked(c, "on a substrate", p, "substrate", g, E, n, (face, e))
    shape(c, "on a substrate", v, p, g)
    # nothing of it stays behind
    v = w.get_construction()
    free = [q for q in f.made if q.kind == "free"]
    asked(c, "free", free[-1], "free", g, E, n)
    shape(c, "free", v, free[-1], g)


@R.proof("facets of a form", [B + "planes_from_form"], con=30)
def form(c):
    f = Facets(c)
    p = f.particle("free", ())
    planes = c.cls(W + "WulffBase").planes_from_form(p.forms[0])
    c.ensure("one plane per facet", c.eq(c.length(planes), p.n))
    k = c.size("k", hi=8)
    c.require(c.lt(k, p.n))
    q = c.list_at(planes, k)
    u, d = c.vals(p.normal(k)), p.dist(k)
    c.ensure("a plane has the normal of its facet", c.veq(c.vals(q.normal), u))
    c.ensure("a plane goes through its facet", c.veq(c.vals(q.point), c.vscale(d, u)))


FAMILIES = {"cube": [(0, 0, 1)], "cuboctohedron": [(0, 0, 1), (1, 1, 1)], "octohedron": [(1, 1, 1)], "truncated_octohedron": [(0, 0, 1), (0, 1, 1), (1, 1, 1)]}


@R.proof("convenience shapes", [S + k for k in FAMILIES], con=40)
def convenience(c):
    f = Facets(c)
    g = generator(c, "first")
    kind = c.choice("kind", list(FAMILIES))
    make = getattr(c.cls(W + "WulffSingle"), kind)
    if c.choice("size", [True, False]):
        n = c.int("natoms", lo=1, hi=None if c.sym else 5000)
        v = make(g, n) if c.choice("how", [True, False]) else make(g, natoms=n)
    else:
        n = 1000
        v = make(g)
    c.cover("a shape was built")
    p = f.made[-1]
    e = dict(p.args[0])
    c.ensure("the surface families are the documented ones", sorted(tuple(sorted(abs(i) for i in k)) for k in e) == FAMILIES[kind])
    c.ensure("every energy is positive", all(float(x) > 0 for x in e.values()))
    asked(c, "convenience", p, "free", g, e, n)
    shape(c, "convenience", v, p, g)


def family(k):
    return sorted({tuple(x * q for x, q in zip(p, sg)) for p in itertools.permutations(k) for sg in itertools.product((1, -1), repeat=3)})


@R.scenario("real shapes", quick=30, thorough=400, cap=60)
def real(s):
    from czone.generator import Generator
    from czone.prefab.wulff import WulffSingle
    from pymatgen.core import Structure, Lattice
    rng = s.rng
    a = rng.uniform(3.5, 6)
    kinds = {"fcc": (["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), "bcc": (["Fe"] * 2, [[0, 0, 0], [.5, .5, .5]]), "sc": (["Po"], [[0, 0, 0]])}
    Z, F = kinds[str(rng.choice(list(kinds)))]
    g = Generator(structure=Structure(Lattice.cubic(a), Z, F))
    n = int(rng.integers(20, 3000))
    size = n * a ** 3 / len(Z)
    keys = [KEYS[i] for i in sorted(rng.choice(4, size=int(rng.integers(1, 5)), replace=False))]
    E = {tuple(int(x) for x in k): float(rng.uniform(0.9, 1.3)) for k in keys}
    how = str(rng.choice(["free", "cube", "cuboctohedron", "octohedron", "truncated_octohedron", "substrate"]))
    c111 = {"cube": {(1, 0, 0)}, "cuboctohedron": {(1, 0, 0), (1, 1, 1)}, "octohedron": {(1, 1, 1)}, "truncated_octohedron": {(1, 0, 0), (1, 1, 0), (1, 1, 1)}}
    w = WulffSingle(g, E, n)
    if how == "free":
        v, areas = w.get_construction(return_facet_areas=True)
        s.check("the areas are reported", set(areas) == set(w.get_areas()) and abs(sum(areas.values()) - 1) < 1e-6)
        if rng.random() < 0.5:
            # other parameters
            n = int(rng.integers(20, 3000))
            size = n * a ** 3 / len(Z)
            w.natoms = n
            if rng.random() < 0.5:
                E = {k: float(rng.uniform(0.9, 1.3)) for k in E}
                w.surface_energies = E
            v = w.get_construction()
    elif how == "substrate":
        v = None
    else:
        v = getattr(WulffSingle, how)(g, natoms=n)
    if how == "substrate":
        face = tuple(int(x) for x in KEYS[int(rng.integers(2))])
        e = float(rng.uniform(-0.4, 0.4) * min(E.values()))
        v = w.winterbottom(face, e)
        A = np.array([q.normal for q in v.alg_objects])
        d = np.array([np.dot(q.normal, q.point) for q in v.alg_objects])
        s.check("normals have length one", np.allclose(np.linalg.norm(A, axis=1), 1))
        # the frame of the shape: the interface faces down
        i = int(np.argmin(A[:, 2]))
        s.close("the interface faces down", A[i], [0, 0, -1], 1e-6)
        # every facet is at a distance in proportion to its energy
        rest = [j for j in range(len(d)) if j != i]
        ratios = {round(e2, 9): None for e2 in E.values()}
        f = d[i] / e
        s.check("distances are in proportion to the energies", all(min(abs(d[j] - f * e2) for e2 in E.values()) < 1e-5 * size ** (1 / 3) for j in rest))
    else:
        want = set(E) if how == "free" else c111[how]
        A = np.array([q.normal for q in v.alg_objects])
        d = np.array([np.dot(q.normal, q.point) for q in v.alg_objects])
        seen = {}
        for j in range(len(d)):
            hit = [k for k in want for m in family(k) if np.allclose(A[j], np.array(m) / np.linalg.norm(m), atol=1e-6)]
            s.check("every facet is of a surface family asked for", len(hit) == 1)
            seen.setdefault(hit[0], []).append(j)
        for k, js in seen.items():
            s.check("all facets of a family are there, once", len(js) == len(family(k)))
            s.close("equally far", d[js], np.full(len(js), d[js[0]]), 1e-6 * size ** (1 / 3))
        if how == "free":
            f = [d[js[0]] / E[k] for k, js in seen.items()]
            s.close("distances are in proportion to the energies", f, np.full(len(f), f[0]), 1e-6 * size ** (1 / 3))
        else:
            s.check("each family of the shape shows", set(seen) == want)
    # the region and its size
    from scipy.spatial import HalfspaceIntersection, ConvexHull
    inner = np.zeros(3) if d.min() > 0 else None
    if inner is None:
        from scipy.optimize import linprog
        q = linprog([0, 0, 0, -1], A_ub=np.c_[A, np.ones(len(d))], b_ub=d, bounds=[(None, None)] * 3 + [(0, None)])
        inner = q.x[:3]
    hull = ConvexHull(HalfspaceIntersection(np.c_[A, -d], inner).intersections)
    s.close("the size is that of the atoms asked for", hull.volume, size, 1e-3 * size)
    X = rng.normal(size=(60, 3)) * size ** (1 / 3) * 0.6
    off = (X @ A.T - d).max(axis=1)
    r = v.checkIfInterior(X)
    far = np.abs(off) > 1e-4
    s.check("inside exactly when inside every facet", np.array_equal(r[far], off[far] < 0))
    s.check("filled by the crystal given", np.allclose(v.generator.voxel.sbases, g.voxel.sbases) and np.array_equal(v.generator.species, g.species) and v.generator is not None and v.points is None)
