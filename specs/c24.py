"""C24 Adsorbates are placed rigidly at the bond length from an allowed surface atom."""
import itertools

import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.surface.adsorbate", "czone.surface.alpha_shape", "czone.molecule.molecule", "czone.transform.transform", "czone.volume.volume")
S = "czone.surface.adsorbate."
MO = "czone.molecule.molecule."
ASSUMPTIONS = [
    "no neighbor offset equals, in all three components, the 1e-10 from which the search for the normal starts",
    "the neighbors of a surface atom in the triangulation are one or more other atoms, none of them at its place (get_nearest_neighbors, checked concretely)",
    "a decay between 0 and 1 raised to a whole power lies between 0 and 1, and below 1 for a power of one or more",
]


class Seen:
    """what was asked of the callees"""


def volume(c, n):
    T, A = c.T, c.arr
    cls = K.sub(c, c.cls("czone.volume.volume.BaseVolume"), "AnyVolume", {
        "__init__": lambda self: None,
        "checkIfInterior": lambda self, pts: K.verdicts(c, lambda x: T.bapp("in_vol", list(x)), pts),
        "transform": lambda self, t: None,
        "populate_atoms": lambda self: (_ for _ in ()).throw(T.Unsupported("the volume is populated again")),
    })
    v = K.make(cls)
    v.__dict__["_atoms"] = c.points("VX", n)
    v.__dict__["_species"] = c.array("VZ", (n,), kind="i", lo=1, hi=94)
    v.__dict__["_priority"] = 0
    v.__dict__["_transformation"] = None
    return v


def contracts(c, mod, n, vol, lengths):
    """the alpha shape, the neighbors, the approximate normal and the rotations, replaced by their contracts"""
    T, SA, P = c.T, c.arr.SArr, c.core.poly
    s = Seen()
    s.calls, s.targets, s.normals, s.rots = [], [], [], []

    def shape(name):
        def f(points, probe_radius, *a, **k):
            # some atoms, each once (C23)
            if not k.get("return_alpha_shape"):
                raise T.Unsupported("an alpha shape without its triangulation")
            P = c.arr.to_arr(points)
            m, st = T.fresh("nsurf", True), T.fresh("surf", True)
            c.E.assume(T.le(T.ONE, m))
            F = c.absfn.FACTS
            F["surf"] = lambda args: [T.implies(c.absfn.rng(args[2], args[0]), c.absfn.rng(T.app("surf", args, True), args[1]))]
            N = c.arr.dp(P.sh[0])
            at = lambda k: c.core.SNum(T.app("surf", (m, N, k, st), True), True)
            s.calls.append((name, P.fresh_copy(), (m, N, st), probe_radius))
            return c.lists.SList.symbolic(m, at), {"shape": st}
        return f
    mod.alpha_shape_alg_3D = shape("jitter")
    mod.alpha_shape_alg_3D_with_sampling = shape("sampling")

    def neighbors(target_idx, shape_dict, *a, **k):
        s.targets.append(target_idx)
        m, st = T.fresh("nnear", True), T.fresh("near", True)
        c.E.assume(T.le(T.ONE, m))
        c.absfn.FACTS["near"] = lambda args: [T.implies(c.absfn.rng(args[2], args[0]), c.absfn.rng(T.app("near", args, True), args[1]))]
        N = c.core.poly(n)
        # a neighbor is another atom, elsewhere
        if lengths:
            c.require(c.forall(c.core.SNum(m, True), lambda k: c.lt(0, c.norm2(c.vsub(c.row(vol.atoms, c.core.SNum(T.app("near", (m, N, P(k), st), True), True)), c.row(vol.atoms, target_idx))))))
        return SA((m,), "i", lambda ix: T.app("near", (m, N, ix[0], st), True))
    mod.get_nearest_neighbors = neighbors

    def normal(points, *a, **k):
        i = c.index("i", points.shape[0])
        if lengths:
            c.ensure("the normal is that of offsets no longer than one", c.le(c.norm2(c.row(points, i)), 1))
        c.ensure("there are offsets", c.le(1, points.shape[0]))
        w = [T.fresh("w", False) for _ in range(3)]
        c.E.assume(T.eq(sum((x * x for x in w), T.ZERO), T.ONE))
        s.normals.append(w)
        return SA.from_terms((3,), "f", w)
    mod.find_approximate_normal = normal

    def rot(kind):
        def f(*a):
            Q = c.rotation("Q%d" % len(s.rots))
            s.rots.append((kind, a, Q))
            return Q
        return f
    mod.rot_vtv = rot("vtv")
    mod.rot_v = rot("v")
    return s


def loops(c):
    from vc import rt, npx

    def rule(cond, body, cells, qual, line):
        if "add_adsorbate" not in qual:
            return NotImplemented
        return rt.last_iteration(cond, body, cells, lambda: rt.forget(cond, body, cells))
    rt.WHILE_RULES[:] = [rule]


@R.proof("an approximate normal", [S + "find_approximate_normal"], con=200, time=300)
def approximate(c):
    f = c.mod("czone.surface.adsorbate").find_approximate_normal
    T, P = c.T if c.sym else None, c.core.poly if c.sym else None
    n = c.size("n", lo=1, hi=6)
    A = c.points("A", n)
    START = 1e-10
    if not c.sym:
        A /= np.maximum(1, np.linalg.norm(A, axis=1))[:, None]
    # as the caller makes them: no longer than the nearest neighbor's
    for_all = lambda g: c.require(c.forall(n, g))
    for_all(lambda i: c.le(c.norm2(c.row(A, i)), 1 if c.sym else 1 + 1e-9))
    for_all(lambda i: c.not_(c.veq(c.row(A, i), [START] * 3)))
    A0 = c.snapshot(A)
    decay = c.real("decay") if c.sym else c.rng.uniform(0.01, 0.99)
    c.require(c.and_(c.lt(0, decay), c.lt(decay, 1)))
    margin, tol = c.real("margin"), c.real("tol")
    steps = c.size("steps", lo=1, hi=50)
    seed = c.int("seed", lo=0)
    if c.sym:
        normal_loop(c, steps, A, decay)
    w = f(A, decay=decay, tol=tol, margin=margin, seed=seed, max_steps=steps)
    c.cover("a normal was found")
    c.ensure("the normal is a unit vector", c.and_(c.shape_is(w, 3), c.eq(c.norm2(c.vals(w)), 1)))
    c.same("the points are unchanged", A, A0)


def learnt(c, w, x, p):
    """lemma: a unit vector w and a vector x no longer than one, scaled by a factor p between 0 and 1, differ"""
    T, E = c.T, c.E

    def lemma(label, f, *args):
        # for all reals: shown for arbitrary ones, then used for these
        E.oblige(label, f(*[T.fresh("v", False) for _ in args]), kind="lemma")
        E.assume(f(*args))
    s, q, ww = (sum((a * b for a, b in zip(u, v)), T.ZERO) for u, v in ((w, x), (x, x), (w, w)))
    cross = [w[1] * x[2] - w[2] * x[1], w[2] * x[0] - w[0] * x[2], w[0] * x[1] - w[1] * x[0]]
    rest = sum((a * a for a in cross), T.ZERO)
    E.oblige("Lagrange", T.eq(q * ww - s * s, rest), kind="lemma")
    E.oblige("squares are not negative", T.le(T.ZERO, rest), kind="lemma")
    # k: the rest, by definition
    k = T.fresh("rest", False)
    E.assume(T.and_(T.eq(k, rest), T.le(T.ZERO, k)))
    c.lincomb("Lagrange for a unit vector", q - s * s - k, [(T.ZERO - q, ww - T.ONE), (T.const(-1), k - rest)])
    c.fact("Cauchy and Schwarz", c.core.SBool(T.le(s * s, q)))
    c.fact("no longer than one", c.core.SBool(T.le(q, T.ONE)))
    lemma("a step shorter than the guess", lambda s, q, p: T.implies(T.and_(T.le(s * s, q), T.le(q, T.ONE), T.lt(T.ZERO, p), T.lt(p, T.ONE)),
          T.lt(T.ZERO, T.ONE - T.const(2) * p * s + p * p * q)), s, q, p)


def normal_loop(c, steps, A, decay):
    """the loop's invariant: nothing was learned, or the guess is a unit vector after one or more steps"""
    from vc import rt
    T, P = c.T, c.core.poly
    SL, SA = c.lists.SList, c.arr.SArr
    c.absfn.FACTS["pow"] = lambda a: [T.implies(T.and_(T.lt(T.ZERO, a[0]), T.lt(a[0], T.ONE), T.le(T.ONE, a[1])),
                                                T.and_(T.lt(T.ZERO, T.app("pow", a)), T.lt(T.app("pow", a), T.ONE)))]

    def rule(cond, body, cells, qual, line):
        if "find_approximate_normal" not in qual:
            return NotImplemented
        cell = {nm: (g, p) for nm, g, p in cells}
        guess, counts, flags = None, [], []
        for nm, (g, _) in cell.items():
            try:
                v = g()
            except Exception:
                continue
            if isinstance(v, SA) and v.sh == (3,):
                guess = nm if guess is None else ""
            elif isinstance(v, (bool, c.core.SBool)):
                flags.append(nm)
            elif isinstance(v, int):
                counts.append(nm)
        hist = [v for v in rt.closure_env(cond, body).values() if isinstance(v, SL)]
        if not guess or len(hist) != 1 or len(counts) != 2:
            raise T.Unsupported("the search keeps other things than a guess, its history and two counts")
        hist = hist[0]
        ups = "j" if "j" in counts else counts[-1]
        it = [x for x in counts if x != ups][0]
        val = lambda nm: c.core.SNum(P(cell[nm][0]()), True)
        w0 = c.vals(cell[guess][0]().copy())

        def check(label):
            w, j, i = c.vals(cell[guess][0]()), val(ups), val(it)
            c.fact(label + ": iterations are counted", c.and_(c.le(0, i), c.lt(i, steps)))
            c.fact(label + ": the guess is the first one, or a unit vector", c.or_(
                c.and_(c.eq(j, 0), c.veq(w, w0)), c.and_(c.le(1, j), c.eq(c.norm2(w), 1))))

        def havoc(inside):
            i = T.fresh("i", True)
            c.E.assume(T.and_(T.le(T.ZERO, i), T.lt(i, P(steps))))
            cell[it][1](c.core.SNum(i, True))
            m = T.fresh("len", True)
            c.E.assume(T.le(T.ZERO, m))
            st = T.fresh("hist", True)
            hist._rec()
            list.__delitem__(hist, slice(None))
            hist.sym = SL.symbolic(m, lambda k: c.core.SNum(T.app("gain", (k, st)))).sym
            if c.E.branch(T.bapp("first", [T.fresh("first", True)])):
                cell[ups][1](0)
                cell[guess][1](SA.from_terms((3,), "f", [P(x) for x in w0]))
            else:
                j = T.fresh("j", True)
                c.E.assume(T.le(T.ONE, j))
                cell[ups][1](c.core.SNum(j, True))
                w = [T.fresh("w", False) for _ in range(3)]
                c.E.assume(T.eq(sum((x * x for x in w), T.ZERO), T.ONE))
                cell[guess][1](SA.from_terms((3,), "f", w))
                if inside:
                    draws = [v for v in rt.closure_env(cond, body).values() if isinstance(v, SA) and len(v.sh) == 1 and v.kind == "i"]
                    if len(draws) == 1:
                        learnt(c, w, [P(x) for x in c.row(A, c.item(draws[0], c.core.SNum(i, True)))], T.app("pow", (P(decay), j)))
            for nm in flags:
                cell[nm][1](c.core.SBool(T.bapp("flag", [T.fresh("flag", True)])))
            return [guess, it, ups] + flags
        return rt.invariant_loop(cond, body, cells, "the search", check, havoc)
    rt.WHILE_RULES[:] = [rule]


# origin of the molecule, debugging, sampled surface, seeded, turned molecule, filters
CASES = [("tracked", False, True, True, False, ()), ("point", True, False, True, True, ("element",)), ("default", False, False, False, False, ("elements",)),
         ("default", True, True, False, True, ("mask",)), ("tracked", False, False, True, True, ("indices",)), ("point", False, True, True, False, ("spatial",)),
         ("tracked", True, False, True, False, ("element", "spatial")), ("default", False, True, True, True, ("indices", "mask")),
         ("point", False, False, False, False, ("element", "elements", "spatial"))]


@R.proof("a placed adsorbate", [S + "add_adsorbate", MO + "BaseMolecule.transform", MO + "BaseMolecule.set_origin", MO + "BaseMolecule.from_molecule"], con=0, time=300)
def placed(c):
    from specs import c22
    mod = c.mod("czone.surface.adsorbate")
    T, P = c.T, c.core.poly
    n = c.size("nv", lo=1)
    v = volume(c, n)
    X0, Z0 = c.snapshot(v.atoms), c.snapshot(v.species)
    how, debug, sampling, seeded, ori, names = c.choice("case", CASES)
    s = contracts(c, mod, n, v, names == ())
    loops(c)
    m = c22.molecule(c, "m", lo=1, origin=(how,))
    mol = m.mol
    if ori:
        mol.orientation = c.rotation("O")
    b = c.index("b", m.n)
    L = c.real("L", pos=True)
    turn = c.real("turn")
    # contract of the table of elements
    mod.Element = lambda x: K.make(Seen, Z={"Au": 79}[x])
    filters, allowed = {}, []
    for k, nm in enumerate(names):
        if nm == "element":
            z = c.int("z%d" % k, lo=1, hi=94)
            filters["element"] = [z]
            allowed.append(lambda i, z=z: c.eq(c.item(Z0, i), z))
        elif nm == "elements":
            z = c.int("z%d" % k, lo=1, hi=94)
            filters["element2"] = ["Au", z]
            allowed.append(lambda i, z=z: c.or_(c.eq(c.item(Z0, i), 79), c.eq(c.item(Z0, i), z)))
        elif nm == "mask":
            M = c.array("mask", (n,), kind="b")
            M0 = c.snapshot(M)
            filters["mask1"] = M
            allowed.append(lambda i: c.item(M0, i))
        elif nm == "indices":
            q = c.size("nq", lo=1)
            I = c.array("I", (q,), kind="i", lo=0)
            c.require(c.forall(q, lambda j: c.lt(c.item(I, j), n)))
            filters["indices"] = I
            allowed.append(lambda i: c.exists(q, lambda j: c.eq(c.item(I, j), i)))
        else:
            good = lambda x: T.bapp("nice", x)
            filters["spatial"] = lambda X: K.verdicts(c, good, X)
            allowed.append(lambda i: c.core.SBool(good([P(x) for x in c.row(X0, i)])))
    kw = {"seed": c.int("seed", lo=0)} if seeded else {}
    try:
        r = mod.add_adsorbate(mol, b, L, v, mol_rotation=turn, filters=filters, debug=debug, use_sampling=sampling, **kw)
    except ValueError:
        # no atom is allowed
        if not s.calls:
            raise
        return
    c.cover("an adsorbate was placed")
    out = r[0]
    c.ensure("one alpha shape of the volume's atoms", len(s.calls) == 1 and len(s.targets) == 1)
    name, A, (ns, N_, st), _ = s.calls[0]
    for i in c.each("i", n):
        c.ensure("the surface is that of the volume's atoms", c.veq(c.row(A, i), c.row(X0, i)))
    t = s.targets[0]
    c.fact("the atom chosen is an atom", c.and_(c.le(0, t), c.lt(t, n)))
    if debug:
        c.ensure("the atom reported is the one chosen", c.eq(r[1], t))
    c.ensure("the atom chosen is a surface atom", c.exists(c.core.SNum(ns, True), lambda k: c.eq(c.core.SNum(T.app("surf", (ns, N_, P(k), st), True), True), t)))
    for f in allowed:
        c.ensure("the atom chosen satisfies every filter", f(t))
    # rigid motion
    c.ensure("as many atoms as the molecule", c.shape_is(out.atoms, m.n, 3))
    c.ensure("one element per atom", c.shape_is(out.species, m.n))
    w = [c.core.SNum(x) for x in s.normals[-1]] if s.normals else None
    Qs = [q for _, _, q in s.rots]
    if w is None or [k for k, _, _ in s.rots] != ["vtv", "v"]:
        raise T.Unsupported("a placement by other rotations")
    (_, (va, vb), q1), (_, (ax, an), q2) = s.rots
    c.ensure("the molecule is turned towards the normal and about it", c.and_(c.veq(c.vals(c.np.array(vb)), w), c.veq(c.vals(c.np.array(ax)), w), c.eq(an, turn)))
    O = c.rows(mol.orientation)
    c.ensure("the vector turned is the molecule's z", c.veq(c.vals(c.np.array(va)), [O[a][2] for a in range(3)]))
    M = c.mulmm(c.rows(q2), c.rows(q1))
    xb = c.row(m.X0, b)
    at = c.vadd(c.row(X0, t), c.vscale(L, w))
    for i in c.each("j", m.n):
        c.ensure("the atoms keep their elements", c.eq(c.item(out.species, i), c.item(m.Z0, i)))
        c.ensure("the molecule is moved rigidly", c.veq(c.row(out.atoms, i), c.vadd(at, c.mulmv(M, c.vsub(c.row(m.X0, i), xb)))))
    d = c.vsub(c.row(out.atoms, b), c.row(X0, t))
    if c.sym:
        c.lincomb("the bonding atom's distance", c.norm2(d) - L * L, [(L * L, c.norm2(w) - 1)])
    c.ensure("the bonding atom is at the bond length from the atom chosen", c.eq(c.norm2(d), L * L))
    if not debug:
        free = c.forall(m.n, lambda i: c.not_(c.core.SBool(T.bapp("in_vol", [P(x) for x in c.row(out.atoms, i)]))))
        flag = r[1]
        c.ensure("success is reported exactly when no atom lies in the volume", c.iff(flag, free) if not isinstance(flag, bool) else (free if flag else c.not_(free)))
    c22.unchanged(c, "the molecule given", m)
    c.same("the volume keeps its atoms", v.atoms, X0)
    c.same("the volume keeps its elements", v.species, Z0)
    if "mask1" in filters:
        c.same("masks are unchanged", filters["mask1"], M0)


def world(s):
    """a small crystal in a solid, its atoms, and a test of the solid"""
    from czone.generator import Generator
    from czone.volume import Volume, makeRectPrism
    from czone.volume.algebraic import Sphere, Plane
    from pymatgen.core import Structure, Lattice
    rng = s.rng
    a = rng.uniform(3.6, 4.6)
    kinds = [["Au", "Au", "Au", "Au"], ["Au", "Cu", "Cu", "Cu"], ["Na", "Cl", "Na", "Cl"]][int(rng.integers(3))]
    g = Generator(structure=Structure(Lattice.cubic(a), kinds, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), origin=rng.normal(size=3) * 3)
    at = rng.normal(size=3) * 5
    r = rng.uniform(1.5, 2.0) * a
    if rng.random() < 0.5:
        ball = Sphere(r, at)
        plane = None
        if rng.random() < 0.5:
            nrm = rng.normal(size=3)
            plane = Plane(nrm / np.linalg.norm(nrm), at + nrm / np.linalg.norm(nrm) * 0.5 * r)
        v = Volume(alg_objects=[ball] + ([plane] if plane is not None else []), generator=g)

        def inside(X):
            q = np.linalg.norm(X - at, axis=1) < r
            if plane is not None:
                q &= (X - plane.point) @ plane.normal < 0
            return q
        edge = lambda X: np.abs(np.linalg.norm(X - at, axis=1) - r).min() if plane is None else min(np.abs(np.linalg.norm(X - at, axis=1) - r).min(), np.abs((X - plane.point) @ plane.normal).min())
    else:
        w = rng.uniform(2.6, 3.6, size=3) * a
        v = Volume(points=makeRectPrism(*w) + at, generator=g)
        low = (makeRectPrism(*w) + at).min(axis=0)
        inside = lambda X: np.all((X > low) & (X < low + w), axis=1)
        edge = lambda X: min(np.abs(X - low).min(), np.abs(X - low - w).min())
    v.populate_atoms()
    return v, inside, edge, r


@R.scenario("real adsorbates", quick=24, thorough=300, cap=60)
def real(s):
    import contextlib
    import io
    from czone.molecule import Molecule
    from czone.surface import adsorbate as M
    rng = s.rng
    v, inside, edge, r = world(s)
    if v.atoms.shape[0] < 20:
        s.skip("too few atoms")
    X, Z = v.atoms.copy(), v.species.copy()
    k = int(rng.integers(1, 5))
    how = int(rng.integers(3))
    Y, E = rng.normal(size=(k, 3)) * rng.choice([0.7, 2.5]), rng.integers(1, 30, size=k)
    mol = Molecule(E, Y, **({} if how == 0 else {"origin": int(rng.integers(k))} if how == 1 else {"origin": rng.normal(size=3)}))
    if rng.random() < 0.4:
        from czone.transform.transform import rot_v
        mol.orientation = rot_v(rng.normal(size=3), rng.uniform(0, 3))
    O, o = mol.orientation.copy(), np.array(mol.origin).copy()
    b = int(rng.integers(k))
    L = rng.uniform(0.5, 4)
    seed = int(rng.integers(10 ** 6))
    filters, ok = {}, np.ones(X.shape[0], bool)
    for nm in rng.permutation(["element", "mask", "indices", "spatial", "elementB"])[:int(rng.integers(0, 4))]:
        if nm == "element":
            z = int(rng.choice(Z))
            filters[str(nm)] = [z]
            ok &= Z == z
        elif nm == "elementB":
            from pymatgen.core import Element
            zs = sorted({int(rng.choice(Z)) for _ in range(2)})
            filters[str(nm)] = [Element.from_Z(z).symbol if rng.random() < 0.5 else z for z in zs]
            ok &= np.isin(Z, zs)
        elif nm == "mask":
            q = rng.random(X.shape[0]) < 0.7
            filters["mask1"] = q
            ok &= q
        elif nm == "indices":
            q = rng.choice(X.shape[0], size=max(1, int(X.shape[0] * 0.7)), replace=False)
            filters["indices"] = q if rng.random() < 0.5 else [int(x) for x in q]
            ok &= np.isin(np.arange(X.shape[0]), q)
        else:
            d = rng.normal(size=3)
            filters["spatial"] = lambda P, d=d: (P - X.mean(axis=0)) @ d > 0
            ok &= (X - X.mean(axis=0)) @ d > 0
    sampling = bool(rng.random() < 0.5)
    turn = float(rng.uniform(-4, 4)) if rng.random() < 0.7 else 0.0
    seen = []
    real_normal = M.find_approximate_normal

    def watch(*a, **kw):
        w = real_normal(*a, **kw)
        seen.append((np.array(a[0] if a else kw["points"]), w.copy()))
        return w
    surf = []
    names = ("alpha_shape_alg_3D", "alpha_shape_alg_3D_with_sampling")
    olds = [getattr(M, q) for q in names]

    def spy(f):
        def g(*a, **kw):
            out = f(*a, **kw)
            surf.append([int(x) for x in (out[0] if kw.get("return_alpha_shape") else out)])
            return out
        return g
    M.find_approximate_normal = watch
    for q, f in zip(names, olds):
        setattr(M, q, spy(f))
    before = (mol.atoms.copy(), mol.species.copy())
    opts = dict(mol_rotation=turn, filters=filters, use_sampling=sampling)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            # the alpha shape without samples draws on numpy's global generator
            np.random.seed(seed)
            try:
                out, t, *_ = M.add_adsorbate(mol, b, L, v, debug=True, seed=seed, **opts)
            except ValueError:
                s.check("refused only when no surface atom is allowed", surf and not ok[surf[-1]].any())
                return
            s.check("the surface was computed", len(surf) == 1)
            s.check("the chosen atom is a surface atom", int(t) in surf[-1])
            np.random.seed(seed)
            again, flag = M.add_adsorbate(mol, b, L, v, seed=seed, **opts)
    finally:
        M.find_approximate_normal = real_normal
        for q, f in zip(names, olds):
            setattr(M, q, f)
    s.check("the chosen atom satisfies every filter", ok[t])
    s.close("equal seeds give equal placements", again.atoms, out.atoms, 1e-9)
    s.check("the elements are the molecule's", np.array_equal(out.species, before[1]))
    d = out.atoms[b] - X[t]
    s.close("the bond length", np.linalg.norm(d), L, 1e-7)
    s.check("every normal is a unit vector", all(abs(np.linalg.norm(w) - 1) < 1e-9 for _, w in seen))
    s.check("normals are found from offsets no longer than one", all(np.linalg.norm(P, axis=1).max() <= 1 + 1e-9 for P, _ in seen))
    n = d / L
    s.close("the bond is along the normal found last", n, seen[-1][1], 1e-7)
    # the motion is a proper rotation: z goes to the normal; distances and handedness are kept
    U, V = before[0] - before[0][b], out.atoms - out.atoms[b]
    s.close("distances are kept", V @ V.T, U @ U.T, 1e-7 * (1 + np.abs(U @ U.T).max()))
    z = O[:, 2]
    s.close("the molecule's z points along the normal", V @ n, U @ z, 1e-7 * (1 + np.abs(U).max()))
    if k >= 3:
        for i in range(k):
            for j in range(i):
                s.close("handedness", np.linalg.det([V[i], V[j], n]), np.linalg.det([U[i], U[j], z]), 1e-6 * (1 + np.abs(U).max() ** 2))
    if edge(out.atoms) > 1e-6:
        s.check("success exactly when no atom lies inside", bool(flag) == (not inside(out.atoms).any()))
    s.check("the molecule is unchanged", np.array_equal(mol.atoms, before[0]) and np.array_equal(mol.species, before[1]) and np.array_equal(mol.orientation, O) and np.allclose(mol.origin, o))
    s.check("the volume is unchanged", np.array_equal(v.atoms, X) and np.array_equal(v.species, Z))
    # a turn about the normal turns the molecule by that angle
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        plain, *_ = M.add_adsorbate(mol, b, L, v, debug=True, seed=seed, **dict(opts, mol_rotation=0.0))
    W = plain.atoms - plain.atoms[b]
    ct, st = np.cos(turn), np.sin(turn)
    s.close("the turn about the normal", V, W * ct + np.cross(n, W) * st + np.outer(W @ n, n) * (1 - ct), 1e-6 * (1 + np.abs(U).max()))
