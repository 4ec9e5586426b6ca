"""C07 Crystals are filled completely, correctly and without duplicates."""
from vc.spec import Registry
from specs import common as K
from specs import gen as GN
import numpy as _np

R = Registry()
MODULES = ("czone.generator.generator", "czone.volume.voxel")
G = "czone.generator.generator."
VX = "czone.volume.voxel."


def inverse3(c, B):
    d = c.det3(B)
    cof = [c.vcross(B[1], B[2]), c.vcross(B[2], B[0]), c.vcross(B[0], B[1])]
    return [[cof[j][i] / d for j in range(3)] for i in range(3)]


def hull_facts(c, P, n, p, rows):
    """p lies in the convex hull of the rows of P: no direction separates it; stated for the given directions"""
    for j, w in enumerate(rows):
        lo, hi = c.index("lo%d" % j, n), c.index("hi%d" % j, n)
        c.require(c.le(c.vdot(w, c.row(P, lo)), c.vdot(w, p)))
        c.require(c.le(c.vdot(w, p), c.vdot(w, c.row(P, hi))))


def coeff(T, p, a):
    """the coefficient of an atom that occurs linearly"""
    r = T.ZERO
    for m, k in p.d.items():
        d = dict(m)
        e = d.pop(a, 0)
        if e == 0:
            continue
        if e != 1:
            raise T.Unsupported("a coordinate that is not linear in the cell")
        q = T.const(k)
        for x, y in d.items():
            q = q * T.atom_poly(x) ** y
        r = r + q
    return r


class Sites:
    """the crystal sites that supplied rows are: whole-number coordinates and index in the cell, as terms of the row"""

    def __init__(self, c, x, at, sp):
        T = c.T
        self.c, self.x = c, x
        self.A, self.S = c.arr.to_arr(at), c.arr.to_arr(sp)
        self.N = c.core.SNum(c.arr.dp(self.A.sh[0]), True)
        self.r = T.var("_row", True)
        z = c.core.poly(c.core.SNum(self.S.get((self.r,)))).single_atom()
        if z is None or z.kind != "app" or z.name != "Z":
            raise T.Unsupported("species that are not those of the cell: %r" % (self.S.get((self.r,)),))
        self.it = z.args[0]
        p = self.A.get((self.r, T.ZERO))
        self.ut = []
        for b in range(3):
            a = T.var("cell_%d_0" % b).single_atom()
            self.ut.append(coeff(T, p, a) - c.arr.to_arr(x.frac_array).get((self.it, T.const(b))))

    def at(self, r):
        """(whole-number coordinates, index)"""
        T, c = self.c.T, self.c
        mp = {self.r: c.core.poly(r)}
        return [c.core.SNum(T.subst(u, mp), u.is_int) for u in self.ut], c.core.SNum(T.subst(self.it, mp), True)

    def row(self, uvw, i, idxs):
        from vc import dsl
        c = self.c
        R = dsl.invert(c, [(u, c.core.poly(v)) for u, v in zip(self.ut, uvw)] + [(self.it, c.core.poly(i))], self.r)
        if R is None:
            raise c.T.Unsupported("the position of an atom in the supplied list: %r" % (self.ut,))
        dsl.ext_lemmas(c, R, idxs, "the extent of the region")
        dsl.flat_lemmas(c, R, "the position of the site in the list")
        return c.core.SNum(R, True)


@R.proof("supply", [G + "Generator.supply_atoms", VX + "Voxel.get_extents", VX + "Voxel.sbases", G + "Generator.__init__", G + "Generator.structure",
                    G + "Generator.species", G + "Generator.coords"], con=60)
def supply(c):
    x = GN.crystal(c)
    n = c.size("nb", lo=1)
    P = c.points("bbox", n)
    P0 = c.snapshot(P)
    at, sp = x.gen.supply_atoms(P)
    c.cover("atoms are supplied")
    if not c.sym:
        GN.check_fill(lambda l, b: c.ensure(l, bool(b)), x.B, x.o, x.frac_array, x.Z_array, P0, at, sp, GN.hull_test(P0), full=len(at) < 20000)
        c.same("the region is not modified", P, P0)
        return
    s = Sites(c, x, at, sp)
    c.ensure("one species per atom", c.and_(c.shape_is(at, s.N, 3), c.shape_is(sp, s.N)))
    part = c.choice("part", ["sound", "once", "complete", "frame"])
    if part == "sound":
        for r in c.each("row", s.N):
            uvw, i = s.at(r)
            c.ensure("whole-number coordinates", c.and_(*[c.eq(u, c.floor(u)) for u in uvw]))
            c.ensure("an atom of the cell", c.and_(c.le(0, i), c.lt(i, x.n)))
            c.ensure("every atom is on a lattice translate", c.veq(c.row(at, r), x.site(uvw, i)))
            c.ensure("every atom has its atomic number", c.eq(c.item(sp, r), x.Z(i)))
    elif part == "once":
        for r in c.each("row", s.N):
            for t in c.each("row2", s.N):
                c.require(c.lt(r, t))
                (u, i), (v, j) = s.at(r), s.at(t)
                c.ensure("no site is supplied twice", c.not_(c.and_(c.eq(i, j), c.veq(u, v))))
    elif part == "complete":
        uvw = [c.int("u%d" % j) for j in range(3)]
        for i in c.each("atom", x.n):
            p = x.site(uvw, i)
            I = inverse3(c, x.B)
            f = x.frac(i)
            ends = [i]
            # p is in the convex hull of the box: no direction separates it from all its points
            for j in range(3):
                c.fact("coordinates of the site", c.eq(c.vdot(I[j], c.vsub(p, x.o)), uvw[j] + f[j]))
                lo, hi = c.index("lo%d" % j, n), c.index("hi%d" % j, n)
                ends += [lo, hi]
                c.require(c.le(c.vdot(I[j], c.vsub(c.row(P0, lo), x.o)), uvw[j] + f[j]))
                c.require(c.le(uvw[j] + f[j], c.vdot(I[j], c.vsub(c.row(P0, hi), x.o))))
            r = s.row(uvw, i, ends)
            c.ensure("every site in the region is supplied", c.and_(c.le(0, r), c.lt(r, s.N)))
            v, k = s.at(r)
            g = x.frac(k)
            c.fact("the row is that of the site", c.and_(c.veq(v, uvw), c.eq(k, i), c.veq(g, f)))
            q = c.row(at, r)
            for a in range(3):
                c.lincomb("at its place", q[a] - p[a], [(x.B[a][j], v[j] + g[j] - uvw[j] - f[j]) for j in range(3)])
            c.ensure("with its atomic number", c.eq(c.item(sp, r), x.Z(i)))
    else:
        c.same("the region is not modified", P, P0)


@R.proof("structure and origin set later", [G + "Generator.structure", G + "Generator.origin", G + "Generator.__init__", VX + "Voxel.__init__", VX + "Voxel.bases",
                                            VX + "Voxel.origin", VX + "Voxel.scale", VX + "Voxel.sbases"], con=40)
def later(c):
    x = GN.crystal(c, "a")
    g = x.gen
    first = c.choice("first", ["as_made", "supplied"])
    if first == "supplied" and not c.sym:
        g.supply_atoms(c.points("P", 3))
    o = x.o
    if c.choice("moved", ["no", "yes"]) == "yes":
        v = c.vec("o2")
        g.origin = v
        o = c.vals(v)
    B, n, F, Z = x.B, x.n, x.frac_array, x.Z_array
    if c.choice("new", ["no", "yes"]) == "yes":
        M = GN.cell(c, "b")
        n = c.size("nb", lo=1, hi=3)
        if c.sym:
            F = c.array("fracb", (n, 3))
            Z = c.array("Zb", (n,), "i", lo=1, hi=118)
        else:
            rng = K.sub_rng(c, "fb")
            F, Z = rng.uniform(0, 1, size=(n, 3)), rng.integers(1, 100, size=n)
        S = GN.structure(c, M, Z, F)
        try:
            g.structure = S
        except AssertionError:
            if c.sym:
                raise c.core.PathEnd()
            raise
        B = c.transpose(c.rows(M))
    c.ensure("the cell is that of the structure", c.meq(c.rows(g.voxel.sbases), B))
    c.ensure("the origin is the one given", c.and_(c.veq(c.vals(g.origin), o), c.veq(c.vals(g.voxel.origin), o)))
    c.same("the sites are those of the structure", c.np.array(g.coords), F)
    c.same("the elements are those of the structure", c.np.array(g.species), Z)
    if not c.sym:
        P = c.points("Q", 4)
        at, sp = g.supply_atoms(P)
        GN.check_fill(lambda l, b: c.ensure(l, bool(b)), B, o, F, Z, P, at, sp, GN.hull_test(P), full=len(at) < 20000)


@R.scenario("real crystals", quick=40, thorough=600)
def real(s):
    import czone.generator.generator as gm
    import czone.transform.transform as tm
    import czone.volume.algebraic as am
    import czone.volume.volume as vm
    from specs import tf
    from vc.dsl import ConCtx
    rng = s.rng
    k = int(rng.integers(0, 4))
    o = rng.normal(size=3) * 5 if rng.random() < 0.6 else None
    kw = {} if o is None else {"origin": o}
    if k == 0:
        a = float(rng.uniform(3, 5))
        sgn, Z, X, sites = [(225, [79], [[0, 0, 0]], 4), (227, [14], [[0, 0, 0]], 8), (229, [26], [[0, 0, 0]], 2), (225, [11, 17], [[0, 0, 0], [0.5, 0.5, 0.5]], 8)][int(rng.integers(0, 4))]
        g = gm.Generator.from_spacegroup(Z=Z, coords=_np.array(X), cellDims=[a, a, a], cellAngs=[90, 90, 90], sgn=sgn, **kw)
        s.check("the unit cell has all symmetric sites", len(g.species) == sites)
        B = _np.eye(3) * a
        s.close("the cell is the one asked for", g.voxel.sbases, B)
    elif k == 1:
        ang = [float(v) for v in rng.uniform(70, 110, size=3)]
        dims = [float(v) for v in rng.uniform(2.5, 5, size=3)]
        n = int(rng.integers(1, 4))
        X = rng.uniform(0, 1, size=(n, 3))
        Z = [int(v) for v in rng.integers(1, 90, size=n)]
        g = gm.Generator.from_unit_cell(Z=Z, coords=X, cellDims=dims, cellAngs=ang, **kw)
        B = g.voxel.sbases
        s.close("cell lengths", _np.linalg.norm(B, axis=0), dims)
        u = B / _np.linalg.norm(B, axis=0)
        s.close("cell angles", [_np.degrees(_np.arccos(u[:, i] @ u[:, j])) for i, j in ((1, 2), (0, 2), (0, 1))], ang)
        s.check("the atoms asked for", list(g.species) == Z and _np.allclose(g.coords, X))
    else:
        c = ConCtx(None, rng)
        x = GN.crystal(c)
        g, B = x.gen, _np.array(x.B)
        if o is not None:
            g.origin = o
        o = g.origin
    o = _np.zeros(3) if o is None else _np.array(o)
    F, Z = _np.array(g.coords), _np.array(g.species)
    for rep in range(int(rng.integers(1, 4))):
        if rng.random() < 0.5:
            t, f, M = tf.rand_transform(tm, am, rng, kinds=["T", "R", "I", "F"])
            g.transform(t)
            o, B = f(o), M @ B
        r = rng.random()
        if r < 0.2:
            P = vm.makeRectPrism(*rng.uniform(1, 9, size=3), center=rng.normal(size=3) * 6)
        elif r < 0.35:
            # a region exactly along the cell
            q = rng.integers(-2, 3, size=3)
            P = o + (_np.array([[i, j, l] for i in (0, 1) for j in (0, 1) for l in (0, 1)]) * rng.integers(1, 3, size=3) + q) @ B.T
        elif r < 0.45:
            P = rng.normal(size=(int(rng.integers(1, 4)), 3)) * 4
        else:
            P = rng.normal(size=(int(rng.integers(4, 12)), 3)) * rng.uniform(1, 4) + rng.normal(size=3) * 8
        P0 = P.copy()
        at, sp = g.supply_atoms(P)
        s.check("the region is not modified", _np.array_equal(P, P0))
        s.close("the origin is kept", g.origin, o)
        s.close("the cell is kept", g.voxel.sbases, B)
        if len(at) < 30000:
            GN.check_fill(s.check, B, o, F, Z, P, at, sp, GN.hull_test(P))
