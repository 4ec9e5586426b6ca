"""Crystal generators: an arbitrary crystal in proofs, random real crystals in concrete runs."""
import numpy as _np
from specs import common as K

G = "czone.generator.generator."


class Crystal:
    """gen; B: cell vectors as columns (rows of scalars); o: origin; n: atoms in the cell; frac(i), Z(i)"""

    def site(self, uvw, i):
        c = self.c
        f = self.frac(i)
        return c.vadd(self.o, c.mulmv(self.B, [u + x for u, x in zip(uvw, f)]))


def cell(c, name):
    """an arbitrary invertible matrix of cell vectors (rows)"""
    if c.sym:
        M = c.mat(name)
    else:
        rng = K.sub_rng(c, name)
        M = _np.eye(3) * rng.uniform(2, 5, size=3)
        k = rng.integers(0, 4)
        if k == 1:
            M = M + _np.triu(rng.normal(size=(3, 3)), 1)
        elif k >= 2:
            from specs.tf import rand_orthogonal
            M = (M + _np.tril(rng.normal(size=(3, 3)), -1)) @ rand_orthogonal(rng)
    d = c.det3(c.rows(M))
    c.require(c.lt(0.01, c.abs(d)))
    return M


def structure(c, M, Z, F):
    if c.sym:
        from vc import matsci
        return matsci.Structure(matsci.Lattice(M), Z, F)
    from pymatgen.core import Structure, Lattice
    return Structure(Lattice(M), [int(z) for z in Z], F)


def crystal(c, name="", origin=True, nmax=3, spread=0.4, **kw):
    """a Generator made from an arbitrary structure and origin"""
    x = Crystal()
    x.c = c
    M = cell(c, "cell" + name)
    x.n = c.size("natoms" + name, lo=1, hi=nmax)
    if c.sym:
        F = c.array("frac" + name, (x.n, 3))
        Z = c.array("Z" + name, (x.n,), "i", lo=1, hi=118)
    else:
        rng = K.sub_rng(c, "frac" + name)
        F = rng.uniform(0, 1, size=(x.n, 3))
        if rng.random() < 0.3:
            F = F + rng.integers(-1, 3, size=F.shape)
        if rng.random() < 0.3:
            F[0] = 0
        Z = rng.integers(1, 100, size=x.n)
    S = structure(c, M, Z, F)
    F0, Z0 = c.snapshot(F), c.snapshot(Z)
    x.frac = lambda i: c.row(F0, i)
    x.Z = lambda i: c.item(Z0, i)
    x.frac_array, x.Z_array = F0, Z0
    o = c.vec("origin" + name) if origin else None
    if c.sym:
        # the cell is one that the generator accepts
        try:
            x.gen = c.cls(G + "Generator")(origin=o, structure=S, **kw)
        except AssertionError:
            raise c.core.PathEnd()
    else:
        x.gen = c.cls(G + "Generator")(origin=o, structure=S, **kw)
    x.B = c.transpose(c.rows(M))
    x.o = [0, 0, 0] if o is None else c.vals(o)
    x.structure = S
    return x


def check_fill(check, B, o, frac, Z, bbox, at, sp, hull, full=True):
    """check(label, condition): the supplied atoms are lattice sites, each once, and all those inside the hull are there.
    B: cell vectors as columns"""
    B, o, frac, Z = _np.asarray(B, float), _np.asarray(o, float), _np.asarray(frac, float), _np.asarray(Z)
    at, sp, bbox = _np.asarray(at), _np.asarray(sp), _np.asarray(bbox, float)
    check("one species per atom", at.ndim == 2 and at.shape[1] == 3 and sp.shape == (at.shape[0],))
    I = _np.linalg.inv(B)
    q = (at - o) @ I.T
    seen = set()
    # which atom of the cell each supplied atom is: the one that leaves whole numbers
    rest = q[:, None, :] - frac[None, :, :]
    err = _np.max(_np.abs(rest - _np.round(rest)), axis=2)
    ok = err < 1e-6
    check("every supplied atom is on a lattice translate", bool(_np.all(_np.any(ok, axis=1))))
    used = {}
    for r in range(len(at)):
        cand = [i for i in _np.nonzero(ok[r])[0] if Z[i] == sp[r]]
        check("every supplied atom has the atomic number of its site", len(cand) > 0)
        for i in cand:
            k = (int(i),) + tuple(int(v) for v in _np.round(rest[r, i]))
            used[k] = used.get(k, 0) + 1
    dup = len({tuple(_np.round((f % 1) % 1, 6)) for f in frac}) < len(frac)
    if not dup:
        check("no site is supplied twice", all(v == 1 for v in used.values()))
    if not full:
        return
    e = (bbox - o) @ I.T
    lo, hi = _np.floor(e.min(axis=0)).astype(int), _np.ceil(e.max(axis=0)).astype(int)
    for i in range(len(frac)):
        a, b = lo - _np.floor(frac[i]).astype(int) - 1, hi - _np.floor(frac[i]).astype(int) + 1
        g = _np.stack(_np.meshgrid(*[_np.arange(a[j], b[j] + 1) for j in range(3)], indexing="ij"), -1).reshape(-1, 3)
        x = o + (g + frac[i]) @ B.T
        for k in _np.nonzero(hull(x))[0]:
            check("every site in the region is supplied", (i,) + tuple(int(v) for v in g[k]) in used)


def hull_test(P, tol=1e-7):
    """points strictly inside the convex hull, or (for hulls of any dimension) within it up to rounding"""
    P = _np.asarray(P, float)
    try:
        from scipy.spatial import ConvexHull
        h = ConvexHull(P)
        return lambda x: _np.all(x @ h.equations[:, :3].T + h.equations[:, 3] <= -tol, axis=1)
    except Exception:
        def f(x):
            # a flat set of points: its own points and the middle of each pair
            C = [p for p in P] + [(p + q) / 2 for p in P for q in P]
            return _np.array([any(_np.allclose(y, z, atol=1e-9) for z in C) for y in x], dtype=bool) if len(x) < 5000 else _np.zeros(len(x), bool)
        return f
