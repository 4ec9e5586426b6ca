"""C19 Voxel neighbor lists match the grid with its periodic boundaries."""
import itertools

import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.util.measure", "czone.generator.amorphous_algorithms")
M = "czone.util.measure."
G = "czone.generator.amorphous_algorithms."

STEPS = [(i % 3 - 1, i // 3 % 3 - 1, i // 9 - 1) for i in range(27)]


def expected(dims, per, v):
    """the neighbors of voxel v, from the definition"""
    X, Y, Z = dims
    x = (v % X, v // X % Y, v // (X * Y))
    out = set()
    for d in STEPS:
        w = [a + b for a, b in zip(x, d)]
        if all(p or 0 <= a < n for a, n, p in zip(w, dims, per)):
            w = [a % n for a, n in zip(w, dims)]
            out.add(w[0] + X * w[1] + X * Y * w[2])
    return out


def wrap(c, u, k, N):
    """u is p - N * (p // N) for a voxel p off the grid by k layers: its quotient is k"""
    T, N = c.T, c.core.poly(N)
    for a in T.all_atoms(c.core.poly(u)).values():
        if a.kind == "quot" and a.args[1] is N:
            c.fact("the quotient of a voxel off the grid", c.core.SBool(T.eq(T.atom_poly(a), T.const(k))))


def grid(c, per):
    X, Y, Z = dims = [c.int(a, lo=1, hi=None if c.sym else 4) for a in "XYZ"]
    f = c.mod("czone.util.measure").get_voxel_grid
    if not c.sym:
        nb = f(tuple(dims) if K.sub_rng(c, "t").random() < 0.5 else np.array(dims), *per)
        N = X * Y * Z
        c.ensure("one list for each voxel", len(nb) == N)
        sets = [set(int(w) for w in l) for l in nb]
        c.ensure("the neighbors of a voxel are the voxels at most one away along each axis", sets == [expected(dims, per, v) for v in range(N)])
        c.ensure("the relation is symmetric", all(v in sets[w] for v in range(N) for w in sets[v]))
        c.ensure("indices are integers", all(w == int(w) for l in nb for w in l))
        return
    T, P, N_ = c.T, c.core.poly, c.core.SNum
    x, y, z = pos = [c.index(a, n) for a, n in zip("xyz", dims)]
    one = N_(T.ONE, True)
    XY = X * Y
    N = XY * Z
    # a voxel number is within the grid, and its parts are what is left after taking whole rows and layers
    c.fact("a voxel is within its layer", c.and_(c.le(0, x + X * y), c.le(X * y, XY - X), c.lt(x + X * y, XY)))
    c.fact("a layer is within the grid", c.and_(c.le(0, XY * z), c.le(XY * z, N - XY)))
    v = x + X * y + XY * z
    c.fact("a voxel is within the grid", c.and_(c.le(0, v), c.lt(v, N)))
    nb = f((X, Y, Z), *per)
    c.cover("a grid was made")
    c.ensure("one list for each voxel", c.eq(c.length(nb) if not hasattr(nb, "sh") else nb.shape[0], N))
    r = nb[v]
    if hasattr(r, "sh"):
        c.ensure("27 neighbors", c.shape_is(r, 27))
        got = [(T.TRUE, t) for t in r.terms()]
    else:
        got = r.members
        if got is None or len(got) != 27:
            raise T.Unsupported("a neighbor list that is not a selection among the 27 voxels around")
    # the neighbor in each direction, with wrap-around
    near = {}
    for a, p, n in zip(range(3), pos, dims):
        near[a, -1] = c.ite(c.eq(p, 0), n - 1, p - 1)
        near[a, 0] = p
        near[a, 1] = c.ite(c.eq(p, n - 1), 0, p + 1)
        for s in (-1, 0, 1):
            c.fact("a neighbor along an axis is on the grid", c.and_(c.le(0, near[a, s]), c.lt(near[a, s], n)))
    layer = {}
    for s, t in itertools.product((-1, 0, 1), repeat=2):
        w = layer[s, t] = near[0, s] + X * near[1, t]
        c.fact("rows above the one at hand are within the layer", c.le(X * near[1, t], XY - X))
        c.fact("rows are not below the layer", c.le(0, X * near[1, t]))
        c.fact("a neighbor is within its layer", c.and_(c.le(0, w), c.lt(w, XY)))
    for s in (-1, 1, 0):
        c.fact("a neighboring layer is within the grid", c.and_(c.le(0, XY * near[2, s]), c.le(XY * near[2, s], N - XY)))
    for (cond, val), d in zip(got, STEPS):
        w = layer[d[0], d[1]] + XY * near[2, d[2]]
        edge = [c.eq(p, 0 if s < 0 else n - 1) for p, s, n in zip(pos, d, dims)]
        for at_edge in itertools.product(*[(False, True) if s else (False,) for s in d]):
            with c.under(*[e if t else c.not_(e) for e, t, s in zip(edge, at_edge, d) if s]):
                out = any(t and not q for t, q in zip(at_edge, per))
                b = c.settle(c.core.SBool(cond))
                c.ensure("a neighbor is listed unless a boundary is in between", c.not_(b) if out else b)
                if out:
                    continue
                u, t = c.settle(N_(val, True)), c.settle(w)
                wrap(c, u, d[2] if at_edge[2] else 0, N)
                c.ensure("it is the voxel one step away, with wrap-around", c.eq(u, t))


for _p in itertools.product((True, False), repeat=3):
    R.proof("grid, periodic in " + ("".join(a for a, p in zip("xyz", _p) if p) or "none"), [M + "get_voxel_grid"], con=60, max_paths=60)(lambda c, p=_p: grid(c, p))


@R.proof("blocks of an amorphous cell", [G + "get_voxels"], con=100)
def blocks(c):
    dims = c.array("dims", (3,), lo=0.5, hi=30)
    dist = c.real("dist", lo=0.1, hi=20)
    if c.sym:
        c.require(c.and_(c.lt(0, dist), *[c.lt(0, dims[k]) for k in range(3)]))
    f = c.mod("czone.generator.amorphous_algorithms").get_voxels
    if not c.sym:
        dist = max(dist, 0.4 * float(min(dims)))
        vox, nb = f(dist, dims)
        n = [max(int(np.floor(d / dist)), 1) for d in dims]
        c.ensure("as many blocks as fit along each axis, each starting empty", vox == [[[[] for _ in range(n[2])] for _ in range(n[1])] for _ in range(n[0])])
        c.ensure("one list for each block", [[len(b) for b in a] for a in nb] == [[n[2]] * n[1]] * n[0])
        for x in itertools.product(*map(range, n)):
            got = [tuple(int(v) for v in t) for t in nb[x[0]][x[1]][x[2]]]
            v = x[0] + n[0] * (x[1] + n[1] * x[2])
            want = {(w % n[0], w // n[0] % n[1], w // (n[0] * n[1])) for w in expected(n, (True, True, False), v)}
            c.ensure("the neighbors are the blocks at most one away along each axis, with wrap-around in x and y", set(got) == want)
        return
    vox, nb = f(dist, dims)
    n = []
    for k, l in enumerate((vox, vox[c.index("i0", c.length(vox))], vox[c.index("i1", c.length(vox))][c.index("j1", c.length(vox[c.index("i1", c.length(vox))]))])):
        n.append(c.length(l))
        c.ensure("as many blocks as fit along an axis, and at least one", c.and_(c.le(1, n[k]), c.or_(c.eq(n[k], 1), c.le(n[k] * dist, dims[k])), c.lt(dims[k], (n[k] + 1) * dist)))
    x = i, j, k = [c.index(a, m) for a, m in zip("ijk", n)]
    c.ensure("a block starts empty", c.eq(c.length(vox[i][j][k]), 0))
    c.ensure("one list for each block", c.and_(c.eq(c.length(nb), n[0]), c.eq(c.length(nb[i]), n[1]), c.eq(c.length(nb[i][j]), n[2])))
    l = nb[i][j][k]
    steps = [t for t in STEPS if (t[2] >= 0 or c.case(c.lt(0, k))) and (t[2] <= 0 or c.case(c.lt(k, n[2] - 1)))]
    c.cover("a block and its neighbors")
    want = [[(a + s) % m if ax < 2 else a + s for ax, (a, s, m) in enumerate(zip(x, t, n))] for t in steps]
    got = [list(t) for t in l]
    same = lambda a, b: c.and_(*[c.eq(p, q) for p, q in zip(a, b)])
    for t in got:
        c.ensure("a listed block is at most one away, with wrap-around in x and y", c.or_(*[same(t, w) for w in want]))
        c.ensure("it is a block", c.and_(*[c.and_(c.le(0, p), c.lt(p, m)) for p, m in zip(t, n)]))
    for w in want:
        c.ensure("a block at most one away is listed", c.or_(*[same(t, w) for t in got]))


@R.scenario("grids", quick=25, thorough=250, cap=40)
def grids(s):
    from czone.util.measure import get_voxel_grid
    rng = s.rng
    dims = [int(v) for v in rng.integers(1, 9, 3)]
    for per in itertools.product((True, False), repeat=3):
        arg = [tuple(dims), list(dims), np.array(dims)][rng.integers(3)]
        nb = get_voxel_grid(arg, *per)
        s.check("the grid given is unchanged", [int(v) for v in arg] == dims)
        s.check("one list for each voxel", len(nb) == int(np.prod(dims)))
        got = [set(int(w) for w in l) for l in nb]
        s.check("the neighbors of a voxel are the voxels at most one away along each axis (dims %s, periodic %s)" % (dims, per), got == [expected(dims, per, v) for v in range(len(got))])
        s.check("the relation is symmetric", all(v in got[w] for v in range(len(got)) for w in got[v]))
    s.check("fully periodic by default", np.array_equal(get_voxel_grid(tuple(dims)), get_voxel_grid(tuple(dims), True, True, True)))
