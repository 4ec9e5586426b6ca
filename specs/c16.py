"""C16 Strain fields deform about their origin in the chosen frame."""
from vc.spec import Registry
from specs import common as K
from specs import tf, gen
import numpy as _np

R = Registry()
MODULES = ("czone.transform.strain", "czone.generator.generator")
ST = "czone.transform.strain."


class Host:
    """what a strain field reads from its generator"""


def values(c):
    """(argument for the constructor, the matrix it stands for)"""
    k = c.choice("values", ["default", "three", "six", "nine", "matrix", "row"])
    if k == "default":
        return None, c.eye()
    if k == "three":
        v = c.vec("m")
        m = c.vals(v)
        M = [[m[0], 0, 0], [0, m[1], 0], [0, 0, m[2]]]
    elif k == "six":
        v = c.vec("m", 6)
        m = c.vals(v)
        M = [[m[0], m[5], m[4]], [m[5], m[1], m[3]], [m[4], m[3], m[2]]]
    elif k == "nine":
        v = c.vec("m", 9)
        m = c.vals(v)
        M = [m[0:3], m[3:6], m[6:9]]
    elif k == "row":
        v = c.mat("m", 1, 3)
        m = c.vals(v)
        M = [[m[0], 0, 0], [0, m[1], 0], [0, 0, m[2]]]
    else:
        v = c.mat("m")
        M = c.rows(v)
    if not c.sym and K.sub_rng(c, "aslist").random() < 0.4:
        v = v.tolist()
    return v, M


def apply(c, s, want):
    N = c.size("n", big=True)
    X = c.points("X", N)
    X0 = c.snapshot(X)
    Y = s.apply_strain(X)
    c.cover("strained")
    c.ensure("one image per point", c.shape_is(Y, N, 3))
    for i in c.each("i", N):
        c.ensure("every point goes to its strained image", c.veq(c.row(Y, i), want(c.row(X0, i))))
    c.same("points are not modified", X, X0)


def origins(c, name="so"):
    if c.choice("origin_kind", ["generator", "given"]) == "generator":
        return None, {}
    o = c.vec(name)
    return c.vals(o), {"origin": o}


def host(c, k=""):
    """an arbitrary generator's cell (columns) and origin, as the strain field reads them"""
    M = gen.cell(c, "cell" + k)
    o = c.vec("go" + k)
    h = Host()
    h.voxel = Host()
    h.voxel.sbases = M.T
    h.origin = o
    return h, c.transpose(c.rows(M)), c.vals(o)


def inverse3(c, B):
    d = c.det3(B)
    r = B
    cof = [c.vcross(r[1], r[2]), c.vcross(r[2], r[0]), c.vcross(r[0], r[1])]
    return [[cof[j][i] / d for j in range(3)] for i in range(3)]


def in_frame(c, B, o, F):
    """o + B F(B^-1 (p - o)); B None: Cartesian axes"""
    if B is None:
        return lambda p: c.vadd(o, F(c.vsub(p, o)))
    I = inverse3(c, B)
    return lambda p: c.vadd(o, c.mulmv(B, F(c.mulmv(I, c.vsub(p, o)))))


@R.proof("homogeneous strain", [ST + "HStrain.__init__", ST + "HStrain.matrix", ST + "HStrain.apply_strain", ST + "BaseStrain.scrape_params",
                                ST + "BaseStrain.origin", ST + "BaseStrain.mode"], con=250, max_paths=200)
def homogeneous(c):
    v, M = values(c)
    mode = c.choice("mode", ["standard", "crystal", "by_default"])
    so, kw = origins(c)
    if mode != "by_default":
        kw["mode"] = mode
    s = c.cls(ST + "HStrain")(v, **kw) if v is not None else c.cls(ST + "HStrain")(**kw)
    h, B, go = host(c)
    s.scrape_params(h)
    o = go if so is None else so
    # the matrix acts on the displacement written as a row, which for the symmetric matrices of three and six values is the same
    F = lambda f: c.mulvm(f, M)
    apply(c, s, in_frame(c, None if mode == "standard" else B, o, F))
    c.ensure("the generator read from keeps its cell and origin", c.and_(c.meq(c.rows(h.voxel.sbases), B), c.veq(c.vals(h.origin), go)))


@R.proof("origin fixed, identity neutral", [ST + "HStrain.apply_strain"], con=80)
def neutral(c):
    M = c.mat("m")
    mode = c.choice("mode", ["standard", "crystal"])
    h, B, go = host(c)
    for which in ("matrix", "identity"):
        s = c.cls(ST + "HStrain")(M if which == "matrix" else c.np.eye(3), mode=mode)
        s.scrape_params(h)
        if which == "matrix":
            Y = s.apply_strain(c.np.array([go]))
            c.ensure("the origin stays fixed", c.veq(c.row(Y, 0), go))
        else:
            x = c.vals(c.vec("x"))
            Y = s.apply_strain(c.np.array([x]))
            c.ensure("the identity changes nothing", c.veq(c.row(Y, 0), x))


@R.proof("cell and origin are read again", [ST + "BaseStrain.scrape_params", ST + "HStrain.apply_strain"], con=80)
def again(c):
    M = c.vec("m")
    s = c.cls(ST + "HStrain")(M)
    h, B, go = host(c)
    s.scrape_params(h)
    s.apply_strain(c.points("P", 2))
    h2, B2, go2 = host(c, "2")
    s.scrape_params(h2)
    m = c.vals(M)
    apply(c, s, in_frame(c, B2, go2, lambda f: [f[i] * m[i] for i in range(3)]))
    # what the strain field holds is a copy
    h2.origin[0] = h2.origin[0] + 1
    x = c.vals(c.vec("x"))
    c.ensure("the origin is that at the time of reading", c.veq(c.row(s.apply_strain(c.np.array([go2])), 0), go2))


def user_function(c):
    """an arbitrary function of a point (rowwise), recording how it is called"""
    calls = []
    if c.sym:
        T, A = c.T, c.arr

        def fun(X, **kw):
            calls.append(kw)
            P = A.to_arr(X)
            f = P.snap()
            return A.SArr(P.sh, "f", lambda idx: T.app("user", [idx[1]] + [A.as_poly(f((idx[0], T.const(j)))) for j in range(3)]))
        F = lambda p: [c.core.SNum(T.app("user", [T.const(j)] + [c.core.poly(x) for x in p])) for j in range(3)]
        return fun, F, calls
    rng = K.sub_rng(c, "user")
    a, b = rng.normal(size=(3, 3)), rng.normal(size=3)

    def row(p):
        return [float(_np.sin(a[j] @ p) + b[j] * p[0] * p[1]) for j in range(3)]

    def fun(X, **kw):
        calls.append(kw)
        return _np.array([row(p) for p in X]).reshape(-1, 3)
    fun.__deepcopy__ = None
    return fun, lambda p: row(_np.array(p)), calls


@R.proof("inhomogeneous strain", [ST + "IStrain.__init__", ST + "IStrain.strain_fun", ST + "IStrain.apply_strain", ST + "BaseStrain.scrape_params"], con=200)
def inhomogeneous(c):
    fun, F, calls = user_function(c)
    mode = c.choice("mode", ["standard", "crystal", "by_default"])
    so, kw = origins(c)
    if mode != "by_default":
        kw["mode"] = mode
    s = c.cls(ST + "IStrain")(fun, option=7, **kw)
    h, B, go = host(c)
    s.scrape_params(h)
    o = go if so is None else so
    del calls[:]
    apply(c, s, in_frame(c, None if mode == "standard" else B, o, F))
    c.ensure("the user's options are passed on", all(k.get("option") == 7 for k in calls) and len(calls) > 0)
    if mode != "standard":
        c.ensure("the cell is passed to the function", c.and_(*[c.meq(c.rows(k["basis"]), B) for k in calls]))


@R.proof("no function given", [ST + "IStrain.__init__", ST + "IStrain.apply_strain"], con=40)
def no_function(c):
    mode = c.choice("mode", ["standard", "crystal"])
    s = c.cls(ST + "IStrain")(mode=mode)
    h, B, go = host(c)
    s.scrape_params(h)
    apply(c, s, lambda p: p)


@R.proof("unknown modes are refused", [ST + "BaseStrain.mode"], con=20)
def modes(c):
    kind = c.choice("kind", ["HStrain", "IStrain"])
    c.raises("an unknown mode is refused", ValueError, lambda: c.cls(ST + kind)(mode=c.choice("mode", ["other", "Crystal", "", None])))
    s = c.cls(ST + kind)(mode="standard")

    def change():
        s.mode = "cartesian"
    c.raises("an unknown mode is refused later", ValueError, change)
    c.ensure("the mode stays", s.mode == "standard")


@R.proof("wrong numbers of values are refused", [ST + "HStrain.matrix"], con=20)
def wrong(c):
    n = c.choice("number", [1, 2, 4, 5, 7, 8])
    v = c.vec("m", n)
    c.raises("other numbers of values are refused", ValueError, lambda: c.cls(ST + "HStrain")(v))


@R.scenario("strained crystals", quick=60, thorough=600)
def crystals(s):
    import czone.generator.generator as gm
    import czone.transform.strain as stm
    import czone.transform.transform as tm
    import czone.volume.algebraic as am
    from pymatgen.core import Structure, Lattice
    rng = s.rng
    M = _np.eye(3) * rng.uniform(3, 5, size=3) + _np.tril(rng.normal(size=(3, 3)) * 0.5, -1)
    n = int(rng.integers(1, 4))
    S = Structure(Lattice(M), rng.integers(1, 90, size=n).tolist(), rng.random((n, 3)))
    o = rng.normal(size=3)
    g = gm.Generator(origin=o.copy(), structure=S)
    plain = gm.Generator(origin=o.copy(), structure=S)
    mode = ["crystal", "standard"][int(rng.integers(0, 2))]
    so = rng.normal(size=3) if rng.random() < 0.4 else None
    kw = {} if so is None else {"origin": so.copy()}
    k = rng.integers(0, 3)
    if k == 0:
        A = 1 + rng.normal(size=3) * 0.1
        st, E = stm.HStrain(A, mode=mode, **kw), _np.diag(A)
        f = lambda d: d @ E
    elif k == 1:
        v = rng.normal(size=6) * 0.1 + [1, 1, 1, 0, 0, 0]
        E = _np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
        st = stm.HStrain(v, mode=mode, **kw)
        f = lambda d: d @ E
    else:
        w = rng.normal(size=(3, 3)) * 0.2
        st = stm.IStrain(lambda x, **q: x + _np.sin(x @ w), mode=mode, **kw)
        f = lambda d: d + _np.sin(d @ w)
    g.strain_field = st
    bbox = rng.normal(size=(8, 3)) * 4

    def check(label):
        a, z = g.supply_atoms(bbox.copy())
        p, zp = plain.supply_atoms(bbox.copy())
        og = plain.origin if so is None else so
        B = plain.voxel.sbases
        d = p - og
        want = og + (f(d @ _np.linalg.inv(B).T) @ B.T if mode == "crystal" else f(d))
        s.close(label, a, want, 1e-7)
        s.check(label + ": species kept", _np.array_equal(z, zp))
    check("strain about the current origin in the current cell")
    check("asked again")
    for _ in range(int(rng.integers(1, 4))):
        t, _, _ = tf.rand_transform(tm, am, rng, ["T", "R", "F", "I"])
        g.transform(t)
        plain.transform(t)
    check("after the generator was transformed")
    h = g.from_generator(transformation=[tm.Translation(rng.normal(size=3))])
    g0, plain0 = g, plain
    check("the original is unaffected by a copy")
    g.origin = rng.normal(size=3)
    plain.origin = g.origin.copy()
    check("after the origin was changed")
