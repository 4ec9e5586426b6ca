"""C15 Copies are independent of their originals.

Independence for every later history is reduced to separation: no object that can be changed (array storage, list, dictionary,
instance) is reachable both from the copy and from the original.  Whatever is done later through one of them (public operations
write only to what they reach from their receiver) cannot then be seen through the other.  Besides, every public operation that
changes an object is run once on either side, with the other side observed before and after."""
from vc.spec import Registry
from specs import common as K
from specs import gen as GN
from specs import tf
import numpy as _np
import types as _types

R = Registry()
MODULES = ("czone.volume.algebraic", "czone.volume.volume", "czone.volume.voxel", "czone.generator.generator", "czone.molecule.molecule",
           "czone.transform.transform", "czone.transform.strain", "czone.transform.post")
A = "czone.volume.algebraic."
V = "czone.volume.volume."
VX = "czone.volume.voxel."
G = "czone.generator.generator."
MO = "czone.molecule.molecule."
TR = "czone.transform.transform."
ST = "czone.transform.strain."
PO = "czone.transform.post."

ASSUMPTIONS = ["operations of an object write only to what is reachable from that object and their arguments (separation then covers every later history; each public operation is also run and compared)",
               "a user's strain function and the library objects of pymatgen behave as values under copy.deepcopy"]

# what can be seen of an object through its public names
PUBLIC = {
    "Sphere": ["radius", "center", "tol"], "Plane": ["normal", "point", "tol"], "Cylinder": ["axis", "point", "radius", "length", "tol"],
    "Voxel": ["scale", "bases", "origin"],
    "Generator": ["structure", "species", "coords", "orientation", "origin", "voxel", "strain_field", "post_transform"],
    "AmorphousGenerator": ["origin", "species", "density", "min_dist", "old_result", "use_old_result"],
    "NullGenerator": [],
    "HStrain": ["origin", "origin_type", "mode", "matrix"], "IStrain": ["origin", "origin_type", "mode", "fun_kwargs", "strain_fun"],
    "ChemicalSubstitution": ["target", "substitute", "frac"], "PostSequence": ["_transforms"],
    "Volume": ["points", "alg_objects", "generator", "tolerance", "priority"],
    "MultiVolume": ["volumes", "priority"],
    "Molecule": ["atoms", "species", "origin", "orientation", "priority", "print_warnings"],
    "AbsSurface": ["fam", "k"], "AbsGenerator": ["k"], "AbsVolume": ["fam", "k"],
}


def is_array(c, x):
    return isinstance(x, _np.ndarray) or (c.sym and isinstance(x, c.arr.SArr))


def foreign(x):
    return type(x).__name__ in ("Structure", "Lattice")


def look(c, x, path="", out=None, depth=0):
    """what can be seen of x: a list of (name, kind, value)"""
    out = [] if out is None else out
    n = type(x).__name__
    if n in PUBLIC:
        out.append((path, "a", n))
        for p in PUBLIC[n]:
            if hasattr(type(x), p) or p in getattr(x, "__dict__", {}):
                look(c, getattr(x, p), path + "." + p, out)
    elif n == "Structure":
        out.append((path + ".lattice", "array", c.snapshot(x.lattice.matrix)))
        out.append((path + ".coords", "array", c.snapshot(x.frac_coords)))
        out.append((path + ".numbers", "array", c.snapshot(x.atomic_numbers)))
    elif is_array(c, x):
        out.append((path, "array", c.snapshot(x)))
    elif isinstance(x, dict):
        out.append((path, "a", "dict %s" % sorted(map(str, x))))
        for k in x:
            look(c, x[k], path + "[%s]" % k, out)
    elif isinstance(x, (list, tuple)):
        if c.sym and isinstance(x, list) and getattr(x, "sym", None) is not None:
            out.append((path, "seq", x))
        else:
            out.append((path, "a", "%d items" % len(x)))
            for k, y in enumerate(x):
                look(c, y, path + "[%d]" % k, out)
    elif x is None or isinstance(x, (str, bool)) or isinstance(x, _types.FunctionType) or callable(x):
        out.append((path, "is", x))
    else:
        out.append((path, "num", x))
    return out


def same(c, label, a, b):
    """two looks agree"""
    ka, kb = [(p, k) for p, k, v in a], [(p, k) for p, k, v in b]
    if ka != kb:
        c.ensure(label, False)
        return
    arrays, conds = [], []
    for (p, k, x), (_, _, y) in zip(a, b):
        if k == "array":
            c.ensure("%s: %s" % (label, p.strip(".")), c.same_array(x, y))
        elif k == "num":
            c.ensure("%s: %s" % (label, p.strip(".")), c.eq(x, y))
        elif not (x is y or x == y):
            c.ensure("%s: %s" % (label, p.strip(".")), False)


def parts(c, x, path="", out=None):
    """every changeable object that can be reached from x: identity -> (path, object)"""
    out = {} if out is None else out
    if x is None or isinstance(x, (str, bytes, int, float, complex, bool, type, _types.FunctionType, _types.MethodType, _types.ModuleType, _np.generic)):
        return out
    if c.sym and isinstance(x, c.arr.SArr):
        out.setdefault(id(x.buf), (path, x.buf))
        return out
    if isinstance(x, _np.ndarray):
        b = x
        while isinstance(b.base, _np.ndarray):
            b = b.base
        if b.size:
            out.setdefault(id(b), (path, b))
        return out
    if isinstance(x, tuple):
        for k, y in enumerate(x):
            parts(c, y, path + "[%d]" % k, out)
        return out
    if isinstance(x, (list, dict)):
        if id(x) in out:
            return out
        out[id(x)] = (path, x)
        if c.sym and isinstance(x, list) and getattr(x, "sym", None) is not None:
            return out
        for k, y in (x.items() if isinstance(x, dict) else enumerate(x)):
            parts(c, y, path + "[%s]" % (k,), out)
        return out
    if type(x).__module__.split(".")[0] in ("czone",) or foreign(x) or type(x).__name__ in PUBLIC:
        if id(x) in out:
            return out
        out[id(x)] = (path, x)
        if type(x).__module__.startswith("pymatgen"):
            return out
        for k, y in getattr(x, "__dict__", {}).items():
            parts(c, y, path + "." + k, out)
        return out
    if type(x).__name__ in ("ConvexHull", "Delaunay"):
        out.setdefault(id(x), (path, x))
    return out


def shared(c, a, b):
    pa, pb = parts(c, a), parts(c, b)
    return sorted(pa[k][0] for k in pa if k in pb)


def separate(c, label, a, b):
    s = shared(c, a, b)
    c.ensure(label + (": shared are " + ", ".join(s[:4]) if s else ""), not s)


# ------------------------------------------------------------------------------------------------ the objects
def a_surface(c, name="s", kind=None):
    kind = kind or c.choice(name + "_kind", ["Sphere", "Plane", "Cylinder"])
    if kind == "Sphere":
        return c.cls(A + "Sphere")(c.real(name + "_r", lo=0.5, hi=6), c.vec(name + "_c"), tol=c.real(name + "_t", lo=1e-6, hi=0.1))
    u = c.vec(name + "_u")
    c.require(c.lt(0.1, c.norm(c.vals(u))))
    if kind == "Plane":
        return c.cls(A + "Plane")(u, c.vec(name + "_p"), tol=c.real(name + "_t", lo=1e-6, hi=0.1))
    return c.cls(A + "Cylinder")(u, c.vec(name + "_p"), c.real(name + "_r", lo=0.5, hi=6), c.real(name + "_l", lo=0.5, hi=9), tol=c.real(name + "_t", lo=1e-6, hi=0.1))


def a_strain(c, name):
    if c.sym or K.sub_rng(c, name + "_k").random() < 0.7:
        return c.cls(ST + "HStrain")(matrix=c.mat(name + "_m"), origin=c.vec(name + "_o"), mode="standard")
    return c.cls(ST + "IStrain")(fun=lambda p, q=None, **k: p * 1.01, origin=c.vec(name + "_o"), mode="standard", q=[1, 2])


def accepted(c):
    """whether a cell is refused for collinear vectors does not matter here (the test itself is verified in C08)"""
    if c.sym:
        c.cls(VX + "Voxel")._collinear = lambda self, a, b: False


def a_generator(c, name="g", kinds=("crystal", "amorphous", "null"), dress=("plain", "dressed")):
    accepted(c)
    kind = c.choice(name + "_kind", list(kinds))
    if kind == "null":
        return c.cls(G + "NullGenerator")()
    if kind == "amorphous":
        g = c.cls(G + "AmorphousGenerator")(origin=c.vec(name + "_o"), min_dist=c.real(name + "_d", lo=0.5, hi=3), density=c.real(name + "_q", lo=0.01, hi=0.2),
                                            species=c.int(name + "_z", 1))
        if c.choice(name + "_used", ["new", "used"]) == "used":
            k = c.size(name + "_m", hi=4)
            g._old_result = (c.points(name + "_X", k), c.array(name + "_Z", (k,), "i", lo=1, hi=90))
            g.use_old_result = True
        return g
    x = GN.crystal(c, name)
    d = c.choice(name + "_dress", list(dress))
    if d == "dressed":
        x.gen.strain_field = a_strain(c, name + "_st")
        x.gen.post_transform = c.cls(PO + "PostSequence")([c.cls(PO + "ChemicalSubstitution")([6], [7], 0.5)])
    return x.gen


def affine_transform(c, name="t", kind=None):
    kind = kind or c.choice(name, ["translation", "rotation", "matrix", "sequence"])
    if kind == "translation":
        return c.cls(TR + "Translation")(c.vec(name + "_v"))
    if kind == "rotation":
        return c.cls(TR + "Rotation")(c.rotation(name + "_R"), origin=c.vec(name + "_o"))
    if kind == "sequence":
        return c.cls(TR + "MultiTransform")([c.cls(TR + "Translation")(c.vec(name + "_v")), c.cls(TR + "Inversion")(origin=c.vec(name + "_o"))])
    M = c.mat(name + "_M")
    c.require(c.lt(0.05, c.abs(c.det3(c.rows(M)))))
    return c.cls(TR + "MatrixTransform")(M, origin=c.vec(name + "_o"))


def poke(c, x):
    """overwrite every array of x in place (through public names)"""
    for p in PUBLIC[type(x).__name__]:
        y = getattr(x, p, None)
        if is_array(c, y) and len(y.shape):
            y[0] = 7
        elif isinstance(y, tuple):
            for z in y:
                if is_array(c, z):
                    z[0:1] = 7


def refusal(c, f):
    """operations may refuse what the symbolic parameters ask for (a collinear basis, a small normal): not a matter of copies"""
    if not c.sym:
        try:
            return f()
        except (AssertionError, ValueError):
            from vc.dsl import Skip
            raise Skip()
    try:
        return f()
    except (AssertionError, ValueError):
        raise c.core.PathEnd()


SURF_OPS = ["translate", "rotate", "parameters", "in place"]


def surface_op(c, s, op, name="op"):
    n = type(s).__name__
    if op == "translate":
        c.cls(TR + "Translation")(c.vec(name + "_v")).applyTransformation_alg(s)
    elif op == "rotate":
        refusal(c, lambda: c.cls(TR + "Rotation")(c.rotation(name + "_R"), origin=c.vec(name + "_o")).applyTransformation_alg(s))
    elif op == "in place":
        poke(c, s)
    else:
        p = c.vec(name + "_p")
        s.tol = 0.5
        if n == "Sphere":
            s.center = p
            s.radius = 2.5
        elif n == "Plane":
            s.point = p
            s.flip_orientation()
        else:
            s.point = p
            s.radius = 2.5
            s.length = 3.5


GEN_OPS = ["transform", "origin", "cell", "in place", "fields"]


def gen_op(c, g, op, name="gop"):
    n = type(g).__name__
    if n == "NullGenerator":
        g.transform(c.cls(TR + "Translation")(c.vec(name + "_v")))
        return
    if n == "AmorphousGenerator":
        if op == "transform":
            g.transform(c.cls(TR + "Translation")(c.vec(name + "_v")))
        elif op == "origin":
            g.origin = c.vec(name + "_o")
        elif op == "in place":
            poke(c, g)
        else:
            g.species, g.density, g.min_dist, g.use_old_result = 14, 0.5, 2.5, not g.use_old_result
        return
    if op == "transform":
        refusal(c, lambda: g.transform(c.cls(TR + "Rotation")(c.rotation(name + "_R"), origin=c.vec(name + "_o"))))
    elif op == "origin":
        g.origin = c.vec(name + "_o")
    elif op == "cell":
        g.voxel.scale = 2.0
        refusal(c, lambda: setattr(g.voxel, "bases", c.mat(name + "_B")))
    elif op == "in place":
        poke(c, g)
        poke(c, g.voxel)
        if g.strain_field is not None:
            poke(c, g.strain_field)
    else:
        if g.strain_field is not None:
            g.strain_field.origin = c.vec(name + "_so")
            if type(g.strain_field).__name__ == "HStrain":
                g.strain_field.matrix = c.mat(name + "_sm")
            else:
                g.strain_field.fun_kwargs["q"].append(3)
            g.post_transform.add_transform(c.cls(PO + "ChemicalSubstitution")([8], [9], 0.25))
            t = getattr(g.post_transform, "_transforms", [None])[0]
            if t is not None:
                t.frac = 0.75
                t.target[0] = 11
        else:
            g.strain_field = c.cls(ST + "HStrain")(matrix=c.mat(name + "_m"), origin=c.vec(name + "_o"), mode="standard")


def independent(c, a, b, op, what="original"):
    """an operation on one of two separate objects is not seen through the other"""
    separate(c, "nothing that can be changed is shared", a, b)
    side = c.choice("changed", ["copy", "original"])
    x, y = (b, a) if side == "copy" else (a, b)
    before = look(c, y)
    op(x)
    same(c, "changing the %s leaves the other alone" % side, look(c, y), before)
    separate(c, "they stay separate", a, b)


# ------------------------------------------------------------------------------------------------ surfaces
@R.proof("a copied surface", [A + "BaseAlgebraic.from_alg_object"], con=120)
def surf(c):
    s = a_surface(c)
    L = look(c, s)
    k = s.from_alg_object()
    c.cover("copied")
    same(c, "the copy agrees with the original", look(c, k), L)
    same(c, "copying leaves the original alone", look(c, s), L)
    op = c.choice("op", SURF_OPS)
    independent(c, s, k, lambda x: surface_op(c, x, op))


@R.proof("a copied and transformed surface", [A + "BaseAlgebraic.from_alg_object"], con=120)
def surf_moved(c):
    s = a_surface(c)
    L = look(c, s)
    ts = [affine_transform(c, "t")]
    if c.choice("how_many", ["one", "two"]) == "two":
        ts.append(affine_transform(c, "t2", "translation"))
    k = refusal(c, lambda: s.from_alg_object(transformation=ts))
    c.cover("copied")
    same(c, "copying leaves the original alone", look(c, s), L)
    # agrees with the original moved by hand: nothing else was changed
    separate(c, "nothing that can be changed is shared", s, k)
    for t in ts:
        separate(c, "nothing that can be changed is shared with the transformation", t, k)
    m = s
    for t in ts:
        m = refusal(c, lambda: t.applyTransformation_alg(m))
    same(c, "the copy is the transformed original", look(c, k), look(c, m))


# ------------------------------------------------------------------------------------------------ generators
@R.proof("a copied generator", [G + "BaseGenerator.from_generator"], con=150, time=300)
def gen(c):
    g = a_generator(c)
    L = look(c, g)
    k = g.from_generator()
    c.cover("copied")
    same(c, "the copy agrees with the original", look(c, k), L)
    same(c, "copying leaves the original alone", look(c, g), L)
    op = c.choice("op", GEN_OPS)
    independent(c, g, k, lambda x: gen_op(c, x, op))


@R.proof("a copied and transformed generator", [G + "BaseGenerator.from_generator", G + "Generator.transform", G + "BaseGenerator.transform"], con=100, time=300)
def gen_moved(c):
    g = a_generator(c)
    L = look(c, g)
    ts = [affine_transform(c, "t")]
    k = refusal(c, lambda: g.from_generator(transformation=ts))
    c.cover("copied")
    same(c, "copying leaves the original alone", look(c, g), L)
    separate(c, "nothing that can be changed is shared", g, k)
    for t in ts:
        separate(c, "nothing that can be changed is shared with the transformation", t, k)
        refusal(c, lambda: g.transform(t))
    same(c, "the copy is the transformed original", look(c, k), look(c, g))


# ------------------------------------------------------------------------------------------------ volumes
def hull_points(c, name, n=5):
    if c.sym:
        return c.points(name, n)
    r = K.sub_rng(c, name)
    return r.normal(size=(n, 3)) * 3


def a_volume(c, name="v", gens=("none", "crystal", "amorphous"), most=2):
    kw = {}
    P = None
    if c.sym:
        # the parts of a volume do not depend on each other: one of each arrangement
        k = c.choice(name, [x for x in ["empty", "points", "surfaces", "crystal", "amorphous", "all"] if x in ("empty", "points", "surfaces", "all") or x in gens])
        ss = []
        g = None
        if k in ("points", "all"):
            P = kw["points"] = hull_points(c, name + "_P")
        if k in ("surfaces", "all"):
            ss = kw["alg_objects"] = [a_surface(c, name + "_s%d" % i, q) for i, q in enumerate(["Sphere", "Plane", "Cylinder"][:most])]
        if k == "crystal" or k == "all" and "crystal" in gens:
            g = kw["generator"] = a_generator(c, name + "_g", ["crystal"], ("dressed",))
        if k == "amorphous":
            g = kw["generator"] = a_generator(c, name + "_g", ["amorphous"])
        return c.cls(V + "Volume")(priority=3, tolerance=1e-6, **kw), P, ss, g
    if c.choice(name + "_points", ["none", "some"]) == "some":
        P = kw["points"] = hull_points(c, name + "_P")
    m = c.choice(name + "_surfaces", list(range(most + 1)))
    ss = [a_surface(c, name + "_s%d" % i, ["Sphere", "Plane", "Cylinder"][i]) for i in range(m)]
    if ss:
        kw["alg_objects"] = ss
    g = None
    k = c.choice(name + "_gen", list(gens))
    if k != "none":
        g = kw["generator"] = a_generator(c, name + "_g", [k], ("dressed",) if c.sym else ("plain", "dressed"))
    v = c.cls(V + "Volume")(priority=c.choice(name + "_prio", [0, 3]), tolerance=1e-6, **kw)
    return v, P, ss, g


VOL_OPS = ["transform", "surface", "replace surface", "points", "generator", "new generator", "in place", "priority"]


def volume_op(c, v, op, name="vop"):
    if op == "transform":
        refusal(c, lambda: v.transform(affine_transform(c, name, "translation" if c.sym else None)))
    elif op == "surface":
        v.add_alg_object(a_surface(c, name + "_s", "Sphere"))
    elif op == "replace surface":
        if v.alg_objects:
            surface_op(c, v.alg_objects[0], "parameters", name)
            v.alg_objects[0] = a_surface(c, name + "_n", "Sphere")
            v.alg_objects.pop()
    elif op == "points":
        if v.points is None:
            v.addPoints(hull_points(c, name + "_Q"))
        else:
            v.addPoints(c.vec(name + "_q"))
            v.points = hull_points(c, name + "_Q")
    elif op == "generator":
        if v.generator is not None:
            gen_op(c, v.generator, "transform", name)
            gen_op(c, v.generator, "fields", name)
    elif op == "new generator":
        v.add_generator(a_generator(c, name + "_g", ["amorphous"]))
    elif op == "in place":
        poke(c, v)
        for s in v.alg_objects:
            poke(c, s)
        if v.generator is not None:
            gen_op(c, v.generator, "in place", name)
    else:
        v.priority = 9
        v.tolerance = 0.25


def inside_like(c, label, a, b, name="p"):
    n = c.size(name + "_n", hi=6)
    X = c.points(name, n)
    ra, rb = a.checkIfInterior(X), b.checkIfInterior(X)
    c.ensure(label, c.same_array(ra, rb) if c.sym else list(ra) == list(rb))


@R.proof("a copied volume", [V + "Volume.from_volume", V + "Volume.add_alg_object", V + "Volume.add_generator", V + "Volume.addPoints"], con=200, time=300, max_paths=1500)
def vol(c):
    v, P, ss, g = a_volume(c)
    L = look(c, v)
    k = v.from_volume()
    c.cover("copied")
    same(c, "the copy agrees with the original", look(c, k), L)
    same(c, "copying leaves the original alone", look(c, v), L)
    inside_like(c, "the copy is the same region", v, k)
    op = c.choice("op", VOL_OPS)
    independent(c, v, k, lambda x: volume_op(c, x, op))


@R.proof("a copied volume with changes", [V + "Volume.from_volume", V + "Volume.transform", V + "Volume.add_generator"], con=150, time=300)
def vol_changed(c):
    v, P, ss, g = a_volume(c, gens=("none", "crystal"), most=1)
    L = look(c, v)
    what = c.choice("asked", ["generator", "transformation", "both"])
    kw = {}
    g2 = None
    if what != "transformation":
        g2 = kw["generator"] = a_generator(c, "g2", ["crystal", "null"], ("plain",))
        G2 = look(c, g2)
    if what != "generator":
        kw["transformation"] = [affine_transform(c, "t", "translation" if c.sym else None)]
    k = refusal(c, lambda: v.from_volume(**kw))
    c.cover("copied")
    same(c, "copying leaves the original alone", look(c, v), L)
    separate(c, "nothing that can be changed is shared", v, k)
    if g2 is not None:
        same(c, "the generator given is left alone", look(c, g2), G2)
        separate(c, "nothing that can be changed is shared with the generator given", g2, k)
        v.add_generator(g2)
    for t in kw.get("transformation", []):
        separate(c, "nothing that can be changed is shared with the transformation", t, k)
        refusal(c, lambda: v.transform(t))
    same(c, "the copy is the changed original", look(c, k), look(c, v))


@R.proof("surfaces and generators given to a volume", [V + "Volume.__init__", V + "Volume.add_alg_object", V + "Volume.add_generator"], con=150, time=300)
def given(c):
    how = c.choice("how", ["constructor", "later"])
    s, s2 = a_surface(c, "s", "Cylinder" if c.sym else None), a_surface(c, "s2", "Plane")
    g = a_generator(c, "g", ["crystal", "amorphous"], ("dressed",))
    S, Gn = look(c, s), look(c, g)
    if how == "constructor":
        lst = [s, s2]
        v = c.cls(V + "Volume")(alg_objects=lst, generator=g)
        c.ensure("the list given is not kept", v.alg_objects is not lst)
    else:
        v = c.cls(V + "Volume")()
        v.add_alg_object(s)
        v.add_alg_object(s2)
        v.add_generator(g)
    c.cover("stored")
    c.ensure("both surfaces are stored", len(v.alg_objects) == 2)
    same(c, "the surface stored agrees with the one given", look(c, v.alg_objects[0]), S)
    same(c, "the generator stored agrees with the one given", look(c, v.generator), Gn)
    same(c, "the surface given is left alone", look(c, s), S)
    same(c, "the generator given is left alone", look(c, g), Gn)
    for x, label in ((s, "surface"), (s2, "surface"), (g, "generator")):
        separate(c, "the volume shares nothing with the %s given" % label, v, x)
    L = look(c, v)
    if c.choice("which", ["surface", "generator"]) == "surface":
        surface_op(c, s, c.choice("op", SURF_OPS))
        surface_op(c, s2, "parameters", "op2")
    else:
        gen_op(c, g, c.choice("gop", GEN_OPS))
    same(c, "later changes to the argument do not reach the volume", look(c, v), L)
    # and the other way round
    S, Gn = look(c, s), look(c, g)
    volume_op(c, v, c.choice("vop", ["transform", "in place", "generator"]))
    same(c, "changes to the volume do not reach the surface given", look(c, s), S)
    same(c, "changes to the volume do not reach the generator given", look(c, g), Gn)


@R.proof("a generator given with an origin", [V + "Volume.add_generator", V + "Volume.__init__"], con=100)
def given_origin(c):
    g = a_generator(c, "g", ["crystal", "amorphous"], ("plain",))
    L = look(c, g)
    o = c.vec("o")
    o0 = c.snapshot(o)
    if c.choice("how", ["constructor", "later"]) == "constructor":
        v = c.cls(V + "Volume")(generator=g, gen_origin=o)
    else:
        v = c.cls(V + "Volume")()
        v.add_generator(g, origin=o)
    c.cover("stored")
    same(c, "the generator given is left alone", look(c, g), L)
    separate(c, "the volume shares nothing with the generator given", v, g)
    separate(c, "nor with the origin given", v, [o])
    if type(g).__name__ == "Generator":
        c.same("the copy sits at the origin given", v.generator.origin, o0)
        g.origin = v.generator.origin
    same(c, "and agrees in everything else", look(c, v.generator), look(c, g))


# ------------------------------------------------------------------------------------------------ composite volumes
@R.proof("a copied composite volume", [V + "MultiVolume.from_volume", V + "Volume.from_volume"], con=150, time=300)
def multi(c):
    v1 = a_volume(c, "v1", ("none", "crystal"), 1)[0]
    v2 = c.cls(V + "Volume")(alg_objects=[a_surface(c, "w", "Sphere")], priority=2)
    nested = c.choice("nested", ["flat", "nested"])
    if nested == "nested":
        m = c.cls(V + "MultiVolume")([v1, c.cls(V + "MultiVolume")([v2], priority=4)], priority=5)
    else:
        m = c.cls(V + "MultiVolume")([v1, v2], priority=5)
    L = look(c, m)
    t = affine_transform(c, "t", "translation") if c.choice("asked", ["nothing", "transformation"]) == "transformation" else None
    k = m.from_volume() if t is None else refusal(c, lambda: m.from_volume(transformation=[t]))
    c.cover("copied")
    same(c, "copying leaves the original alone", look(c, m), L)
    if t is None:
        same(c, "the copy agrees with the original", look(c, k), L)
    separate(c, "nothing that can be changed is shared", m, k)
    if t is not None:
        refusal(c, lambda: m.transform(t))
        same(c, "the copy is the transformed original", look(c, k), look(c, m))
        return
    op = c.choice("op", ["transform", "add", "member"])

    def go(x):
        if op == "transform":
            refusal(c, lambda: x.transform(affine_transform(c, "vop", "translation" if c.sym else None)))
        elif op == "add":
            x.add_volume(c.cls(V + "Volume")(alg_objects=[a_surface(c, "n", "Sphere")]))
            x.priority = 1
        else:
            volume_op(c, x.volumes[0], "replace surface")
            volume_op(c, x.volumes[0], "generator", "vop2")
            x.volumes.pop()
    independent(c, m, k, go)


# ------------------------------------------------------------------------------------------------ molecules
@R.proof("a copied molecule", [MO + "BaseMolecule.from_molecule", MO + "BaseMolecule.transform"], con=150)
def mol(c):
    from specs import c22
    m = c22.molecule(c, lo=2).mol
    m.priority = c.choice("prio", [0, 3])
    if c.choice("oriented", ["no", "yes"]) == "yes":
        m.orientation = c.rotation("O")
    L = look(c, m)
    t = affine_transform(c, "t") if c.choice("asked", ["nothing", "transformation"]) == "transformation" else None
    k = m.from_molecule() if t is None else m.from_molecule(transformation=[t])
    c.cover("copied")
    same(c, "copying leaves the original alone", look(c, m), L)
    if t is not None:
        separate(c, "nothing that can be changed is shared", m, k)
        separate(c, "nothing that can be changed is shared with the transformation", t, k)
        m.transform(t)
        same(c, "the copy is the transformed original", look(c, k), look(c, m))
        return
    same(c, "the copy agrees with the original", look(c, k), L)
    op = c.choice("op", ["transform", "positions", "species", "origin", "removal", "in place", "orientation"])

    def go(x):
        n = c.length(x.species)
        if op == "transform":
            x.transform(affine_transform(c, "mop"))
        elif op == "positions":
            x.update_positions(c.points("Y", n))
        elif op == "species":
            x.update_species(c.array("S", (n,), kind="i", lo=1, hi=94))
        elif op == "origin":
            x.set_origin(point=c.vec("q"))
        elif op == "removal":
            x.set_origin(idx=0)
            x.remove_atoms(c.np.array([1]))
        elif op == "in place":
            poke(c, x)
        else:
            x.orientation = c.rotation("O2")
            x.priority = 8
            x.print_warnings = True
    independent(c, m, k, go)


# ------------------------------------------------------------------------------------------------ any number of members
def marked(c, B, name, body, attrs):
    """an abstract class whose copies know how often they were copied"""
    def deep(self, memo):
        o = K.make(type(self), **self.__dict__)
        o.__dict__["copied"] = self.copied + 1
        memo[id(self)] = o
        return o
    return K.sub(c, B, name, dict(body, __deepcopy__=deep))


@R.proof("any number of surfaces", [V + "Volume.__init__", V + "Volume.from_volume", V + "Volume.add_alg_object"], con=0)
def many(c):
    n = c.size("n")
    B = c.cls(A + "BaseAlgebraic")
    cls = marked(c, B, "AbsSurface", {"checkIfInterior": lambda self, p: None, "params": property(lambda self: None)}, [])
    lst = K.seq(c, n, lambda k: K.make(cls, fam=c.core.SNum(c.T.ZERO, True), k=k, copied=c.core.SNum(c.T.ZERO, True)))
    v = c.cls(V + "Volume")(alg_objects=lst)
    c.cover("built")
    c.ensure("every surface is stored", c.eq(c.length(v.alg_objects), n))
    for i in c.each("i", n):
        o = c.list_at(v.alg_objects, i)
        c.ensure("the stored surface is the one given", c.eq(o.k, i))
        c.ensure("the stored surface is a copy", c.le(1, o.copied))
    k = v.from_volume()
    c.ensure("the copy has its own list", k.alg_objects is not v.alg_objects)
    c.ensure("the copy has every surface", c.eq(c.length(k.alg_objects), n))
    for i in c.each("j", n):
        o = c.list_at(k.alg_objects, i)
        c.ensure("the surface of the copy is that of the original", c.eq(o.k, i))
        c.ensure("but a copy of it", c.lt(c.list_at(v.alg_objects, i).copied, o.copied))


@R.proof("any number of members", [V + "MultiVolume.from_volume", V + "MultiVolume.__init__", V + "MultiVolume.add_volume"], con=0)
def many_members(c):
    n = c.size("n")
    B = c.cls(V + "BaseVolume")
    got = []

    def fv(self, **kw):
        o = K.make(type(self), **self.__dict__)
        o.__dict__["copied"] = self.copied + 1
        o.__dict__["asked"] = c.core.SNum(c.T.const(len(kw)), True)
        for a in kw:
            if not any(kw[a] is b for b in asked.values()):
                raise AssertionError("other arguments")
        return o
    cls = K.sub(c, B, "AbsVolume", {"__init__": lambda self: None, "from_volume": fv, "checkIfInterior": None, "populate_atoms": None, "transform": None,
                                    "priority": property(lambda self: c.core.SNum(c.T.app("vol_prio0", [c.core.poly(self.k)], True), True))})
    Z = c.core.SNum(c.T.ZERO, True)
    lst = K.seq(c, n, lambda k: K.make(cls, fam=Z, k=k, copied=Z, asked=Z))
    asked = {}
    if c.choice("asked", ["nothing", "transformation"]) == "transformation":
        asked = {"transformation": [c.cls(TR + "Translation")(c.vec("v"))]}
    m = c.cls(V + "MultiVolume")(lst, priority=3)
    k = m.from_volume(**asked)
    c.cover("copied")
    c.ensure("the copy keeps the priority", k.priority == 3)
    c.ensure("the copy has its own list", k.volumes is not m.volumes)
    c.ensure("the copy has every member", c.eq(c.length(k.volumes), n))
    for i in c.each("i", n):
        o = c.list_at(k.volumes, i)
        c.ensure("the member of the copy is that of the original", c.eq(o.k, i))
        c.ensure("but a copy of it, made as asked", c.and_(c.lt(c.list_at(m.volumes, i).copied, o.copied), c.eq(o.asked, len(asked))))


# ------------------------------------------------------------------------------------------------ histories of the real objects
@R.scenario("histories", quick=60, thorough=800, cap=30)
def histories(s):
    import czone.volume.algebraic as am
    import czone.volume.volume as vm
    import czone.generator.generator as gm
    import czone.transform.transform as tm
    import czone.transform.strain as sm
    import czone.molecule.molecule as mm
    from pymatgen.core import Structure, Lattice
    r = s.rng

    class Ctx:
        sym = False
        snapshot = staticmethod(lambda a: _np.array(a, copy=True))
    c = Ctx()

    def surf():
        k = K.rand_surface(s, am, r)
        return k

    def gen():
        k = r.integers(0, 5)
        if k == 0:
            return gm.NullGenerator()
        if k == 1:
            g = gm.AmorphousGenerator(origin=r.normal(size=3), species=int(r.integers(1, 80)), density=float(r.uniform(0.01, 0.1)))
            if r.random() < 0.5:
                g.supply_atoms(_np.array([[0.0, 0, 0], [4, 4, 4]]))
                g.use_old_result = True
            return g
        S = Structure(Lattice(_np.eye(3) * r.uniform(2, 4, size=3) + _np.tril(r.normal(size=(3, 3)), -1) * 0.3), [6, 14], [[0, 0, 0], [0.5, 0.4, 0.3]])
        g = gm.Generator(origin=r.normal(size=3), structure=S)
        if r.random() < 0.5:
            g.strain_field = sm.HStrain(matrix=_np.array([1.0, 1.05, 0.98]))
        elif r.random() < 0.5:
            g.strain_field = sm.IStrain(fun=lambda p, q=None, **k: p * (1 + 0.01 * len(q)), q=[1, 2])
        return g

    def vol():
        v = vm.Volume(points=r.normal(size=(int(r.integers(5, 9)), 3)) * 3 if r.random() < 0.5 else None, alg_objects=[surf() for _ in range(r.integers(0, 3))],
                      generator=gen() if r.random() < 0.8 else None, priority=int(r.integers(0, 5)))
        if v.points is None and not any(isinstance(x, (am.Sphere, am.Cylinder)) for x in v.alg_objects):
            v.add_alg_object(am.Sphere(2.0, r.normal(size=3)))
        return v

    def multi(d=0):
        return vm.MultiVolume([vol() if d or r.random() < 0.7 else multi(1) for _ in range(r.integers(1, 4))], priority=int(r.integers(0, 5)))

    def trans():
        k = r.integers(0, 4)
        if k == 0:
            return tm.Translation(r.normal(size=3), locked=bool(r.random() < 0.7))
        if k == 1:
            return tm.Rotation(tf.rand_rotation(r) if hasattr(tf, "rand_rotation") else tm.rot_v(r.normal(size=3), r.uniform(0, 3)), origin=r.normal(size=3))
        if k == 2:
            return tm.Reflection(am.Plane(r.normal(size=3), r.normal(size=3)))
        return tm.MultiTransform([tm.Translation(r.normal(size=3)), tm.Inversion(origin=r.normal(size=3))])

    def molecule():
        n = int(r.integers(2, 6))
        m = mm.Molecule(r.integers(1, 80, size=n), r.normal(size=(n, 3)), origin=int(r.integers(0, n)) if r.random() < 0.5 else r.normal(size=3))
        m.print_warnings = False
        return m
    probe = r.normal(size=(40, 3)) * 3
    box = _np.array([[-3.0, -3, -3], [3, 3, 3]])

    def seen(x):
        extra = []
        if isinstance(x, gm.Generator) or (isinstance(x, gm.AmorphousGenerator) and x.use_old_result):
            at, sp = x.supply_atoms(box)
            extra = [("atoms", "array", _np.array(at)), ("elements", "array", _np.array(sp))]
        L = look(c, x) + extra
        if isinstance(x, (am.BaseAlgebraic, vm.BaseVolume)):
            L.append(("inside", "array", _np.array(x.checkIfInterior(probe))))
        return L

    def agree(label, p, q):
        if [(a, b) for a, b, _ in p] != [(a, b) for a, b, _ in q]:
            s.check(label, False)
        for (a, k, u), (_, _, w) in zip(p, q):
            if k == "array":
                s.check(label + ": " + a, u.shape == w.shape and bool(_np.all(u == w)))
            else:
                s.check(label + ": " + a, u is w or bool(u == w))

    def change(x):
        if isinstance(x, am.BaseAlgebraic):
            k = r.integers(0, 4)
            if k == 0:
                trans().applyTransformation_alg(x)
            elif k == 1:
                poke(c, x)
            elif k == 2:
                x.tol = 0.3
            elif isinstance(x, am.Plane):
                x.flip_orientation()
            else:
                x.radius = 1.25
        elif isinstance(x, gm.BaseGenerator):
            k = r.integers(0, 5)
            if k == 0:
                x.transform(trans())
            elif isinstance(x, gm.AmorphousGenerator):
                poke(c, x)
                x.density = 0.3
            elif isinstance(x, gm.Generator):
                if k == 1:
                    x.origin = r.normal(size=3)
                elif k == 2:
                    x.voxel.origin[1] += 1
                    x.voxel.scale = 1.5
                elif k == 3:
                    x.structure.translate_sites([0], [0.1, 0, 0])
                    x.structure.replace(0, "O")
                else:
                    x.supply_atoms(box)
                    if isinstance(x.strain_field, sm.IStrain):
                        x.strain_field.fun_kwargs["q"].append(5)
                    elif x.strain_field is not None:
                        x.strain_field.matrix = _np.array([1.1, 1, 1])
        elif isinstance(x, vm.Volume):
            k = r.integers(0, 6)
            if k == 0:
                x.transform(trans())
            elif k == 1:
                x.add_alg_object(surf())
            elif k == 2 and x.alg_objects:
                change(x.alg_objects[int(r.integers(0, len(x.alg_objects)))])
            elif k == 3:
                x.addPoints(r.normal(size=(6, 3)))
            elif k == 4 and x.generator is not None:
                change(x.generator)
            else:
                x.priority = 7
                x.add_generator(gen())
                if x.points is not None:
                    x.points[0] += 1
        elif isinstance(x, vm.MultiVolume):
            k = r.integers(0, 4)
            if k == 0:
                x.transform(trans())
            elif k == 1:
                x.add_volume(vol())
            elif k == 2:
                x.priority = 6
            elif x.volumes:
                change(x.volumes[int(r.integers(0, len(x.volumes)))])
        else:
            k = r.integers(0, 4)
            if k == 0:
                x.transform(trans())
            elif k == 1:
                x.atoms[0] += 1
                x.species[0] = 3
            elif k == 2:
                x.set_origin(point=r.normal(size=3))
            elif len(x.species) > 1:
                x.set_origin(point=r.normal(size=3))
                x.remove_atoms([0])
                x.orientation[0, 0] = 2
    kind = ["surface", "generator", "volume", "composite", "molecule", "argument"][int(r.integers(0, 6))]
    if kind == "argument":
        v = vol()
        sf, g = surf(), gen()
        v.add_alg_object(sf)
        v.add_generator(g)
        for label, x, y in (("the surface stored", sf, v.alg_objects[-1]), ("the generator stored", g, v.generator)):
            agree(label + " agrees with the one given", seen(y), seen(x))
            s.check(label + " shares nothing with the one given", not shared(c, x, y))
        for _ in range(4):
            L = seen(v)
            change(sf), change(g)
            agree("later changes to the argument do not reach the volume", seen(v), L)
            A1, A2 = seen(sf), seen(g)
            change(v)
            agree("nor the other way round", seen(sf) + seen(g), A1 + A2)
        return
    x = {"surface": surf, "generator": gen, "volume": vol, "composite": multi, "molecule": molecule}[kind]()
    copy = {"surface": "from_alg_object", "generator": "from_generator", "volume": "from_volume", "composite": "from_volume", "molecule": "from_molecule"}[kind]
    L = seen(x)
    objs = [x]
    for _ in range(2):
        src = objs[int(r.integers(0, len(objs)))]
        S = seen(src)
        y = getattr(src, copy)()
        agree("the copy agrees with the original", seen(y), S)
        agree("copying leaves the original alone", seen(src), S)
        objs.append(y)
        if r.random() < 0.5:
            t = trans()
            z = getattr(src, copy)(transformation=[t])
            agree("copying leaves the original alone", seen(src), S)
            objs.append(z)
    for i in range(len(objs)):
        for j in range(i):
            sh = shared(c, objs[i], objs[j])
            s.check("nothing that can be changed is shared" + ("" if not sh else ": " + sh[0]), not sh)
    for _ in range(6):
        i = int(r.integers(0, len(objs)))
        before = [seen(o) for o in objs]
        try:
            change(objs[i])
        except (AssertionError, ValueError):
            pass
        for j, o in enumerate(objs):
            if j != i:
                agree("changing one leaves the others alone", seen(o), before[j])
