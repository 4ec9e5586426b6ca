"""C03 Volumes are intersections and composite volumes are unions."""
from vc.spec import Registry
from specs import common as K
import numpy as _np

R = Registry()
MODULES = ("czone.volume.volume",)
V = "czone.volume.volume."


def hull_points(c, m):
    P = c.points("H", m)
    if not c.sym:
        if m < 4 or _np.linalg.matrix_rank(P[1:] - P[0], tol=1e-3) < 3:
            from vc.dsl import Skip
            raise Skip()
        P = P + 0.0
    return P


def query(c, vol, want, single=False):
    """the verdict for each point of a batch, and of a single point"""
    N = c.size("n", big=True)
    X = c.points("X", N)
    X0 = c.snapshot(X)
    res = vol.checkIfInterior(X)
    c.cover("a batch was tested")
    c.ensure("one verdict per point", c.shape_is(res, N))
    for i in c.each("i", N):
        c.ensure("inside exactly when in the region", c.iff(c.item(res, i), want(c.row(X0, i))))
    c.same("points are not modified", X, X0)
    x = c.vec("x")
    r1 = vol.checkIfInterior(x)
    c.ensure("a single point is a batch of one", c.shape_is(r1, 1))
    c.ensure("verdict of a single point", c.iff(c.item(r1, 0), want(c.vals(x))))


@R.proof("volume of surfaces", [V + "Volume.__init__", V + "Volume.add_alg_object", V + "Volume.checkIfInterior"], con=60)
def surfaces(c):
    n = c.size("ns", hi=4)
    objs, inside = K.surfaces(c, "S", n)
    vol = c.cls(V + "Volume")(alg_objects=objs)
    query(c, vol, lambda p: c.forall(n, lambda k: inside(k, p)))
    c.ensure("the volume keeps every surface", c.eq(c.length(vol.alg_objects), n))


@R.proof("surfaces added later", [V + "Volume.add_alg_object", V + "Volume.checkIfInterior"], con=60)
def added(c):
    n = c.size("ns", hi=3)
    objs, inside = K.surfaces(c, "S", n)
    m = c.size("nt", hi=3)
    more, inside2 = K.surfaces(c, "S2", m)
    vol = c.cls(V + "Volume")(alg_objects=objs)
    vol.checkIfInterior(c.points("Y", c.size("ny")))
    for k in range(2):
        if not c.case(c.lt(k, m)):
            break
        vol.add_alg_object(c.list_at(more, k))
        query(c, vol, lambda p: c.and_(c.forall(n, lambda j: inside(j, p)), *[inside2(j, p) for j in range(k + 1)]))
        break


@R.proof("volume of points and surfaces", [V + "Volume.__init__", V + "Volume.addPoints", V + "Volume.createHull", V + "Volume.checkIfInterior"], con=60)
def points(c):
    m = c.size("m", lo=4, hi=8)
    H = hull_points(c, m)
    H0 = c.snapshot(H)
    n = c.size("ns", hi=3)
    objs, inside = K.surfaces(c, "S", n)
    tol = c.choice("tol", [1e-10, 1e-6])
    vol = c.cls(V + "Volume")(points=H, alg_objects=objs, tolerance=tol)
    c.same("the volume has the points it was given", vol.points, H0)
    query(c, vol, lambda p: c.and_(K.in_hull(c, H0, p), c.forall(n, lambda k: inside(k, p))))
    if c.sym:
        c.ensure("the hull is tested with the tolerance of the volume", all(t == tol for t in vol.tri.tols) and len(vol.tri.tols) > 0)


@R.proof("points replaced", [V + "Volume.points", V + "Volume.checkIfInterior"], con=40)
def replaced(c):
    m = c.size("m", lo=4, hi=8)
    H = hull_points(c, m)
    vol = c.cls(V + "Volume")(points=H)
    G = c.points("G", m)
    if not c.sym and _np.linalg.matrix_rank(G[1:] - G[0], tol=1e-3) < 3:
        from vc.dsl import Skip
        raise Skip()
    vol.points = G
    c.same("the new points are taken", vol.points, G)
    query(c, vol, lambda p: K.in_hull(c, G, p))


@R.proof("more points added", [V + "Volume.addPoints", V + "Volume.checkIfInterior"], con=40)
def more(c):
    m = c.size("m", lo=4, hi=8)
    H = hull_points(c, m)
    H0 = c.snapshot(H)
    vol = c.cls(V + "Volume")(points=H)
    vol.checkIfInterior(c.points("Y", c.size("ny")))
    form = c.choice("form", ["one", "several"])
    if form == "one":
        e = c.vec("e")
        vol.addPoints(e)
        G = c.np.append(H0, e.reshape(1, 3), axis=0)
    else:
        E = c.points("E", c.size("k", lo=1, hi=4))
        vol.addPoints(E)
        G = c.np.append(H0, E, axis=0)
    c.same("the points are the old ones and the new ones", vol.points, G)
    query(c, vol, lambda p: K.in_hull(c, G, p))
    c.same("the points handed over are not modified", H, H0)


@R.proof("empty volume", [V + "Volume.checkIfInterior"], con=10)
def empty(c):
    vol = c.cls(V + "Volume")()
    query(c, vol, lambda p: True)


@R.proof("union of members", [V + "MultiVolume.__init__", V + "MultiVolume.add_volume", V + "MultiVolume.checkIfInterior"], con=60)
def union(c):
    n = c.size("nv", hi=4)
    m = K.volumes(c, "M", n)
    mv = c.cls(V + "MultiVolume")(volumes=m.list)
    query(c, mv, lambda p: c.exists(n, lambda k: m.inside(k, p)))
    c.ensure("the composite keeps every member", c.eq(c.length(mv.volumes), n))


@R.proof("nested union", [V + "MultiVolume.add_volume", V + "MultiVolume.checkIfInterior"], con=40)
def nested(c):
    n = c.size("nv", hi=3)
    m = K.volumes(c, "M", n)
    ns = c.size("ns", hi=3)
    objs, inside = K.surfaces(c, "S", ns)
    inner = c.cls(V + "MultiVolume")(volumes=m.list)
    vol = c.cls(V + "Volume")(alg_objects=objs)
    outer = c.cls(V + "MultiVolume")()
    outer.add_volume(vol)
    outer.add_volume(inner)
    query(c, outer, lambda p: c.or_(c.forall(ns, lambda k: inside(k, p)), c.exists(n, lambda k: m.inside(k, p))))
