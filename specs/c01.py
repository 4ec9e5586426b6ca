"""C01 Surface interior tests decide the documented region exactly."""
from vc.spec import Registry

R = Registry()
MODULES = ("czone.volume.algebraic",)
A = "czone.volume.algebraic."


HOW = ["constructor", "replaced after use"]


def batch(c, surf, inside, n=None):
    """the result for a batch of any size is, entry by entry, the membership test; nothing is modified"""
    n = c.size("n", big=True)
    P = c.points("P", n)
    P0 = c.snapshot(P)
    state = [(k, c.snapshot(v) if hasattr(v, "shape") and v.shape else v) for k, v in sorted(vars(surf).items())]
    res = surf.checkIfInterior(P)
    c.cover("a batch was tested")
    c.ensure("one verdict per point", c.shape_is(res, n))
    for i in c.each("i", n):
        c.ensure("verdict is membership in the region", c.iff(c.item(res, i), inside(c.row(P0, i))))
    c.same("the points are not modified", P, P0)
    for k, v in state:
        w = vars(surf)[k]
        if hasattr(v, "shape") and v.shape:
            c.same("the surface is not modified", w, v)
        else:
            c.ensure("the surface is not modified", c.eq(w, v))


@R.proof("sphere", [A + "Sphere.__init__", A + "Sphere.checkIfInterior"], con=150)
def sphere(c):
    r, tol = c.real("r", pos=True), c.real("tol", pos=True, scale=0.1)
    ctr = c.vec("ctr")
    if c.choice("how", HOW) == "constructor":
        s = c.cls(A + "Sphere")(r, ctr, tol=tol)
    else:
        s = c.cls(A + "Sphere")(1.5, c.vec("ctr1"), tol=0.25)
        s.checkIfInterior(c.points("Y", c.size("ny")))
        s.radius, s.center, s.tol = r, ctr, tol
    x0 = c.vals(ctr)
    batch(c, s, lambda p: c.lt(c.norm(c.vsub(p, x0)), r + tol))


@R.proof("plane", [A + "Plane.__init__", A + "Plane.checkIfInterior"], con=150)
def plane(c):
    nv, pt = c.vec("nv"), c.vec("pt")
    tol = c.real("tol", pos=True, scale=0.1)
    ln = c.norm(c.vals(nv))
    c.require(c.lt(1e-9, ln))
    form = c.choice("form", ["flat", "column", "row", "replaced after use"])
    if form == "column":
        s = c.cls(A + "Plane")(nv.reshape(3, 1), pt.reshape(3, 1), tol=tol)
    elif form == "replaced after use":
        one = c.np.array([0.0, 0.0, 1.0])
        s = c.cls(A + "Plane")(one, c.vec("pt1"), tol=0.25)
        s.checkIfInterior(c.points("Y", c.size("ny")))
        if c.choice("first", ["point", "normal"]) == "point":
            s.point, s.normal, s.tol = pt, nv, tol
        else:
            s.tol, s.normal, s.point = tol, nv, pt
    elif form == "row":
        s = c.cls(A + "Plane")(nv.reshape(1, 3), pt.reshape(1, 3), tol=tol)
    else:
        s = c.cls(A + "Plane")(nv, pt, tol=tol)
    n0, p0 = c.vals(nv), c.vals(pt)
    batch(c, s, lambda p: c.lt(c.vdot(c.vsub(p, p0), n0) / ln, tol))


@R.proof("cylinder", [A + "Cylinder.__init__", A + "Cylinder.checkIfInterior"], con=150)
def cylinder(c):
    ax, pt = c.vec("ax"), c.vec("pt")
    tol = c.real("tol", pos=True, scale=0.1)
    r, l = c.real("r", pos=True), c.real("l", pos=True)
    c.require(c.lt(1e-9, r))
    c.require(c.lt(1e-9, l))
    ln = c.norm(c.vals(ax))
    c.require(c.lt(1e-9, ln))
    if c.choice("how", HOW) == "constructor":
        s = c.cls(A + "Cylinder")(ax, pt, r, l, tol=tol)
    else:
        one = c.np.array([0.0, 0.0, 1.0])
        s = c.cls(A + "Cylinder")(one, c.vec("pt1"), 1.5, 2.5, tol=0.25)
        s.checkIfInterior(c.points("Y", c.size("ny")))
        if c.choice("first", ["axis", "point"]) == "axis":
            s.axis, s.radius, s.point, s.length, s.tol = ax, r, pt, l, tol
        else:
            s.tol, s.length, s.point, s.radius, s.axis = tol, l, pt, r, ax
    a0, p0 = c.vals(ax), c.vals(pt)

    def inside(p):
        d = c.vsub(p, p0)
        along = c.abs(c.vdot(d, a0) / ln)
        # the distance from the axis: what is left of the displacement after removing its component along the axis
        off = c.vsub(d, c.vscale(c.vdot(d, a0) / (ln * ln), a0))
        return c.and_(c.lt(c.norm(off), r + tol), c.lt(along, l / 2 + tol))
    batch(c, s, inside)


@R.proof("bad parameters are refused", [A + "Sphere.radius", A + "Cylinder.radius", A + "Cylinder.length"], con=40)
def refused(c):
    r = c.real("r")
    c.require(c.le(r, 0))
    c.raises("a sphere needs a positive radius", ValueError, lambda: c.cls(A + "Sphere")(r, c.vec("ctr")))
    one = c.np.array([0.0, 0.0, 1.0])
    c.raises("a cylinder needs a positive radius", ValueError, lambda: c.cls(A + "Cylinder")(one, one, r, 1.0))
    c.raises("a cylinder needs a positive length", ValueError, lambda: c.cls(A + "Cylinder")(one, one, 1.0, r))
