"""C27 Squared distances follow the minimum image convention."""
import numpy as np

from vc.spec import Registry

R = Registry()
MODULES = ("czone.util.measure", "czone.generator.amorphous_algorithms")
M = "czone.util.measure."
G = "czone.generator.amorphous_algorithms."


def images(c, label, got, a, b, dims, per):
    """got is the least squared distance of a to any image b + k*dims (k integers along the periodic axes), for a
    and b within one cell of sides dims"""
    d = c.vsub(a, b)
    ks = [c.int("k%s" % i, lo=-4, hi=4) if p and not c.sym else c.int("k%s" % i) if p else 0 for i, p in enumerate(per)]
    least = []
    for i in range(3):
        if not per[i]:
            least.append(d[i] * d[i])
            continue
        D, k, x = dims[i], ks[i], d[i]
        ab = c.abs(x)
        m = c.ite(c.le(ab, D - ab), ab, D - ab)
        # no image along this axis is closer than m
        if c.sym:
            im = x + k * D
            c.fact("an image at least one cell up is past its wall", c.imp(c.le(1, k), c.le(D, k * D)))
            c.fact("an image at least one cell down is past its wall", c.imp(c.le(k, -1), c.le(k * D, -D)))
            c.fact("no image along an axis is closer than the nearer way round", c.or_(c.le(m, im), c.le(im, -m)))
            c.fact("the nearer way round is no length below zero", c.le(0, m))
            c.fact("nor is its square", c.le(m * m, im * im))
        least.append(m * m)
    c.ensure(label + ": no periodic image is closer", c.le(got, sum((d[i] + ks[i] * dims[i]) * (d[i] + ks[i] * dims[i]) for i in range(3))))
    # and an image attains it: k in {-1, 0, 1} along each periodic axis
    att = []
    for i in range(3):
        if not per[i]:
            att.append([d[i] * d[i]])
        else:
            att.append([(d[i] + k * dims[i]) * (d[i] + k * dims[i]) for k in (-1, 0, 1)])
    if c.sym:
        for i in range(3):
            if per[i]:
                c.fact("the nearer way round is an image", c.or_(*[c.eq(least[i], v) for v in att[i]]))
        c.fact("the squared distance is made of the least parts", c.eq(got, sum(least)))
    c.ensure(label + ": some periodic image is that close",
             c.or_(*[c.eq(got, x + y + z) for x in att[0] for y in att[1] for z in att[2]]))


def dims_of(c):
    return [c.real("D%s" % i, lo=8, hi=20) if not c.sym else c.real("D%s" % i, pos=True) for i in range(3)]


def within(c, p, dims, per):
    return c.and_(*[c.and_(c.le(0, p[i]), c.le(p[i], dims[i])) for i in range(3) if per[i]])


@R.proof("squared distances between two sets of points", [M + "get_sdist_fun"], con=150)
def sdist(c):
    per = tuple(c.choice("p%s" % a, [False, True]) for a in "xyz")
    n, m = c.size("n"), c.size("m")
    dims = dims_of(c)
    A, B = c.array("A", (n, 3, 1)), c.array("B", (1, 3, m))
    if not c.sym:
        # one cell holds both sets
        A, B = [np.clip(a, -3, 3 if a is A else 5) + off for a, off in ((A, 3), (B, 3))]
    form = c.choice("form", ["list", "array"])
    given = list(dims) if form == "list" else c.np.array(dims)
    A0, B0 = c.snapshot(A), c.snapshot(B)
    f = c.mod("czone.util.measure").get_sdist_fun(given, *per)
    r = f(A, B)
    back = f(B, A)
    c.cover("distances were taken")
    c.ensure("one distance for each pair", c.shape_is(r, n, m))
    c.same("the points are not modified", A, A0)
    c.same("the points are not modified", B, B0)
    for i in c.each("i", n):
        for j in c.each("j", m):
            a = [c.item(A0, i, k, 0) for k in range(3)]
            b = [c.item(B0, 0, k, j) for k in range(3)]
            c.ensure("the distance is symmetric", c.eq(c.item(r, i, j), c.item(back, i, j)))
            if not c.case(c.and_(within(c, a, dims, per), within(c, b, dims, per))):
                continue
            images(c, "each pair", c.item(r, i, j), a, b, dims, per)


@R.proof("the distance of amorphous generation", [G + "get_p_dist", M + "get_sdist_fun"], con=150)
def p_dist(c):
    n = c.size("n", big=True)
    per = (True, True, False)
    dims = dims_of(c)
    A = c.points("A", n)
    form = c.choice("form", ["row", "flat"])
    q = c.array("q", (1, 3) if form == "row" else (3,))
    if not c.sym:
        A, q = np.clip(A, -3, 3) + 3, np.clip(q, -3, 5) + 3
    A0, q0 = c.snapshot(A), c.vals(c.snapshot(q).reshape(-1))
    D = c.np.array(list(dims))
    r = c.mod("czone.generator.amorphous_algorithms").get_p_dist(A, q, D)
    other = c.mod("czone.util.measure").get_sdist_fun(list(dims), True, True, False)(A0.reshape(-1, 3, 1), c.np.array(q0).reshape(1, 3, 1))
    c.cover("distances were taken")
    c.ensure("one distance for each point", c.shape_is(r, n))
    c.same("the points are not modified", A, A0)
    c.ensure("the sides are not modified", c.veq(c.vals(D), list(dims)))
    for i in c.each("i", n):
        a = c.row(A0, i)
        c.ensure("both distance functions agree", c.eq(c.item(r, i), c.item(other, i, 0)))
        if not c.case(c.and_(within(c, a, dims, per), within(c, q0, dims, per))):
            continue
        images(c, "each point", c.item(r, i), a, q0, dims, per)


@R.proof("the batched distance test of amorphous generation", [G + "get_p_dist_batch", G + "get_p_dist"], con=150)
def p_dist_batch(c):
    n, m = c.size("n"), c.size("m")
    dims = dims_of(c)
    A = c.array("A", (n, m, 3))
    q = c.points("q", n)
    lim = c.real("lim", nonneg=True)
    A0, q0 = c.snapshot(A), c.snapshot(q)
    D = c.np.array(list(dims))
    mod = c.mod("czone.generator.amorphous_algorithms")
    r = mod.get_p_dist_batch(A, q, D, lim)
    c.cover("a batch was tested")
    c.ensure("one verdict for each new point", c.shape_is(r, n))
    c.same("the points are not modified", A, A0)
    c.same("the points are not modified", q, q0)
    for i in c.each("i", n):
        one = mod.get_p_dist(A0[i], q0[i], D)
        c.ensure("a point passes when it is further than the limit from each point it is compared with",
                 c.iff(c.item(r, i), c.forall(m, lambda j: c.lt(lim, c.item(one, j)))))
