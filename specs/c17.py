"""C17 Post-generation chemistry changes only what it targets."""
import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.transform.post",)
P = "czone.transform.post."


@R.proof("substitution", [P + "ChemicalSubstitution.__init__", P + "ChemicalSubstitution._replace_species",
                          P + "ChemicalSubstitution.apply_function"], con=200)
def substitution(c):
    n, m = c.size("n", big=True), c.size("m")
    t, s = c.array("t", (m,), kind="i"), c.array("s", (m,), kind="i")
    x, z = c.points("x", n), c.array("z", (n,), kind="i")
    x0, z0, t0, s0 = c.snapshot(x), c.snapshot(z), c.snapshot(t), c.snapshot(s)
    frac = c.real("frac", lo=0, hi=1)
    seed = c.int("seed", lo=0)
    tr = c.cls(P + "ChemicalSubstitution")(t, s, frac)
    q, w = tr.apply_function(x, z, seed=seed)
    q2, w2 = tr.apply_function(x, z, seed=seed)
    c.cover("atoms were substituted")
    c.same("the positions given are not modified", x, x0)
    c.same("the elements given are not modified", z, z0)
    c.same("the targets are not modified", t, t0)
    c.same("the substitutes are not modified", s, s0)
    c.same("positions are kept", q, x0)
    c.ensure("one element for each atom", c.shape_is(w, n))
    c.same("equal seeds give equal results", w, w2)
    c.ensure("the elements returned are a new array", c.b(not c.alias(w, z)) if hasattr(c, "alias") else True)
    for i in c.each("i", n):
        e, g = c.item(z0, i), c.item(w, i)
        c.ensure("an atom of no targeted element is kept",
                 c.or_(c.eq(g, e), c.exists(m, lambda j: c.eq(c.item(t0, j), e))))
        c.ensure("an atom keeps its element or gets the substitute paired with it",
                 c.or_(c.eq(g, e), c.exists(m, lambda j: c.and_(c.eq(c.item(t0, j), e), c.eq(c.item(s0, j), g)))))
        c.ensure("fraction zero replaces no atom", c.imp(c.eq(frac, 0), c.eq(g, e)))
        c.ensure("fraction one replaces every targeted atom",
                 c.imp(c.and_(c.eq(frac, 1), c.exists(m, lambda j: c.eq(c.item(t0, j), e))),
                       c.exists(m, lambda j: c.and_(c.eq(c.item(t0, j), e), c.eq(c.item(s0, j), g)))))


@R.proof("a sequence of transformations", [P + "PostSequence.__init__", P + "PostSequence.add_transform", P + "PostSequence.apply_function"], con=100)
def sequence(c):
    n, k = c.size("n", big=True), c.size("k")
    x, z = c.points("x", n), c.array("z", (n,), kind="i")
    x0, z0 = c.snapshot(x), c.snapshot(z)
    seed = c.int("seed", lo=0)
    how = c.choice("how", ["given at once", "added later", "one, then the rest"])
    base = c.cls(P + "BasePostTransform")
    if c.sym:
        T, Q, S = c.T, c.core.poly, c.arr.SArr
        f, g = x0.snap(), z0.snap()
        c.absfn.FACTS["pstate"] = lambda a: [T.implies(T.eq(a[0], T.ZERO), T.eq(T.app("pstate", a), Q(f(a[1:]))))]
        c.absfn.FACTS["zstate"] = lambda a: [T.implies(T.eq(a[0], T.ZERO), T.eq(T.app("zstate", a, True), Q(g(a[1:]))))]
        c.absfn.FACTS["natoms"] = lambda a: [T.le0(-T.app("natoms", a, True)),
                                             T.implies(T.eq(a[0], T.ZERO), T.eq(T.app("natoms", a, True), Q(n)))]

        def size(m):
            return T.app("natoms", [m], True)

        def state(m):
            return (S((size(m), 3), "f", lambda i: T.app("pstate", [m] + list(i))), S((size(m),), "i", lambda i: T.app("zstate", [m] + list(i), True)))

        def is_state(label, q, w, m):
            q, w = c.arr.to_arr(q), c.arr.to_arr(w)
            p2, w2 = state(m)
            c.ensure(label, c.and_(c.same_array(q, p2), c.same_array(w, w2)))

        def apply(self, points, species, **kw):
            is_state("each member is given the result of the one before", points, species, Q(self.k))
            c.ensure("each member is given the seed", c.eq(kw.get("seed", -1), seed))
            return state(Q(self.k) + T.ONE)
        cls = K.sub(c, base, "SomePostTransform", {"apply_function": apply})
        members = K.seq(c, k, lambda j: K.make(cls, k=j))
        from vc import rt

        def carry(v):
            if not isinstance(v, S):
                return None
            return (lambda m: state(m)[0]) if len(v.sh) == 2 else (lambda m: state(m)[1])
        rt.CARRY.append(carry)
    else:
        rng = K.sub_rng(c, "T")
        given = []

        class Some(base):
            def __init__(self, k, A, b, keep):
                self.k, self.A, self.b, self.keep = k, A, b, keep

            def apply_function(self, points, species, **kw):
                given.append((self.k, kw.get("seed")))
                return self.of(points, species)

            def of(self, points, species):
                if self.keep:
                    return points @ self.A + self.k, species * 2 + self.b
                return points[:-1], species[:-1]
        members = [Some(j, rng.normal(size=(3, 3)), int(rng.integers(0, 5)), rng.random() < 0.8) for j in range(k)]
    if how == "given at once":
        seq = c.cls(P + "PostSequence")(members)
    elif how == "added later":
        seq = c.cls(P + "PostSequence")(None)
        seq.add_transform(members)
    else:
        seq = c.cls(P + "PostSequence")(None)
        c.require(c.le(1, k))
        if c.sym:
            seq.add_transform(K.make(cls, k=0))
            seq.add_transform(K.seq(c, k - 1, lambda j: K.make(cls, k=j + 1)))
        else:
            seq.add_transform(members[0])
            seq.add_transform(members[1:])
    q, w = seq.apply_function(x, z, seed=seed)
    c.cover("a sequence was applied")
    if c.sym:
        is_state("the result is that of the last member", q, w, Q(k))
        return
    p, s = x0, z0
    for t in members:
        p, s = t.of(p, s)
    c.ensure("the members are applied in order, each to the result of the one before", np.array_equal(p, q) and np.array_equal(s, w))
    c.ensure("each is applied once, with the seed", given == [(j, seed) for j in range(k)])


@R.scenario("substitutions with chained, repeated and extreme requests", quick=60, thorough=600)
def substitutions(c):
    rng = c.rng
    from czone.transform import post as m
    n, k = int(rng.integers(0, 30)), int(rng.integers(0, 5))
    pool = rng.integers(1, 9, size=4)
    kind = [np.int64, np.int32, float][rng.integers(0, 3)]
    z = rng.choice(pool, size=n).astype(kind)
    x = rng.normal(size=(n, 3))
    t = [int(v) for v in rng.choice(pool, size=k)]
    s = [int(v) for v in rng.choice(np.append(pool, 30), size=k)]
    frac = [0, 1, 0.0, 1.0, 0.5, float(rng.uniform())][rng.integers(0, 6)]
    form = [list, tuple, np.array][rng.integers(0, 3)]
    tr = m.ChemicalSubstitution(form(t), form(s), frac)
    x0, z0 = x.copy(), z.copy()
    x.flags.writeable = z.flags.writeable = False
    seed = int(rng.integers(0, 10 ** 6))
    q, w = tr.apply_function(x, z, seed=seed)
    q2, w2 = tr.apply_function(x, z, seed=seed)
    c.same("positions are kept", q, x0)
    c.same("equal seeds give equal results", w, w2)
    c.check("the arrays given are not modified", np.array_equal(x, x0) and np.array_equal(z, z0))
    c.check("one element for each atom", w.shape == z.shape)
    q3, w3 = tr.apply_function(x, z)
    for w in (w, w3):
        for e, g in zip(z0, w):
            allowed = {b for a, b in zip(t, s) if a == e}
            c.check("a non-targeted atom is kept, a targeted one gets its own element or a paired substitute", g == e or g in allowed)
            if frac == 0:
                c.check("fraction zero replaces none", g == e)
            if frac == 1 and allowed:
                c.check("fraction one replaces every targeted atom", g in allowed)
    # through a sequence, elements made by one member are targets of the next
    if n and k:
        a, b, d = 1, 50, 60
        z = np.where(rng.random(n) < 0.5, a, 2)
        seq = m.PostSequence([m.ChemicalSubstitution([a], [b], 1), m.ChemicalSubstitution([b], [d], 1)])
        q, w = seq.apply_function(x, z, seed=seed)
        c.check("the members of a sequence are applied in order", np.array_equal(w, np.where(z == a, d, z)) and np.array_equal(q, x0))
        # part of the atoms, with equal seeds
        half = m.ChemicalSubstitution([a, 2], [2, a], 0.5)
        w1, w2 = half.apply_function(x, z, seed=seed)[1], half.apply_function(x, z, seed=seed)[1]
        c.same("equal seeds give equal results", w1, w2)
