"""C06 Populating a volume keeps exactly the supplied atoms that lie inside."""
from vc.spec import Registry
from specs import common as K
import numpy as _np

R = Registry()
MODULES = ("czone.volume.volume", "czone.generator.generator")
V = "czone.volume.volume."
G = "czone.generator.generator."


def generator(c, name):
    """(generator, the boxes it was asked to fill, what it supplied last)"""
    if c.sym:
        g = K.make(K.abs_generator(c), k=c.int(name))
        del c.gen_calls[:]
        return g, (lambda v: [x[1] for x in c.gen_calls]), (lambda v: c.gen_out)
    rng = K.sub_rng(c, name)
    n = int(rng.integers(0, 12))
    pts = rng.normal(size=(n, 3)) * 2
    g = K.fixed_generator(c.mod("czone.generator.generator"), pts, rng.integers(1, 99, size=n))
    return g, (lambda v: v.generator.calls), (lambda v: v.generator.out0)


def region(c):
    """a volume of points and surfaces, or of surfaces alone; its box is whatever get_bounding_box returns"""
    n = c.size("ns", hi=3)
    objs, inside = K.surfaces(c, "S", n)
    if c.choice("kind", ["points", "surfaces"]) == "points":
        from specs.c03 import hull_points
        H = hull_points(c, c.size("m", lo=4, hi=8))
        H0 = c.snapshot(H)
        return dict(points=H, alg_objects=objs), H0, lambda p: c.and_(K.in_hull(c, H0, p), c.forall(n, lambda k: inside(k, p)))
    return dict(alg_objects=objs), None, lambda p: c.forall(n, lambda k: inside(k, p))


def box_contract(c, H0):
    """the caller is checked against the contract of get_bounding_box: some points, nothing changed"""
    if H0 is not None:
        return lambda v: H0
    if c.sym:
        box = c.points("box", c.size("nbox", lo=1))
        c.cls(V + "Volume").get_bounding_box = lambda self: box
        return lambda v: box
    return lambda v: v.get_bounding_box()


@R.proof("populate", [V + "Volume.populate_atoms", V + "Volume.add_generator", V + "Volume.__init__", V + "BaseVolume.atoms", V + "BaseVolume.species"], con=150)
def populate(c):
    kw, H0, inside = region(c)
    box = box_contract(c, H0)
    g, calls, out = generator(c, "gen")
    prio = c.int("prio")
    vol = c.cls(V + "Volume")(generator=g, priority=prio, **kw)
    ns = c.length(vol.alg_objects)
    gen0 = vol.generator
    if not c.sym and box(vol) is None:
        from vc.dsl import Skip
        raise Skip()
    vol.populate_atoms()
    b = calls(vol)
    c.ensure("the generator is asked once, for the bounding region", c.and_(len(b) == 1, c.same_array(b[-1], box(vol))))
    at0, sp0 = out(vol)
    m = K.supplied(c, 0, at0, sp0)
    K.kept_exactly(c, "volume", vol.atoms, vol.species, m, lambda k, i: inside(m.atom(k, i)), fn="gen_atom", pos=(0, 1), ordered=True)
    a1, s1 = c.snapshot(vol.atoms), c.snapshot(vol.species)
    # nothing else is changed
    c.ensure("the priority stays", c.eq(vol.priority, prio))
    c.ensure("the generator stays", vol.generator is gen0)
    c.ensure("the surfaces stay", c.eq(c.length(vol.alg_objects), ns))
    if H0 is not None:
        c.same("the points stay", vol.points, H0)
    X = c.points("X", c.size("nx", big=True))
    r = vol.checkIfInterior(X)
    for i in c.each("x", X.shape[0]):
        c.ensure("the region stays", c.iff(c.item(r, i), inside(c.row(X, i))))
    vol.populate_atoms()
    c.same("populating again gives the same atoms", vol.atoms, a1)
    c.same("populating again gives the same species", vol.species, s1)


@R.proof("populated again", [V + "Volume.populate_atoms", V + "Volume.add_generator", V + "BaseVolume.atoms", V + "BaseVolume.species"], con=40)
def again(c):
    """a volume that has atoms is given another generator: what it holds then is of that one alone"""
    n = c.size("ns", hi=3)
    objs, inside = K.surfaces(c, "S", n)
    box = box_contract(c, None)
    g1, calls, out = generator(c, "first")
    vol = c.cls(V + "Volume")(generator=g1, alg_objects=objs)
    box(vol)
    if not c.sym and box(vol) is None:
        from vc.dsl import Skip
        raise Skip()
    vol.populate_atoms()
    if c.sym:
        g2 = K.make(K.abs_generator(c), k=c.int("second"))
        del c.gen_calls[:]
    else:
        # as many atoms as before, elsewhere and of another kind
        rng = K.sub_rng(c, "second")
        m = len(g1.pts)
        g2 = K.fixed_generator(c.mod("czone.generator.generator"), g1.pts if rng.random() < 0.5 else rng.normal(size=(m, 3)) * 2, rng.integers(1, 99, size=m))
    vol.add_generator(g2)
    vol.populate_atoms()
    b = calls(vol)
    c.ensure("the new generator is asked, for the bounding region", c.and_(len(b) == 1, c.same_array(b[-1], box(vol))))
    if c.sym:
        c.ensure("it is the new one", c.eq(c.gen_calls[-1][0].k, g2.k))
    m = K.supplied(c, 0, *out(vol))
    K.kept_exactly(c, "volume", vol.atoms, vol.species, m, lambda k, i: c.forall(n, lambda q: inside(q, m.atom(k, i))), fn="gen_atom", pos=(0, 1), ordered=True)


@R.proof("empty space", [G + "NullGenerator.supply_atoms", G + "NullGenerator.__init__", V + "Volume.populate_atoms"], con=20)
def empty(c):
    kw, H0, inside = region(c)
    box = box_contract(c, H0)
    vol = c.cls(V + "Volume")(generator=c.cls(G + "NullGenerator")(), **kw)
    vol.populate_atoms()
    c.ensure("no atoms in empty space", c.and_(c.shape_is(vol.atoms, 0, 3), c.shape_is(vol.species, 0)))


@R.scenario("crystals in real regions", quick=40, thorough=400)
def real(s):
    import czone.volume.volume as vm
    import czone.volume.algebraic as am
    import czone.generator.generator as gm
    from specs import gen as GN
    rng = s.rng
    from vc.dsl import ConCtx
    c = ConCtx(None, rng)
    kind = ["crystal", "amorphous", "fixed"][int(rng.choice([0, 0, 0, 1, 2]))]
    if kind == "crystal":
        g = GN.crystal(c).gen
    elif kind == "amorphous":
        g = gm.AmorphousGenerator(min_dist=1.0, density=0.02, species=int(rng.integers(1, 90)))
    else:
        n = int(rng.integers(0, 60))
        g = K.fixed_generator(gm, rng.normal(size=(n, 3)) * 4, rng.integers(1, 90, size=n))
    surf = [K.rand_surface(c, am, rng) for _ in range(int(rng.integers(0, 3)))]
    center = rng.normal(size=3) * 2
    P = None
    if rng.random() < 0.5:
        P = rng.normal(size=(int(rng.integers(4, 9)), 3)) * 4 + center
    else:
        surf.append(am.Sphere(float(rng.uniform(3, 6)), center))
    kw = {}
    if kind == "crystal" and rng.random() < 0.3:
        kw["gen_origin"] = rng.normal(size=3)
    vol = vm.Volume(points=P, alg_objects=surf, generator=g, priority=int(rng.integers(-3, 4)), **kw)
    if "gen_origin" in kw:
        s.close("the origin asked for is taken", vol.generator.origin, kw["gen_origin"])
    for _ in range(2):
        if kind == "amorphous":
            vol.generator.use_old_result = True
        sup, spz = vol.generator.supply_atoms(vol.get_bounding_box())
        sup, spz = _np.array(sup), _np.array(spz)
        before = [_np.array(x) for x in (vol.points if P is not None else _np.zeros((0, 3)), vol.generator.origin if kind == "crystal" else _np.zeros(3))]
        vol.populate_atoms()
        m = _np.full(len(sup), _np.inf)
        for x in surf:
            m = _np.minimum(m, K.margin_inside(am, x, sup) + x.tol)
        keep = [None if abs(v) < 1e-7 else v > 0 for v in m]
        if P is not None:
            for i in range(len(sup)):
                if keep[i]:
                    keep[i] = K.hull_verdict(P, sup[i], tol=1e-6).v
        at, sp = vol.atoms, vol.species
        s.check("one species per atom", len(at) == len(sp))
        j = 0
        for i in range(len(sup)):
            hit = j < len(at) and _np.array_equal(at[j], sup[i]) and sp[j] == spz[i]
            if keep[i] is True:
                s.check("every supplied atom inside is kept, in order, with its species", hit)
            if keep[i] is False and hit:
                # the same atom may be supplied again later
                s.check("an atom outside is not kept", any(_np.array_equal(sup[i], sup[q]) for q in range(i + 1, len(sup))))
                continue
            if hit:
                j += 1
        s.check("nothing else is kept", j == len(at))
        after = [vol.points if P is not None else _np.zeros((0, 3)), vol.generator.origin if kind == "crystal" else _np.zeros(3)]
        s.check("populating changes neither points nor origin", all(_np.array_equal(a, b) for a, b in zip(before, after)))
        # later changes take effect
        if kind == "crystal":
            o = rng.normal(size=3)
            vol.generator.origin = o
        if rng.random() < 0.5:
            n = am.Plane(rng.normal(size=3), center + rng.normal(size=3))
            surf.append(n)
            vol.add_alg_object(n)
