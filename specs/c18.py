"""C18 Amorphous blocks respect minimum separation and density."""
import itertools

import numpy as np

from vc.spec import Registry
from vc import dsl
from specs import common as K

R = Registry()
MODULES = ("czone.generator.amorphous_algorithms", "czone.generator.generator", "czone.util.measure")
A = "czone.generator.amorphous_algorithms."
G = "czone.generator.generator."

TRUSTED = ["random streams are arbitrary functions of seed and draw number with values in [0, 1)"]
ASSUMPTIONS = ["gen_p_substrate_batched is only run concretely",
               "termination of rejection sampling is almost sure only and not proved: the claims are about blocks that are returned",
               "the block grid is used through its contract, proved in C19"]


# ------------------------------------------------------------------------------------------------ the distance
def pd(c, a, b, dims):
    """squared distance with the nearer way round in x and y (by C27 the least over all periodic images)"""
    s = 0
    for i in range(3):
        d = c.abs(a[i] - b[i])
        if i < 2:
            d = c.ite(c.le(d, dims[i] - d), d, dims[i] - d)
        s = s + d * d
    return s


# ------------------------------------------------------------------------------------------------ contract of the block grid
def up(T, v, n):
    return T.ite(T.eq(v, n - T.ONE), T.ZERO, v + T.ONE)


def dn(T, v, n):
    return T.ite(T.eq(v, T.ZERO), n - T.ONE, v - T.ONE)


def apart(T, axis, a, b, n, over):
    """blocks a and b of an axis neither are the same nor touch"""
    if axis < 2:
        return T.and_(T.not_(T.eq(a, b)), T.not_(T.eq(b, up(T, a, n))), T.not_(T.eq(b, dn(T, a, n))))
    return T.not_(T.or_(T.eq(a, b), T.and_(T.lt(a, n - T.ONE), T.eq(b, a + T.ONE)), T.and_(T.lt(T.ZERO, a), T.eq(b, a - T.ONE))))


def holds(T, axis, b, x, n, m):
    """block b of an axis holds the coordinate x"""
    return T.and_(T.le0(-b), T.lt(b, n), T.le(b * m, x), T.or_(T.lt(x, (b + T.ONE) * m), T.eq(b, n - T.ONE)))


class Grid:
    """blocks, each a list of atom numbers: cnt(xyz) of them, el(xyz, j)"""

    def __init__(self, c, m, dims, n):
        from vc import core
        self.c, self.m, self.dims, self.n = c, m, dims, n
        self._serial = core.next_serial()
        self.cnt, self.el, self.last = (lambda x: c.T.ZERO), (lambda x, j: c.T.ZERO), None
        self.names, self.base = {}, []

    def state(self):
        return self.cnt, self.el, self.last

    def put(self, cnt, el, last):
        from vc import core
        core.record(self, "state", self.state(), lambda o, n: o.state(), lambda o, n, v: o._set(v))
        self._set((cnt, el, last))

    def _set(self, v):
        self.cnt, self.el, self.last = v

    def small(self, *more):
        return small(self.c, self.base, *more)


class small:
    """only the facts about the box are used inside (and what is added there is forgotten)"""

    def __init__(self, c, base, *more):
        self.c, self.base, self.more = c, base, more

    def __enter__(self):
        E = self.c.E
        self.pc = E.pc
        E.pc = list(self.base)
        for b in self.more:
            E.assume(b)

    def __exit__(self, *a):
        self.c.E.pc = self.pc


def lemma(c, what, b, base=None):
    """proved (from the base facts only, if given), then known"""
    if base is not None:
        with small(c, base):
            c.E.oblige(what, b, kind="lemma")
    else:
        c.E.oblige(what, b, kind="lemma")
    c.E.assume(b)


def grid_contract(c, made):
    SL, T, P = c.lists.SList, c.T, c.core.poly

    def get_voxels(min_dist, dims):
        m, d = P(min_dist), [P(x) for x in c.vals(dims)]
        n = []
        for a in "xyz":
            n.append(T.fresh("blocks_" + a, True))
        g = Grid(c, m, d, n)
        for v, D in zip(n, d):
            # as many blocks as fit, and at least one
            f = T.and_(T.le(T.ONE, v), T.or_(T.eq(v, T.ONE), T.le(v * m, D)))
            c.E.assume(f)
            g.base += [f, T.lt(T.ZERO, D)]
        g.base.append(T.lt(T.ZERO, m))
        for f in [T.lt(T.ZERO, D) for D in d] + [T.lt(T.ZERO, m)]:
            c.E.oblige("the box has sides and the minimum is positive", f, kind="pre")
        made.append(g)

        def name(p, axis):
            """a name for a block number that is looked up"""
            if p.is_const or (p, axis) in g.inside or p.single_atom() is not None and p.single_atom().kind == "var":
                return p
            v = g.names.get((p, axis))
            if v is None:
                v = g.names[(p, axis)] = T.fresh("block", True)
            return v

        def block(xyz):
            class Block(SL):
                def append(self, i):
                    cnt, el, _ = g.state()
                    pos = cnt(xyz)
                    here = lambda x: T.and_(*[T.eq(a, b) for a, b in zip(x, xyz)])
                    g.put(lambda x: cnt(x) + T.ite(here(x), T.ONE, T.ZERO), lambda x, j: T.ite(T.and_(here(x), T.eq(j, pos)), P(i), el(x, j)), (xyz, pos, P(i)))

                def extend_into(self, lst):
                    """inside the loop over the blocks around: what is added there is a block for each ('gathering')"""
                    if g.collect is None:
                        return False
                    g.collect.append((lst, xyz))
                    return True

                def __setitem__(self, *a):
                    raise T.Unsupported("a block changed other than by appending")
                extend = insert = pop = remove = clear = sort = __delitem__ = __iadd__ = __setitem__
            b = Block()
            cnt, el, _ = g.state()
            b.sym = (cnt(xyz), c.lists.memo_at(lambda j: c.core.SNum(el(xyz, j), True)))
            return b
        g.lists, g.collect, g.around, g.inside = {}, None, None, set()

        def near(xyz):
            """the blocks that touch a block (C19), in some order"""
            args = n + list(xyz)
            L = T.app("nnear18", args, True)
            c.E.assume(T.le(T.ONE, L))

            def at(r):
                t = [T.app("near18", args + [r, T.const(a)], True) for a in range(3)]
                for a in range(3):
                    g.inside.add((t[a], a))
                return tuple(c.core.SNum(v, True) for v in t)
            g.around = args
            r = SL.symbolic(L, at)
            r.around = args
            return r

        def level(make, ix=()):
            """three nested lists of blocks"""
            a = len(ix)

            class Level:
                def s_len(self):
                    return c.core.SNum(n[a], True)

                def seq_len(self):
                    return n[a]

                def seq_at(self, k):
                    return nxt(k)

                def __getitem__(self, i):
                    if isinstance(i, (slice, tuple)):
                        raise T.Unsupported("blocks selected by a slice")
                    p = P(i)
                    q = name(p, a)
                    if (q, a) not in g.inside:
                        inside = T.and_(T.le0(-p), T.lt(p, n[a]))
                        lemma(c, "an existing block is looked up", inside, g.base)
                        if q is not p:
                            c.E.assume(T.eq(q, p))
                            c.E.assume(T.and_(T.le0(-q), T.lt(q, n[a])))
                        g.inside.add((q, a))
                    elif q is not p:
                        c.E.assume(T.eq(q, p))
                        c.E.assume(T.and_(T.le0(-q), T.lt(q, n[a])))
                    return nxt(q)

            def nxt(p):
                return make(ix + (p,)) if len(ix) == 2 else level(make, ix + (p,))
            return Level()
        return level(block), level(near)
    return get_voxels


def distance_contract(c):
    """contract of get_p_dist ('distances' below)"""
    T, SA = c.T, c.arr.SArr

    def get_p_dist(coords, new_coord, dims):
        f = coords.snap()
        y = [c.core.poly(v) for v in c.vals(new_coord.reshape(3) if hasattr(new_coord, "reshape") else new_coord)]
        D = [c.core.poly(v) for v in c.vals(dims)]
        return SA((coords.sh[0],), "f", lambda ix: T.app("pd18", [c.arr.as_poly(f((ix[0], T.const(a)))) for a in range(3)] + y + D))
    return get_p_dist


def pd18(c, x, y, D):
    return c.T.app("pd18", list(x) + list(y) + list(D))


# ------------------------------------------------------------------------------------------------ the loops
def scan(c, ts, test):
    """every application atom in the terms for which test(name)"""
    out = []
    for t in ts:
        for a in c.T.all_atoms(t).values():
            if a.kind == "app" and test(a.name) and a not in out:
                out.append(a)
    return out


def loops(c, made):
    """invariant of the loop over atoms: the atoms placed so far lie in the box, no two of them are nearer than the minimum;
    the blocks list only atoms placed so far and each of them is listed in the block it lies in"""
    from vc import rt, npx
    T, P, SA, N = c.T, c.core.poly, c.arr.SArr, c.core.SNum
    depth = [0]
    F = c.absfn.FACTS
    S, B, CN, BK, RK = ["%s18" % x for x in ("placed", "bel", "bcnt", "bk", "rk")]
    # arguments: state, number of atoms, ...
    F[CN] = lambda args: [T.le0(-T.app(CN, args, True)), T.implies(T.le0(args[1]), T.eq(T.app(CN, args, True), T.ZERO))]
    F[B] = lambda args: [T.implies(T.and_(T.le0(-args[-1]), T.lt(args[-1], T.app(CN, args[:-1], True))), T.and_(T.le0(-T.app(B, args, True)), T.lt(T.app(B, args, True), args[1])))]
    # listed18(list, number of atoms, position): beyond the end of the list, any atom there is
    # near18(sides, block, position, axis)
    F["near18"] = lambda args: [T.implies(T.and_(T.le0(-args[6]), T.lt(args[6], T.app("nnear18", args[:6], True))), T.and_(*[T.and_(
        T.le0(-T.app("near18", list(args[:7]) + [T.const(a)], True)), T.lt(T.app("near18", list(args[:7]) + [T.const(a)], True), args[a])) for a in range(3)]))]
    F["listed18"] = lambda args: [T.implies(T.lt0(-args[1]), T.and_(T.le0(-T.app("listed18", args, True)), T.lt(T.app("listed18", args, True), args[1])))]

    def gathering(n, at, body, cells, label):
        """the loop over the blocks around: a list is extended by each of them once, and nothing else happens"""
        g = made[-1]
        k = c.state["k"]
        serial0 = c.core.Serial.n
        r = T.fresh("around", True)
        c.E.assume(c.absfn.rng(r, P(n)))
        g.collect = []
        mark, ent = len(c.E.trail), c.E.entropy
        try:
            done = body(at(r))
            got = g.collect
        finally:
            g.collect = None
        rt.frame(mark, serial0, set(), ent)
        if done is not None or len(got) != 1:
            raise T.Unsupported("what is gathered from the blocks around")
        lst, xyz = got[0]
        if lst.sym is not None or list.__len__(lst):
            raise T.Unsupported("a list that is not empty at first")
        for a in range(3):
            if xyz[a] is not P(at(r)[a]):
                raise T.Unsupported("another block than the one around")
        lid, L = T.fresh("list", True), T.fresh("gathered", True)
        # without atoms all blocks are empty
        c.E.assume(T.and_(T.le0(-L), T.implies(T.le0(k), T.eq(L, T.ZERO))))
        lst._rec()
        lst.sym = (L, lambda j: c.core.SNum(T.app("listed18", [lid, k, j], True), True))
        g.lists[lid] = (L, list(g.around), k)
        rt.poison(cells, ())

    def for_rule(n, at, body, cells, qual, line):
        if depth[0] and made and made[-1].around is not None and P(n) is T.app("nnear18", made[-1].around, True):
            return gathering(n, at, body, cells, line)
        if depth[0] or not made or "gen_p_substrate" not in qual:
            return NotImplemented
        env = rt.closure_env(body)
        arrs = [v for v in env.values() if isinstance(v, SA) and len(v.sh) == 2 and not isinstance(v.sh[0], int) and c.arr.dp(v.sh[0]) is c.arr.dp(n)]
        gens = [v for v in env.values() if isinstance(v, npx.SRng)]
        if len(arrs) != 1:
            return NotImplemented
        X, g = arrs[0], made[-1]
        m, dims, nb = g.m, g.dims, g.n
        cur = {}

        def geometry(b, x):
            """block b contains the point x"""
            return T.and_(*[holds(T, a, b[a], x[a], nb[a], m) for a in range(3)])

        def inbox(x):
            return T.and_(*[T.and_(T.le0(-x[a]), T.le(x[a], dims[a])) for a in range(3)])

        def havoc(k):
            k = P(k)
            st = [T.fresh("st", True), k]
            x_of = lambda p: [T.app(S, st + [p, T.const(a)]) for a in range(3)]
            bk = lambda p: tuple(T.app(BK, st + [p, T.const(a)], True) for a in range(3))
            rk = lambda p: T.app(RK, st + [p], True)
            cnt = lambda x: T.app(CN, st + list(x), True)
            el = lambda x, j: T.app(B, st + list(x) + [j], True)
            isat = lambda p: T.and_(T.le0(-p), T.lt(p, k))
            X[:, :] = SA(X.sh, "f", lambda idx: T.app(S, st + list(idx)))
            g.put(cnt, el, None)
            for gen in gens:
                gen._draw()
                gen.n = N(T.fresh("draws", True), True)
            cur.update(x_of=x_of, bk=bk, rk=rk, cnt=cnt, el=el, isat=isat, k=k, st=st)

            def known(p):
                """what the invariant says of the atom p"""
                return T.implies(isat(p), T.and_(inbox(x_of(p)), geometry(bk(p), x_of(p)), T.le0(-rk(p)), T.lt(rk(p), cnt(bk(p))), T.eq(el(bk(p), rk(p)), p)))
            cur["known"] = known
            cur["pair"] = lambda p, q: T.implies(T.and_(isat(p), T.lt(p, q), T.lt(q, k)), T.le(m * m, pd18(c, x_of(p), x_of(q), dims)))
            c.state = cur
            c.grid = g
            return []

        def check(k, when):
            O = lambda what, b: c.E.oblige("%s (%s)" % (what, when), b, kind="inv")
            w = [T.fresh("x", True) for _ in range(3)]
            j = T.fresh("j", True)
            if k is T.ZERO:
                O("every block starts empty", T.eq(g.cnt(w), T.ZERO))
                return
            i = k - T.ONE
            f = X.snap()
            at_ = lambda p: [c.arr.as_poly(f((p, T.const(a)))) for a in range(3)]
            new = at_(i)
            x_of, bk, rk = cur["x_of"], cur["bk"], cur["rk"]
            p, q = T.fresh("p", True), T.fresh("q", True)
            old = T.and_(T.le0(-p), T.lt(p, i))
            if g.last is None:
                O("the new atom is listed", T.FALSE)
                return
            b, pos, num = g.last
            # names for the coordinates
            v = [T.fresh("new", False) for _ in range(3)]
            for a in range(3):
                c.E.assume(T.eq(v[a], new[a]))
            full = c.E.pc
            # those placed before stay where they are and stay listed
            O("atoms placed earlier stay", T.implies(old, T.and_(*[T.eq(y, z) for y, z in zip(at_(p), x_of(p))])))
            with c.under(c.core.SBool(old)):
                c.E.assume(cur["known"](p))
                O("they stay listed", T.and_(T.lt(rk(p), g.cnt(bk(p))), T.eq(g.el(bk(p), rk(p)), p)))
            O("blocks list only atoms placed so far", T.implies(T.and_(T.le0(-j), T.lt(j, g.cnt(w))), T.and_(T.le0(-g.el(w, j)), T.lt(g.el(w, j), k))))
            O("the new atom is listed", T.and_(T.eq(num, i), T.le0(-pos), T.lt(pos, g.cnt(b)), T.eq(g.el(b, pos), i)))
            names = {q_: p_ for (p_, ax), q_ in g.names.items()}
            for a in range(3):
                lemma(c, "a random point lies in the box", T.and_(T.le0(-new[a]), T.le(new[a], dims[a])), g.base)
                bb = names.get(b[a], b[a])
                lemma(c, "the new atom lies in its block", holds(T, a, bb, new[a], nb[a], m), g.base)
                c.E.assume(holds(T, a, b[a], v[a], nb[a], m))
                c.E.assume(T.and_(T.le0(-v[a]), T.le(v[a], dims[a])))
            # the new atom keeps its distance from an atom p placed before
            x, bp = x_of(p), bk(p)
            d = pd18(c, x, new, dims)
            with c.under(c.core.SBool(old)):
                c.E.assume(cur["known"](p))
                touch = []
                for a in range(3):
                    # 'blocks that do not touch'
                    far = apart(T, a, b[a], bp[a], nb[a], None)
                    lemma(c, "the conditions of the lemma", T.and_(*[holds(T, a, b[a], v[a], nb[a], m), holds(T, a, bp[a], x[a], nb[a], m), T.le0(-v[a]), T.le(v[a], dims[a]), T.le0(-x[a]), T.le(x[a], dims[a])]))
                    c.E.assume(T.implies(far, T.le(m * m, d)))
                    touch.append(T.not_(far))
                mins = scan(c, c.E.pc, lambda nm: nm in c.absfn.META and c.absfn.META[nm][0] == "min")
                with c.under(*[c.core.SBool(u) for u in touch]):
                    for lid, (L, args, k_) in g.lists.items():
                        if args[3:] != list(b):
                            continue
                        # the block of p is among those around (C19), so p is in the list
                        r = T.app("where18", args + list(bp), True)
                        L_ = lambda what, f_: lemma(c, what, f_)
                        L_("the block of the other atom exists", T.and_(*[T.and_(T.le0(-u), T.lt(u, w_)) for u, w_ in zip(bp, nb)]))
                        c.E.assume(T.and_(c.absfn.rng(r, T.app("nnear18", args, True)), *[T.eq(T.app("near18", args + [r, T.const(a)], True), bp[a]) for a in range(3)]))
                        jj = T.app("pos18", [lid, r, rk(p)], True)
                        e = T.app("listed18", [lid, k_, jj], True)
                        t = [T.app("near18", args + [r, T.const(a)], True) for a in range(3)]
                        L_("it is listed there", T.and_(T.lt(rk(p), cur["cnt"](t)), T.eq(cur["el"](t, rk(p)), p)))
                        # 'gathering'
                        c.E.assume(T.implies(T.and_(c.absfn.rng(r, T.app("nnear18", args, True)), T.le0(-rk(p)), T.lt(rk(p), cur["cnt"](t))), T.and_(c.absfn.rng(jj, L), T.eq(e, cur["el"](t, rk(p))))))
                        L_("it is in the list", T.and_(T.eq(e, p), c.absfn.rng(jj, L)))
                        for mn in mins:
                            which, cbod, cn, cb, cps = c.absfn.META[mn.name]
                            val = c.absfn.inst(cbod, cps, list(mn.args), [cb], [jj])
                            if not any(T.atom_poly(a_) is e for a_ in scan(c, [val], lambda nm: nm == "listed18")):
                                continue
                            ln = c.absfn.inst(cn, cps, list(mn.args), [], [])
                            c.E.assume(T.implies(c.absfn.rng(jj, ln), T.le(T.atom_poly(mn), val)))
                            L_("the list compared with is that long", T.lt(jj, ln))
                            L_("the distance is that compared", T.eq(val, d))
                    L_("it is not too near", T.le(m * m, d))
                # shown under its condition
                c.E.assume(T.implies(T.and_(*touch), T.le(m * m, d)))
                O("the new atom keeps its distance", T.le(m * m, d))
            # and two placed before do as they did
            with c.under(c.core.SBool(T.and_(old, T.lt(p, q), T.lt(q, i)))):
                c.E.assume(cur["pair"](p, q))
                O("atoms placed earlier stay where they were", T.and_(*[T.eq(y, z) for r in (p, q) for y, z in zip(at_(r), x_of(r))]))

        def deeper(x):
            depth[0] += 1
            try:
                return body(x)
            finally:
                depth[0] -= 1
        return rt.invariant_for(n, at, deeper, cells, "the loop over atoms", check, havoc)

    def while_rule(cond, body, cells, qual, line):
        if not depth[0]:
            return NotImplemented
        env = rt.closure_env(cond, body)
        gens = [v for v in env.values() if isinstance(v, npx.SRng)]

        def havoc():
            for gen in gens:
                gen._draw()
                gen.n = N(T.fresh("draws", True), True)
        return rt.last_iteration(cond, body, cells, havoc)
    rt.FOR_RULES[:] = [for_rule]
    rt.WHILE_RULES[:] = [while_rule]


@R.proof("blocks that do not touch", [], con=0)
def touching(c):
    """lemma: points of a box in blocks that do not touch along one axis are a minimum apart, the nearer way round in x and y"""
    if not c.sym:
        raise dsl.Skip()
    T, P = c.T, c.core.poly
    m = P(c.real("m", pos=True))
    D = [P(c.real("D%d" % a, pos=True)) for a in range(3)]
    axis = c.choice("axis", [0, 1, 2])
    n = P(c.int("n", lo=1))
    c.E.assume(T.or_(T.eq(n, T.ONE), T.le(n * m, D[axis])))
    x, y = ([P(c.real(u + str(a))) for a in range(3)] for u in "xy")
    a, b = P(c.int("a", lo=0)), P(c.int("b", lo=0))
    for v, k in ((x, a), (y, b)):
        c.E.assume(T.and_(T.le0(-v[axis]), T.le(v[axis], D[axis])))
        c.E.assume(holds(T, axis, k, v[axis], n, m))
    c.E.assume(apart(T, axis, a, b, n, None))
    one, two = T.ONE, T.const(2)
    ax = axis
    L = lambda what, f: (c.E.oblige(what, f, kind="lemma"), c.E.assume(f))
    if c.case(c.core.SBool(T.lt(b, a))):
        lo, hi, xl, xh = b, a, y[ax], x[ax]
    else:
        lo, hi, xl, xh = a, b, x[ax], y[ax]
    L("two blocks apart", T.le(lo + two, hi))
    L("blocks are in order", T.le((lo + two) * m, hi * m))
    L("the lower point is below its upper face", T.lt(xl, (lo + one) * m))
    L("points two blocks apart are a block apart", T.le(m, xh - xl))
    if ax < 2:
        L("a first block does not meet a last one", T.not_(T.and_(T.eq(lo, T.ZERO), T.eq(hi, n - one))))
        L("the side holds the blocks", T.le(n * m, D[ax]))
        if c.case(c.core.SBool(T.eq(hi, n - one))):
            L("a first block is not met across the boundary", T.le(m, lo * m))
            L("the way round is no shorter", T.le(m, D[ax] - (xh - xl)))
        else:
            L("an inner block ends before the last one", T.le((hi + one) * m, (n - one) * m))
            L("it holds its point", T.lt(xh, (hi + one) * m))
            L("the lower point is not below the box", T.le0(-lo * m))
            L("the way round is no shorter", T.le(m, D[ax] - (xh - xl)))
    d = [T.absv(u - v) for u, v in zip(x, y)]
    w = [T.ite(T.le(u, s - u), u, s - u) if k < 2 else u for k, (u, s) in enumerate(zip(d, D))]
    L("apart along the axis", T.le(m, w[ax]))
    v = [P(c.real("w%d" % k)) for k in range(3)]
    for k in range(3):
        c.E.assume(T.eq(v[k], w[k]))
    L("its square", T.le(m * m, v[ax] * v[ax]))
    L("squares", T.and_(*[T.le0(-u * u) for u in v]))
    c.ensure("so are the points", c.core.SBool(T.le(m * m, sum((u * u for u in v), T.ZERO))))


@R.proof("distances", [A + "get_p_dist"], con=200)
def distances(c):
    f = c.mod("czone.generator.amorphous_algorithms").get_p_dist
    n = c.size("n", lo=0, hi=5)
    X = c.points("X", n)
    y = c.array("y", (1, 3))
    D = c.array("D", (3,))
    if not c.sym:
        D = np.abs(D) + 0.5
        X, y = np.abs(X) % D, np.abs(y) % D
    before = [c.snapshot(v) for v in (X, y, D)]
    for a in range(3):
        c.require(c.lt(0, c.item(D, a)))
    r = f(X, y, D)
    c.cover("distances were computed")
    c.ensure("one distance per atom", c.shape_is(r, n))
    Dv, yv = c.vals(D), c.row(y, 0)
    for i in c.each("i", n):
        x = c.row(X, i)
        inside = c.and_(*[c.and_(c.le(0, u), c.le(u, s)) for v in (x, yv) for u, s in zip(v, Dv)])
        if not c.case(inside):
            # only atoms within the box are asked about
            continue
        c.ensure("the squared distance, the nearer way round in x and y", c.eq(c.item(r, i), pd(c, x, yv, Dv)))
    for v, w in zip((X, y, D), before):
        c.ensure("the positions and sides given are unchanged", c.same_array(v, w))


def rounded(c, n, v):
    """n is v rounded to a whole number"""
    return c.and_(c.le(n - v, 0.5), c.le(v - n, 0.5))


def far_enough(c, X, i, j, dims, m):
    a, b = c.row(X, i), c.row(X, j)
    return c.le(m * m * (1 if c.sym else 1 - 1e-9), pd(c, a, b, dims))


@R.proof("blocks of atoms", [A + "gen_p_substrate"], con=60, time=400)
def blocks(c):
    D = [c.real("D" + a, lo=2, hi=12) for a in "xyz"]
    m = c.real("m", lo=0.5, hi=4)
    if c.sym:
        for v in D + [m]:
            c.require(c.lt(0, v))
        rho = c.real("rho", pos=True)
    else:
        # a density that can be reached by rejection sampling
        rho = c.real("rho", lo=0.02, hi=0.35) / m ** 3
    seed = c.int("seed", lo=0)
    mod = c.mod("czone.generator.amorphous_algorithms")
    made = []
    if c.sym:
        mod.get_voxels = grid_contract(c, made)
        mod.get_p_dist = distance_contract(c)
        loops(c, made)
    form = c.choice("form", ["array", "list"])
    dims = c.np.array(D) if form == "array" else list(D)
    X = mod.gen_p_substrate(dims, m, density=rho, seed=seed)
    c.cover("a block was made")
    n = c.length(X)
    c.ensure("the sides given are unchanged", c.veq(c.vals(c.np.array(dims)), D))
    c.ensure("as many atoms as density times volume, rounded", rounded(c, n, D[0] * D[1] * D[2] * rho))
    c.ensure("one position per atom", c.shape_is(X, n, 3))
    for i in c.each("i", n):
        if c.sym:
            T, P = c.T, c.core.poly
            c.E.assume(c.state["known"](P(i)))
        x = c.row(X, i)
        c.ensure("every atom lies in the box", c.and_(*[c.and_(c.le(0, x[a]), c.le(x[a], D[a])) for a in range(3)]))
        for j in c.each("j", n):
            if c.sym:
                c.require(c.lt(i, j))
                c.E.assume(c.state["known"](P(j)))
                c.E.assume(c.state["pair"](P(i), P(j)))
                y = c.row(X, j)
                c.fact("both are in the box", c.and_(*[c.and_(c.le(0, u), c.le(u, s)) for v in (x, y) for u, s in zip(v, D)]))
                # 'distances'
                c.require(c.eq(c.core.SNum(pd18(c, [P(v) for v in x], [P(v) for v in y], [P(v) for v in D])), pd(c, x, y, D)))
                c.fact("the nearer way round is long enough", far_enough(c, X, i, j, D, m))
                y = c.row(X, j)
                d = c.vsub(x, y)
                ks = [c.int("kx"), c.int("ky")]
                least = []
                for a in range(2):
                    w = c.abs(d[a])
                    w = c.ite(c.le(w, D[a] - w), w, D[a] - w)
                    im = d[a] + ks[a] * D[a]
                    c.fact("an image at least one cell up is past its wall", c.imp(c.le(1, ks[a]), c.le(D[a], ks[a] * D[a])))
                    c.fact("an image at least one cell down is past its wall", c.imp(c.le(ks[a], -1), c.le(ks[a] * D[a], -D[a])))
                    c.fact("no image along an axis is closer than the nearer way round", c.or_(c.le(w, im), c.le(im, -w)))
                    c.fact("the nearer way round is no length below zero", c.le(0, w))
                    c.fact("nor is its square", c.le(w * w, im * im))
                    least.append((w, im))
                u = c.sym and [x0 - y0 for x0, y0 in zip(x, y)]
                c.ensure("no periodic image of an atom is nearer than the minimum to another", c.le(m * m, least[0][1] * least[0][1] + least[1][1] * least[1][1] + u[2] * u[2]))
            elif i < j:
                c.ensure("no periodic image of an atom is nearer than the minimum to another", far_enough(c, X, i, j, D, m))


# ------------------------------------------------------------------------------------------------ the generator
@R.proof("supplied blocks", [G + "AmorphousGenerator.supply_atoms"], con=40)
def supplied(c):
    mod = c.mod("czone.generator.generator")
    cls = c.cls(G + "AmorphousGenerator")
    m, rho = c.real("m", pos=True), c.real("rho", pos=True)
    Z = c.int("Z", lo=1, hi=118)
    nb = c.size("corners", lo=1, hi=8)
    box = c.points("box", nb)
    if not c.sym:
        m, rho = 0.5 + m % 1.0, 0.02 + 0.1 * (rho % 1.0)
        c.require(bool((np.ptp(box, axis=0) > 0.3).all()))
    box0 = c.snapshot(box)
    asked = []
    if c.sym:
        T, P, SA = c.T, c.core.poly, c.arr.SArr

        def block(dims, min_dist=1.4, density=.1103075, print_progress=False, seed=0):
            """contract of gen_p_substrate ('blocks of atoms'): atoms between zero and the sides"""
            d = [c.core.SNum(P(v)) for v in c.vals(dims)]
            n, st = c.core.SNum(T.fresh("made", True), True), T.fresh("st", True)
            c.require(c.le(0, n))
            nm = "supplied18"
            # the last arguments: number of atoms and sides
            c.absfn.FACTS[nm] = lambda args: [T.implies(T.and_(c.absfn.rng(args[5], args[4]), T.eq(args[6], T.const(a))), T.and_(T.le0(-T.app(nm, args)), T.le(T.app(nm, args), args[1 + a]))) for a in range(3)]
            r = SA((P(n), T.const(3)), "f", lambda ix: T.app(nm, [st] + [P(v) for v in d] + [P(n), ix[0], ix[1]])).fresh_copy()
            asked.append((d, min_dist, density, n, r))
            return r
        mod.gen_p_substrate = block
    g = cls(min_dist=m, density=rho, species=Z)
    reuse = c.choice("reuse at first", [False, True])
    g.use_old_result = reuse
    X, S = g.supply_atoms(box)
    X0, S0 = c.snapshot(X), c.snapshot(S)
    c.cover("atoms were supplied")

    def verify(X, S):
        n = c.length(X)
        c.ensure("one species per atom", c.eq(c.length(S), n))
        for i in c.each("i", n):
            c.ensure("all atoms are of the element", c.eq(c.item(S, i), Z))
            for a in range(3):
                lo, hi = c.np.min(box, axis=0)[a], c.np.max(box, axis=0)[a]
                c.ensure("atoms lie inside the bounding box", c.and_(c.le(lo - (0 if c.sym else 1e-9), c.item(X, i, a)), c.le(c.item(X, i, a), hi + (0 if c.sym else 1e-9))))
    verify(X, S)
    if c.sym:
        c.ensure("a block is made for the first box", len(asked) == 1)
        made = asked[-1]
        for a in range(3):
            c.ensure("the block has the sides of the box", c.eq(made[0][a], c.np.max(box, axis=0)[a] - c.np.min(box, axis=0)[a]))
        c.ensure("the minimum separation is that of the generator", c.eq(made[1], m))
        c.ensure("the density is that of the generator", c.eq(made[2], rho))
        c.ensure("all atoms of the block are supplied", c.eq(c.length(X), made[3]))
        for i in c.each("i", c.length(X)):
            for j in c.each("j", c.length(X)):
                c.ensure("the block is moved as a whole", c.veq(c.vsub(c.row(X, i), c.row(X, j)), c.vsub(c.row(made[4], i), c.row(made[4], j))))
    c.ensure("the box given is unchanged", c.same_array(box, box0))
    # again
    again = c.choice("reuse then", [False, True])
    g.use_old_result = again
    Y, U = g.supply_atoms(box)
    if again:
        c.ensure("the previous block is reused when told to", c.and_(c.same_array(Y, X0), c.same_array(U, S0)))
        if c.sym:
            c.ensure("no block is made then", len(asked) == 1)
    else:
        verify(Y, U)
        if c.sym:
            c.ensure("a block is made otherwise", len(asked) == 2)
    c.ensure("what was supplied before is unchanged", c.and_(c.same_array(X, X0), c.same_array(S, S0)))


# ------------------------------------------------------------------------------------------------ concrete runs
def block_runs(s, f, batched):
    rng = s.rng
    m = float(rng.choice([1.4, rng.uniform(0.6, 3.0)]))
    k = int(rng.integers(0, 4))
    if k == 0:
        D = m * rng.uniform(2.05, 6, size=3)
    elif k == 1:
        D = m * rng.integers(2, 6, size=3) * rng.choice([1.0, 1.0 + 1e-9, 1.0 - 1e-9])
    elif k == 2:
        D = m * np.array([rng.uniform(1.0, 3.2), rng.uniform(2, 8), rng.uniform(0.3, 8)])
    else:
        D = m * rng.uniform(1.0, 7.0, size=3)
    rho = rng.uniform(0.02, 0.30) / m ** 3
    crowded = batched and rng.random() < 0.3
    if crowded:     # batches with many acceptable atoms, in boxes of many blocks
        D, rho = m * rng.uniform([5, 5, 4], [11, 11, 8]), rng.uniform(0.15, 0.33) / m ** 3
    N = int(np.round(np.prod(D) * rho))
    if N > 250 and not crowded or N > 0.4 * max(1, np.prod(np.maximum(1, D / m))):
        s.skip()
    kw = dict(min_dist=m, density=rho, seed=int(rng.integers(0, 2 ** 31)))
    if crowded:
        kw["batch_size"] = int(rng.choice([16, 24, 40, 64]))
    elif batched and rng.random() < 0.5:
        kw["batch_size"] = int(rng.integers(1, 40))
    dims = [D, list(D), tuple(D)][rng.integers(3)] if not batched else D
    s.note(D=D.tolist(), **kw)
    D0 = D.copy()
    X = f(dims, **kw)
    s.check("the sides given are unchanged", np.array_equal(D, D0))
    s.check("as many atoms as density times volume, rounded", X.shape == (N, 3), (X.shape, N))
    s.check("every atom lies in the box", (X >= 0).all() and (X <= D).all())
    if N > 1:
        # images in their own cells do not count as other atoms
        Z = np.vstack([X + np.array([i * D[0], j * D[1], 0.0]) for i in (0, 1, -1) for j in (0, 1, -1)])
        from scipy.spatial import cKDTree
        pairs = [(a, b % N) for a, l in enumerate(cKDTree(Z).query_ball_point(X, m * (1 - 1e-9))) for b in l if b % N != a]
        s.check("no periodic image of an atom is nearer than the minimum to another", not pairs, pairs[:3])
    s.check("equal seeds give equal blocks", np.array_equal(f(dims, **kw), X))


@R.scenario("blocks of many shapes", quick=150, thorough=2500)
def many(s):
    from czone.generator.amorphous_algorithms import gen_p_substrate
    block_runs(s, gen_p_substrate, False)


@R.scenario("blocks made in batches", quick=100, thorough=1500)
def batches(s):
    from czone.generator.amorphous_algorithms import gen_p_substrate_batched
    block_runs(s, gen_p_substrate_batched, True)
