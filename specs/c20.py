"""C20 Random split positions keep their distance."""
import numpy as np

from vc.spec import Registry
from specs import common as K

R = Registry()
MODULES = ("czone.util.misc",)
M = "czone.util.misc."


def far(c, a, b, m):
    return c.or_(c.le(m, a - b), c.le(m, b - a))


def loops(c, n, m, l):
    """invariant of the loops of get_N_splits, for whatever it calls its list of positions and its masked candidates: there is
    at least one position and no more than asked for; every position is at least m from both ends; any two are at least m
    apart; every candidate that is not masked is at least m from every position"""
    from vc import rt
    from vc.npx import MArr, SRng
    T, P, SL = c.T, c.core.poly, c.lists.SList
    memo, depth = {}, [0]

    def rule(cond, body, cells, qual, line):
        env = rt.closure_env(cond, body)
        ls = [k for k, v in env.items() if isinstance(v, SL)]
        ms = [v for v in env.values() if isinstance(v, MArr)]
        gs = [v for v in env.values() if isinstance(v, SRng)]
        if len(ls) != 1 or len(ms) != 1 or len(gs) != 1:
            return NotImplemented
        name, mask, gen = ls[0], ms[0], gs[0]
        first = env[name]
        cell = {nm: (get, put) for nm, get, put in cells}

        def current():
            return cell[name][0]() if name in cell else first

        def clauses(s):
            k = s.seq_len()
            D = mask.data

            def sp(a):
                return s.seq_at(P(a))
            yield "there are positions, no more than asked for", c.and_(c.le(1, c.length(s)), c.le(c.length(s), n) if not inner else c.lt(c.length(s), n))
            yield "every position keeps its distance from both ends", c.forall(k, lambda a: c.and_(c.le(m, sp(a)), c.lt(sp(a), l - m)))
            yield "positions keep their distance", c.forall(k, lambda a: c.forall(k, lambda b: c.imp(c.lt(a, b), far(c, sp(a), sp(b), m))))
            yield "candidates left over keep their distance from every position", c.forall(mask.shape[0], lambda p: c.imp(
                c.not_(c.item(mask.mask, p)), c.forall(k, lambda a: far(c, c.item(D, p), sp(a), m))))

        def check(when):
            for what, f in clauses(current()):
                c.E.oblige("%s (%s)" % (what, when), c.b(f), kind="inv")

        def havoc(inside):
            # the state after the loop is a function of the state before it
            key = None if inside else rt.digest(tuple(env[k] for k in sorted(env)) + (first,))
            st = memo.get((qual, line, key)) if key is not None else None
            if st is None:
                st = T.fresh("state", True)
                if key is not None:
                    memo[(qual, line, key)] = st
            tag, ps = "in" if inside else "out", [st]
            ln = T.app("nsplits_" + tag, ps, True)
            new = SL.symbolic(ln, lambda k: c.core.SNum(T.app("split_" + tag, ps + [k], True), True))
            if name in cell:
                cell[name][1](new)
            else:
                first._rec()
                list.__delitem__(first, slice(None))
                first.sym = new.sym
            mask.mask = c.arr.SArr(mask.data.sh, "b", lambda idx: T.bapp("masked_" + tag, ps + list(idx)))
            if hasattr(gen, "_draw"):
                gen._draw()
                gen.n = c.core.SNum(T.app("draws_" + tag, ps, True), True)
            for what, f in clauses(current()):
                c.E.assume(c.b(f))
            return [name]
        # a loop inside another one looks for the next position: one is still missing
        inner = depth[0] > 0

        def deeper():
            depth[0] += 1
            try:
                return body()
            finally:
                depth[0] -= 1
        return rt.invariant_loop(cond, deeper, cells, "line %s" % line, check, havoc)
    rt.WHILE_RULES.append(rule)


@R.proof("positions", [M + "get_N_splits"], con=400, max_paths=400)
def positions(c):
    n = c.int("n", lo=0, hi=None if c.sym else 5)
    m = c.int("m", lo=0, hi=None if c.sym else 6)
    l = c.int("l", lo=0, hi=None if c.sym else 40)
    seed = c.int("seed", lo=0)
    f = c.mod("czone.util.misc").get_N_splits
    if c.sym:
        loops(c, n, m, l)
    fits = c.lt((n - 1) * m, l - 2 * m)
    if not c.case(c.or_(c.eq(n, 0), fits)):
        if c.sym:
            # there is no placement indeed: the k-th position of any sorted, separated placement is at least (k + 1) m
            T, P = c.T, c.core.poly

            def q(k):
                return c.core.SNum(T.app("placement", [P(k)], True), True)
            c.require(c.le(1, n))
            c.require(c.le(m, q(0)))
            c.require(c.forall(n - 1, lambda k: c.le(m, q(k + 1) - q(k))))
            c.induction("a position of a placement is no nearer to the start than those before it allow", n - 1,
                        lambda k: c.le((k + 1) * m, q(k)))
            c.fact("so is the last one", c.le(n * m, q(n - 1)))
            c.ensure("no placement meets a request that does not fit", c.le(l - m, q(n - 1)))
        c.raises("a request that no placement meets is refused", ValueError, lambda: f(n, m, l, seed))
        return
    s = f(n, m, l, seed)
    s2 = f(n, m, l, seed)
    c.cover("positions were chosen")
    if c.sym and c.case(c.lt(0, n)):
        c.ensure("a placement meets a request that fits", c.lt(n * m, l - m))
    k = c.length(s)
    c.ensure("as many positions as asked for", c.eq(k, n))
    c.ensure("equal seeds give equal numbers of positions", c.eq(c.length(s2), n))

    def at(l, a):
        return c.list_at(l, a)
    for a in c.each("a", n):
        x = at(s, a)
        c.ensure("every position is at least the minimum away from the start", c.le(m, x))
        c.ensure("every position is at least the minimum away from the end", c.le(m, l - x))
        c.ensure("equal seeds give equal positions", c.eq(x, at(s2, a)))
        for b in c.each("b", n):
            y = at(s, b)
            c.ensure("positions are sorted", c.imp(c.lt(a, b), c.le(x, y)))
            c.ensure("positions are at least the minimum apart", c.imp(c.lt(a, b), c.le(m, y - x)))


@R.scenario("requests of every tightness", quick=60, thorough=1500)
def requests(c):
    import signal
    from czone.util.misc import get_N_splits as f
    rng = c.rng
    n, m = int(rng.integers(0, 6)), int(rng.integers(0, 8))
    l = max(0, int((n - 1) * m + 2 * m + rng.integers(-3, 12) * rng.integers(0, 3)))
    seed = None if rng.random() < 0.2 else int(rng.integers(0, 1000))
    fits = n == 0 or l - 2 * m > (n - 1) * m

    def late(*a):
        raise TimeoutError()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(60)
    try:
        try:
            s = f(n, m, l, seed)
        except ValueError:
            c.check("a request is refused only if no placement meets it", not fits)
            return
        except TimeoutError:
            c.check("a request is answered or refused", fits)
            c.skip()
        c.check("a request that no placement meets is refused", fits)
        c.check("as many positions as asked for", len(s) == n)
        c.check("sorted", list(s) == sorted(s))
        c.check("at least the minimum from both ends", all(m <= x <= l - m for x in s))
        c.check("at least the minimum apart", all(b - a >= m for a, b in zip(s[:-1], s[1:])))
        if seed is not None:
            c.check("equal seeds give equal results", list(f(n, m, l, seed)) == list(s))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
