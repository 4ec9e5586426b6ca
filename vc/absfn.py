"""Functions defined by terms: canonical abstraction of terms with bound index variables into uninterpreted functions
with defining facts (mask selection, sums, minima, sorted order, concatenation)."""
from . import terms as T

FACTS = {}      # app name -> fn(args) -> list of Bool   (instantiated for every occurrence)
PAIR_FACTS = {} # app name -> fn(args1, args2) -> list of Bool  (instantiated for every pair of occurrences)
META = {}
HEAVY = {}      # app name -> fn(args) -> list of Bool   (as FACTS; only used by the later strategies)


def canon(terms, bound):
    """Abstract free variables.  Returns (key, params, cterms, cbound, cparams)."""
    bset = [b.single_atom() for b in bound]
    fv = set()
    for t in terms:
        fv |= T.free_vars(t)
    order = []
    seen = set(bset)

    def visit(t, done):
        if t.id in done:
            return
        done.add(t.id)
        if isinstance(t, T.Poly):
            for m, c in sorted(t.d.items(), key=lambda u: [(a.id, e) for a, e in u[0]]):
                for a, e in m:
                    if a.kind == "var":
                        if a not in seen and a in fv:
                            seen.add(a)
                            order.append(a)
                    else:
                        for x in a.args:
                            visit(x, done)
        else:
            for x in t.args:
                visit(x, done)
    done = set()
    for t in terms:
        visit(t, done)
    mp = {}
    cparams = []
    for i, a in enumerate(order):
        v = T.var("_p%d%s" % (i, "i" if a.is_int else "r"), a.is_int)
        mp[a] = v
        cparams.append(v)
    cbound = []
    for i, a in enumerate(bset):
        v = T.var("_b%d" % i, a.is_int)
        mp[a] = v
        cbound.append(v)
    s = T.Subst(mp)
    cterms = [s(t) for t in terms]
    key = "_".join(str(t.id) for t in cterms)
    return key, [T.atom_poly(a) for a in order], cterms, cbound, cparams


def inst(cterm, cparams, params, cbound, bound):
    mp = {}
    for v, x in zip(cparams, params):
        mp[v.single_atom()] = x
    for v, x in zip(cbound, bound):
        mp[v.single_atom()] = x
    return T.Subst(mp)(cterm)


def rng(i, n):
    return T.and_(T.le0(-i), T.lt(i, n))


def over_selected(k, n, b):
    """for k over the positions of a selection, and b about the selected index only: the range and the statement over the
    indices selected from instead.  {sel(k): k < count} is {j < N: mask(j)}."""
    a = n.single_atom() if not isinstance(n, int) else None
    while a is not None and a.kind == "app" and a.name.startswith("cnt#"):
        meta = META.get("sel#" + a.name[4:])
        if meta is None:
            break
        _, cm, cn, cb, cps = meta
        ps = list(a.args)
        el = T.app("sel#" + a.name[4:], ps + [k], True).single_atom()
        if el is None:
            break
        j = T.fresh("k", True)
        b2 = T.Subst({el: j})(b)
        if k.single_atom() in T.free_vars(b2):
            break
        guard = inst(cm, cps, ps, [cb], [j])
        N = inst(cn, cps, ps, [], [])
        return j, T.and_(rng(j, N), guard), b2
    return k, rng(k, n), b


def every(k, n, b):
    k, r, b = over_selected(k, n, b)
    return T.forall([k], T.implies(r, b))


def some(k, n, b):
    k, r, b = over_selected(k, n, b)
    return T.exists([k], T.and_(r, b))


# --------------------------------------------------------------------------------------------- mask selection
UNSEL = [False]     # simplify sel(rank(x)) (while the value of a masked write is computed)


def mask_sel(mask, n, iv):
    """mask: Bool over index variable iv in [0,n).  Returns (count, sel(fn), rank(fn)): the strictly increasing
    enumeration of the indices at which mask holds."""
    key, params, (cm, cn), (cb,), cps = canon([mask, n], [iv])
    k = len(params)
    cname, sname, rname = "cnt#" + key, "sel#" + key, "rank#" + key

    def M(ps, i):
        return inst(cm, cps, ps, [cb], [i])

    def N(ps):
        return inst(cn, cps, ps, [], [])

    def cnt(ps):
        return T.app(cname, ps, True)

    def sel(ps, i):
        # sel(rank(x)) is x: by the contract where the mask holds, and by choice of the unspecified values elsewhere
        a = i.single_atom()
        if UNSEL[0] and a is not None and a.kind == "app" and a.name == rname and all(x is y for x, y in zip(a.args, ps)):
            return a.args[-1]
        return T.app(sname, list(ps) + [i], True)

    def rank(ps, i):
        return T.app(rname, list(ps) + [i], True)

    if cname not in FACTS:
        def cnt_facts(args):
            ps = list(args)
            i = T.var("_q0", True)
            c = cnt(ps)
            return [T.le0(-c), T.le(c, N(ps)),
                    T.implies(T.eq0(c), T.forall([i], T.implies(rng(i, N(ps)), T.not_(M(ps, i)))))]

        def sel_facts(args):
            ps, i = list(args[:-1]), args[-1]
            s = sel(ps, i)
            ok = rng(i, cnt(ps))
            return [T.implies(ok, T.and_(rng(s, N(ps)), M(ps, s), T.eq(rank(ps, s), i)))]

        def rank_facts(args):
            ps, i = list(args[:-1]), args[-1]
            r = rank(ps, i)
            ok = T.and_(rng(i, N(ps)), M(ps, i))
            return [T.implies(ok, T.and_(rng(r, cnt(ps)), T.eq(sel(ps, r), i)))]

        def sel_pair(a1, a2):
            ps1, i, ps2, j = list(a1[:-1]), a1[-1], list(a2[:-1]), a2[-1]
            same = T.and_(*[T.eq(x, y) for x, y in zip(ps1, ps2)])
            g = T.and_(same, rng(i, cnt(ps1)), rng(j, cnt(ps1)))
            return [T.implies(T.and_(g, T.lt(i, j)), T.lt(sel(ps1, i), sel(ps2, j))),
                    T.implies(T.and_(g, T.lt(j, i)), T.lt(sel(ps2, j), sel(ps1, i)))]
        FACTS[cname], FACTS[sname], FACTS[rname] = cnt_facts, sel_facts, rank_facts
        PAIR_FACTS[sname] = sel_pair
        META[sname] = ("sel", cm, cn, cb, cps)
    return cnt(params), (lambda i: sel(params, i)), (lambda i: rank(params, i))


# --------------------------------------------------------------------------------------------- sums, minima
def sum_sym(body, n, kv):
    """sum of body(kv) for kv in [0,n)"""
    if body is T.ZERO:
        return T.ZERO
    if kv.single_atom() not in T.free_vars(body):
        return body * n
    key, params, (cbod, cn), (cb,), cps = canon([body, n], [kv])
    name = "Sum#" + key
    if name not in META:
        META[name] = ("sum", cbod, cn, cb, cps)

        def facts(args):
            ps = list(args)
            nn = inst(cn, cps, ps, [], [])
            s = T.app(name, ps, META[name][1].is_int)
            out = [T.implies(T.le0(nn), T.eq0(s))]
            k = T.var("_q0", True)
            b = inst(cbod, cps, ps, [cb], [k])
            # bounds for 0/1 bodies
            if _is01(b):
                out += [T.le0(-s), T.or_(T.le(s, nn), T.le0(nn)),
                        T.implies(T.eq0(s), T.forall([k], T.implies(rng(k, nn), T.eq0(b)))),
                        T.implies(T.forall([k], T.implies(rng(k, nn), T.eq0(b))), T.eq0(s))]
            return out

        def heavy(args):
            ps = list(args)
            nn = inst(cn, cps, ps, [], [])
            s = T.app(name, ps, META[name][1].is_int)
            k = T.var("_q0", True)
            b = inst(cbod, cps, ps, [cb], [k])
            out = []
            if _is01(b):
                # a property that holds for an initial segment holds exactly below the number of its members
                j = T.var("_q1", True)
                bj = inst(cbod, cps, ps, [cb], [j])
                closed = T.forall([j, k], T.implies(T.and_(T.le0(-j), T.lt(j, k), T.lt(k, nn), T.not_(T.eq0(b))), T.not_(T.eq0(bj))))
                out += [T.implies(closed, T.forall([k], T.implies(rng(k, nn), T.iff(T.not_(T.eq0(b)), T.lt(k, s)))))]
            return out
        FACTS[name] = facts
        HEAVY[name] = heavy
    return T.app(name, params, cbod.is_int)


def _is01(p):
    a = p.single_atom()
    if a is not None and a.kind == "ite":
        return all(x.is_const and x.const in (0, 1) for x in a.args[1:])
    return False


def ext_sym(body, n, kv, which):
    """minimum/maximum of body over [0,n), n >= 1.  Returns (value, argument)"""
    if kv.single_atom() not in T.free_vars(body):
        return body, T.ZERO
    key, params, (cbod, cn), (cb,), cps = canon([body, n], [kv])
    name = "%s#%s" % (which, key)
    aname = "arg" + name

    def B(ps, k):
        return inst(cbod, cps, ps, [cb], [k])
    if name not in META:
        META[name] = (which, cbod, cn, cb, cps)

        def facts(args):
            ps = list(args)
            nn = inst(cn, cps, ps, [], [])
            v = T.app(name, ps, cbod.is_int)
            a = T.app(aname, ps, True)
            k = T.var("_q0", True)
            cmp = T.le(v, B(ps, k)) if which == "min" else T.le(B(ps, k), v)
            return [T.implies(T.lt0(-nn), T.and_(rng(a, nn), T.eq(B(ps, a), v))),
                    T.forall([k], T.implies(rng(k, nn), cmp))]

        def afacts(args):
            ps = list(args)
            nn = inst(cn, cps, ps, [], [])
            a = T.app(aname, ps, True)
            k = T.var("_q0", True)
            cmp = T.lt(B(ps, a), B(ps, k)) if which == "min" else T.lt(B(ps, k), B(ps, a))
            return facts(args) + [T.forall([k], T.implies(T.and_(T.le0(-k), T.lt(k, a), T.lt0(-nn)), cmp))]
        FACTS[name] = facts
        FACTS[aname] = afacts
    return T.app(name, params, cbod.is_int), T.app(aname, params, True)


def length(n):
    """a name for a length (a number that is not negative)"""
    if n.is_const or n.single_atom() is not None and n.single_atom().kind != "ite":
        return n
    key, params, (cn,), _, cps = canon([n], [])
    name = "len#" + key

    def facts(args):
        a = T.app(name, args, True)
        return [T.le0(-a), T.eq(a, inst(cn, cps, list(args), [], []))]
    FACTS[name] = facts
    return T.app(name, params, True)


def last_true(cond, n, kv):
    """the largest k in [0,n) with cond(k), meaningful if there is one"""
    key, params, (cc, cn), (cb,), cps = canon([cond, n], [kv])
    name = "last#" + key

    def C(ps, k):
        return inst(cc, cps, ps, [cb], [k])
    if name not in META:
        META[name] = ("last", cc, cn, cb, cps)

        def facts(args):
            ps = list(args)
            nn = inst(cn, cps, ps, [], [])
            a = T.app(name, ps, True)
            k = T.var("_q0", True)
            ex = T.exists([k], T.and_(rng(k, nn), C(ps, k)))
            return [T.implies(ex, T.and_(rng(a, nn), C(ps, a),
                                         T.forall([k], T.implies(T.and_(T.lt(a, k), T.lt(k, nn)), T.not_(C(ps, k))))))]
        FACTS[name] = facts
    return T.app(name, params, True)


# --------------------------------------------------------------------------------------------- concatenation
def concat(m, n, kv):
    """blocks k in [0,n) of length m(k): returns (total, blk(r), off(r), flat(k,p))"""
    key, params, (cm, cn), (cb,), cps = canon([m, n], [kv])
    tn, bn, on, fn = "tot#" + key, "blk#" + key, "off#" + key, "flat#" + key

    def L(ps, k):
        return inst(cm, cps, ps, [cb], [k])

    def N(ps):
        return inst(cn, cps, ps, [], [])

    tot = lambda ps: T.app(tn, ps, True)
    blk = lambda ps, r: T.app(bn, list(ps) + [r], True)
    off = lambda ps, r: T.app(on, list(ps) + [r], True)
    flat = lambda ps, k, p: T.app(fn, list(ps) + [k, p], True)
    if tn not in FACTS:
        def tf(args):
            ps = list(args)
            k = T.var("_q0", True)
            return [T.le0(-tot(ps)), T.implies(T.le0(N(ps)), T.eq0(tot(ps))),
                    T.implies(T.eq0(tot(ps)), T.forall([k], T.implies(rng(k, N(ps)), T.le0(L(ps, k)))))]

        def bf(args):
            ps, r = list(args[:-1]), args[-1]
            k, p = blk(ps, r), off(ps, r)
            return [T.implies(rng(r, tot(ps)), T.and_(rng(k, N(ps)), rng(p, L(ps, k)), T.eq(flat(ps, k, p), r)))]

        def ff(args):
            ps, k, p = list(args[:-2]), args[-2], args[-1]
            r = flat(ps, k, p)
            return [T.implies(T.and_(rng(k, N(ps)), rng(p, L(ps, k))),
                              T.and_(rng(r, tot(ps)), T.eq(blk(ps, r), k), T.eq(off(ps, r), p)))]

        def bp(a1, a2):
            ps, r = list(a1[:-1]), a1[-1]
            ps2, s = list(a2[:-1]), a2[-1]
            same = T.and_(*[T.eq(x, y) for x, y in zip(ps, ps2)])
            g = T.and_(same, rng(r, tot(ps)), rng(s, tot(ps)))

            def one(r, s):
                return T.implies(T.and_(g, T.lt(r, s)),
                                 T.or_(T.lt(blk(ps, r), blk(ps, s)),
                                       T.and_(T.eq(blk(ps, r), blk(ps, s)), T.lt(off(ps, r), off(ps, s)))))
            return [one(r, s), one(s, r)]
        FACTS[tn], FACTS[bn], FACTS[on], FACTS[fn] = tf, bf, bf, ff
        PAIR_FACTS[bn] = bp
        META[bn] = ("blk", cm, cn, cb, cps, fn)
    return tot(params), (lambda r: blk(params, r)), (lambda r: off(params, r)), (lambda k, p: flat(params, k, p))


# --------------------------------------------------------------------------------------------- sorting
def sort_perm(keyt, n, kv):
    """stable ascending sort of key(k), k in [0,n): returns (perm, inverse)"""
    key, params, (ck, cn), (cb,), cps = canon([keyt, n], [kv])
    pn, qn = "perm#" + key, "iperm#" + key

    def K(ps, k):
        return inst(ck, cps, ps, [cb], [k])

    def N(ps):
        return inst(cn, cps, ps, [], [])
    P = lambda ps, k: T.app(pn, list(ps) + [k], True)
    Q = lambda ps, k: T.app(qn, list(ps) + [k], True)
    if pn not in FACTS:
        def pf(args):
            ps, k = list(args[:-1]), args[-1]
            return [T.implies(rng(k, N(ps)), T.and_(rng(P(ps, k), N(ps)), T.eq(Q(ps, P(ps, k)), k)))]

        def qf(args):
            ps, k = list(args[:-1]), args[-1]
            return [T.implies(rng(k, N(ps)), T.and_(rng(Q(ps, k), N(ps)), T.eq(P(ps, Q(ps, k)), k)))]

        def pp(a1, a2):
            ps, i, j = list(a1[:-1]), a1[-1], a2[-1]
            same = T.and_(*[T.eq(x, y) for x, y in zip(a1[:-1], a2[:-1])])
            g = T.and_(same, rng(i, N(ps)), rng(j, N(ps)))
            ki, kj = K(ps, P(ps, i)), K(ps, P(ps, j))
            pi, pj = P(ps, i), P(ps, j)
            return [T.implies(T.and_(g, T.lt(i, j)), T.or_(T.lt(ki, kj), T.and_(T.eq(ki, kj), T.lt(pi, pj)))),
                    T.implies(T.and_(g, T.lt(j, i)), T.or_(T.lt(kj, ki), T.and_(T.eq(ki, kj), T.lt(pj, pi)))),
                    T.implies(T.and_(g, T.eq(pi, pj)), T.eq(i, j))]
        FACTS[pn], FACTS[qn] = pf, qf
        PAIR_FACTS[pn] = pp
        META[pn] = ("perm", ck, cn, cb, cps)
    return (lambda k: P(params, k)), (lambda k: Q(params, k))


def unique_idx(val, n, kv):
    """np.unique(return_index): returns (count U, first(u), lev(j)): first(u) is the first index with the u-th smallest
    value; lev(j) the rank of the value at j"""
    key, params, (cv, cn), (cb,), cps = canon([val, n], [kv])
    un, fn, ln = "ucnt#" + key, "ufirst#" + key, "ulev#" + key

    def V(ps, k):
        return inst(cv, cps, ps, [cb], [k])

    def N(ps):
        return inst(cn, cps, ps, [], [])
    U = lambda ps: T.app(un, ps, True)
    F = lambda ps, u: T.app(fn, list(ps) + [u], True)
    L = lambda ps, j: T.app(ln, list(ps) + [j], True)
    if un not in FACTS:
        def uf(args):
            ps = list(args)
            return [T.le0(-U(ps)), T.le(U(ps), N(ps)), T.implies(T.lt0(-N(ps)), T.lt0(-U(ps)))]

        def uh(args):
            ps = list(args)
            j = T.var("_q0", True)
            u = L(ps, j)
            return [T.forall([j], T.implies(rng(j, N(ps)), T.and_(rng(u, U(ps)), T.eq(V(ps, F(ps, u)), V(ps, j)), T.le(F(ps, u), j))))]

        def ff(args):
            ps, u = list(args[:-1]), args[-1]
            f = F(ps, u)
            return [T.implies(rng(u, U(ps)), T.and_(rng(f, N(ps)), T.eq(L(ps, f), u)))]

        def lf(args):
            ps, j = list(args[:-1]), args[-1]
            u = L(ps, j)
            return [T.implies(rng(j, N(ps)), T.and_(rng(u, U(ps)), T.eq(V(ps, F(ps, u)), V(ps, j)), T.le(F(ps, u), j)))]

        def fp(a1, a2):
            ps, u, w = list(a1[:-1]), a1[-1], a2[-1]
            same = T.and_(*[T.eq(x, y) for x, y in zip(a1[:-1], a2[:-1])])
            g = T.and_(same, rng(u, U(ps)), rng(w, U(ps)))
            return [T.implies(T.and_(g, T.lt(u, w)), T.lt(V(ps, F(ps, u)), V(ps, F(ps, w)))),
                    T.implies(T.and_(g, T.lt(w, u)), T.lt(V(ps, F(ps, w)), V(ps, F(ps, u))))]

        def lp(a1, a2):
            ps, i, j = list(a1[:-1]), a1[-1], a2[-1]
            same = T.and_(*[T.eq(x, y) for x, y in zip(a1[:-1], a2[:-1])])
            g = T.and_(same, rng(i, N(ps)), rng(j, N(ps)))
            return [T.implies(g, T.and_(T.iff(T.lt(V(ps, i), V(ps, j)), T.lt(L(ps, i), L(ps, j))),
                                        T.iff(T.lt(V(ps, j), V(ps, i)), T.lt(L(ps, j), L(ps, i)))))]
        FACTS[un], FACTS[fn], FACTS[ln] = uf, ff, lf
        HEAVY[un] = uh
        PAIR_FACTS[fn] = fp
        PAIR_FACTS[ln] = lp
        META[fn] = ("unique", cv, cn, cb, cps)
    return U(params), (lambda u: F(params, u)), (lambda j: L(params, j))
