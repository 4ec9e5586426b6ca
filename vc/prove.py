"""Discharging obligations: ground instantiation of quantified facts, then z3 (several strategies) and cvc5."""
import sys
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import Unsupported
from . import absfn

STATS = {"z3_quick": 0, "z3": 0, "nlsat": 0, "cvc5": 0, "normal form": 0, "quick_calls": 0, "time": 0.0}

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def z3num(c):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


class Late(Exception):
    """no time left"""


class Tr:
    """terms -> z3 expressions.  linear=True names every non-linear monomial."""

    def __init__(self, linear=False, ack=False):
        self.linear = linear
        self.ack = ack              # applications become constants (sound over-approximation)
        self.cache = {}
        self.acache = {}
        self.monos = {}
        self.funs = {}
        self.side = []              # defining z3 constraints
        self.apps = {}
        self.deadline = None
        self.count = 0

    def late(self):
        self.count += 1
        if self.count > 200000:
            raise Late()
        if self.deadline is not None and time.time() > self.deadline:
            raise Late()

    def real(self, e):
        return z3.ToReal(e) if e.sort() == I else e

    def poly(self, p):
        r = self.cache.get(p.id)
        if r is not None:
            return r
        self.late()
        if p.is_int:
            terms = []
            for m, c in p.d.items():
                e = self.mono(m)
                if e is None:
                    terms.append(z3.IntVal(int(c)))
                else:
                    terms.append(e if c == 1 else z3.IntVal(int(c)) * e)
            r = z3.IntVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
        else:
            terms = []
            for m, c in p.d.items():
                e = self.mono(m)
                if e is None:
                    terms.append(z3num(c))
                else:
                    e = self.real(e)
                    terms.append(e if c == 1 else z3num(c) * e)
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.cache[p.id] = r
        return r

    def mono(self, m):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if self.linear:
            e = self.monos.get(m)
            if e is None:
                isint = all(a.is_int and k > 0 for a, k in m)
                e = z3.Const("m!%d" % len(self.monos), I if isint else R)
                self.monos[m] = e
                if all(k % 2 == 0 or a.kind in ("sqrt", "abs") for a, k in m):
                    self.side.append(e >= 0)
            return e
        fs = []
        for a, k in m:
            e = self.atom(a)
            if k > 0:
                fs += [e] * k
            else:
                # reciprocal of an atom: i with i*a == 1 (a != 0 is an obligation elsewhere)
                i = self.recip(a)
                fs += [i] * (-k)
        isint = all(f.sort() == I for f in fs)
        if not isint:
            fs = [self.real(f) for f in fs]
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def recip(self, a):
        key = ("recip", a)
        r = self.acache.get(key)
        if r is None:
            r = z3.Const("rc!%d" % a.id, R)
            self.acache[key] = r
            e = self.real(self.atom(a))
            self.side.append(z3.Implies(e != 0, r * e == 1))
        return r

    def fun(self, name, sorts, out):
        k = (name, tuple(s.sexpr() for s in sorts), out.sexpr())
        f = self.funs.get(k)
        if f is None:
            f = z3.Function(name, *(list(sorts) + [out]))
            self.funs[k] = f
        return f

    def atom(self, a):
        r = self.acache.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "var":
            r = z3.Const(a.name, I if a.is_int else R)
        elif k == "app":
            if self.ack or not a.args:
                r = z3.Const("app!%d" % a.id, I if a.is_int else R)
            else:
                args = [self.arg(x) for x in a.args]
                r = self.fun(a.name, [x.sort() for x in args], I if a.is_int else R)(*args)
        elif k == "ite":
            c = self.bool(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if not a.is_int:
                x, y = self.real(x), self.real(y)
            r = z3.If(c, x, y)
        elif k == "floor":
            r = z3.Const("fl!%d" % a.id, I)
            self.acache[a] = r
            x = self.real(self.poly(a.args[0]))
            self.side += [z3.ToReal(r) <= x, x < z3.ToReal(r) + 1]
        elif k == "sqrt":
            r = z3.Const("sq!%d" % a.id, R)
            self.acache[a] = r
            x = self.real(self.poly(a.args[0]))
            self.side.append(r >= 0)
            if not self.linear:
                self.side.append(z3.Implies(x >= 0, r * r == x))
            self.side.append(z3.Implies(x > 0, r > 0))
            self.side.append(z3.Implies(r == 0, x <= 0))
            if a.args[0].is_const:
                import math
                s = math.isqrt(int(a.args[0].const * 10 ** 24))
                self.side += [r > z3.RealVal("%d/%d" % (s - 1, 10 ** 12)), r < z3.RealVal("%d/%d" % (s + 1, 10 ** 12))]
        elif k == "abs":
            x = self.poly(a.args[0])
            r = z3.If(x >= 0, x, -x)
        elif k == "inv":
            r = z3.Const("iv!%d" % a.id, R)
            self.acache[a] = r
            x = self.real(self.poly(a.args[0]))
            if not self.linear:
                self.side.append(z3.Implies(x != 0, r * x == 1))
            self.side += [z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)]
        elif k == "quot":
            r = z3.Const("qt!%d" % a.id, I)
            self.acache[a] = r
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            if not self.linear:
                self.side.append(z3.Implies(y > 0, z3.And(y * r <= x, x < y * r + y)))
            self.side += [z3.Implies(z3.And(y > 0, x >= 0), r >= 0), z3.Implies(z3.And(y > 0, x >= 0), r <= x)]
        elif k == "pi":
            r = z3.Const("pi!", R)
            self.acache[a] = r
            self.side += [r > z3.RealVal("314159265358979/100000000000000"), r < z3.RealVal("314159265358980/100000000000000")]
        else:
            raise Unsupported("atom " + k)
        if k == "app" and a.name == "round":
            x = self.real(self.poly(a.args[0]))
            self.side += [z3.ToReal(r) * 2 <= x * 2 + 1, x * 2 - 1 <= z3.ToReal(r) * 2]
        self.acache[a] = r
        return r

    def arg(self, x):
        return self.bool(x) if isinstance(x, T.Bool) else self.poly(x)

    def bool(self, b):
        r = self.cache.get(b.id)
        if r is not None:
            return r
        k = b.kind
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k in ("lt", "le", "eq"):
            p = b.args[0]
            # balance sides to help the solver
            x = self.poly(p)
            r = x < 0 if k == "lt" else x <= 0 if k == "le" else x == 0
        elif k == "not":
            r = z3.Not(self.bool(b.args[0]))
        elif k == "and":
            r = z3.And([self.bool(x) for x in b.args])
        elif k == "or":
            r = z3.Or([self.bool(x) for x in b.args])
        elif k == "iff":
            r = self.bool(b.args[0]) == self.bool(b.args[1])
        elif k == "app":
            if self.ack or not b.args:
                r = z3.Const("bapp!%d" % b.id, B)
            else:
                args = [self.arg(x) for x in b.args]
                r = self.fun(b.name + "?", [x.sort() for x in args], B)(*args)
        elif k == "forall":
            # opaque in ground queries
            r = z3.Const("qf!%d" % b.id, B)
        else:
            raise Unsupported("bool " + k)
        self.cache[b.id] = r
        return r


# --------------------------------------------------------------------------------------------- quantifiers
_hasq = {}


def has_q(t):
    r = _hasq.get(t.id)
    if r is None:
        if isinstance(t, T.Bool) and t.kind == "forall":
            r = True
        elif isinstance(t, T.Poly):
            r = any(has_q(x) for a in t.atoms() for x in a.args)
        else:
            r = any(has_q(x) for x in t.args)
        _hasq[t.id] = r
    return r


_fd = {}


def fdepth(t):
    """nesting of defined functions"""
    r = _fd.get(t.id)
    if r is None:
        if isinstance(t, T.Poly):
            r = max([fdepth(a) for a in t.atoms()] + [0])
        else:
            r = max([fdepth(x) for x in t.args] + [0])
            if getattr(t, "name", None) and "#" in t.name:
                r += 1
        _fd[t.id] = r
    return r


class Ground:
    """turns assertions into ground clauses by skolemisation and instantiation"""

    def __init__(self, rounds=3, max_inst=3000, deadline=None, full=True, heavy=False, depth=None):
        self.heavy, self.depth = heavy, depth
        self.full = full         # every integer term instantiates every quantifier; else only matching applications
        self.out = []            # ground Bools
        self.univ = []           # (guard Bool, vars, body)  guard -> forall vars. body
        self.proxy = {}
        self.seen_inst = set()
        self.rounds = rounds
        self.max_inst = max_inst
        self.seen_facts = set()
        self.ninst = 0
        self.deadline = deadline
        self.seen_out = set()
        self.apps_seen = {}
        self.pairs = set()

    def add(self, b):
        r = self.nnf(b, True)
        self.emit(r)

    def emit(self, r):
        if r is T.TRUE:
            return
        if r.kind == "and":
            for x in r.args:
                self.emit(x)
            return
        if r.id in self.seen_out:
            return
        self.seen_out.add(r.id)
        self.out.append(r)

    def nnf(self, b, pos):
        """quantifier-free formula implied by b (pos) or not b"""
        if not has_q(b):
            return b if pos else T.not_(b)
        k = b.kind
        if k == "not":
            return self.nnf(b.args[0], not pos)
        if k == "and":
            xs = [self.nnf(x, pos) for x in b.args]
            return T.and_(*xs) if pos else T.or_(*xs)
        if k == "or":
            xs = [self.nnf(x, pos) for x in b.args]
            return T.or_(*xs) if pos else T.and_(*xs)
        if k == "iff":
            x, y = b.args
            if pos:
                return T.and_(T.or_(self.nnf(x, False), self.nnf(y, True)), T.or_(self.nnf(x, True), self.nnf(y, False)))
            return T.and_(T.or_(self.nnf(x, True), self.nnf(y, True)), T.or_(self.nnf(x, False), self.nnf(y, False)))
        if k == "forall":
            vs, body = list(b.args[:-1]), b.args[-1]
            key = (b.id, pos)
            if key in self.proxy:
                return self.proxy[key]
            if pos:
                g = T.bapp("Q!%d" % b.id)
                self.proxy[key] = g
                self.univ.append((g, vs, body))
                return g
            mp = {v: T.fresh("sk", v.single_atom().is_int) for v in vs}
            g = T.bapp("NQ!%d" % b.id)
            self.proxy[key] = g
            r = self.nnf(T.subst(body, mp), False)
            self.emit(T.or_(T.not_(g), r))
            return g
        # atoms with quantifiers inside ite conditions
        args = [self.deq(x) for x in b.args]
        r = T.rebuild_bool(b, args)
        return r if pos else T.not_(r)

    def deq(self, t):
        """remove quantifiers inside a term by proxies"""
        if not has_q(t):
            return t
        key = ("d", t.id)
        if key in self.proxy:
            return self.proxy[key]
        if isinstance(t, T.Poly):
            r = T.ZERO
            for m, c in t.d.items():
                p = T.const(c)
                for a, e in m:
                    x = T.atom_poly(a) if not a.args else T.rebuild_atom(a, [self.deq(y) for y in a.args])
                    p = p * (x ** e if e > 0 else T.inv(x) ** (-e))
                r = r + p
        else:
            g = T.bapp("P!%d" % t.id)
            self.proxy[key] = g
            self.emit(T.or_(T.not_(g), self.nnf(t, True)))
            self.emit(T.or_(g, self.nnf(t, False)))
            return g
        self.proxy[key] = r
        return r

    # candidates
    def candidates(self):
        ints, reals = {}, {}
        seenb = set()

        def rec(t, seen):
            if t.id in seen:
                return
            seen.add(t.id)
            if isinstance(t, T.Poly):
                for a in t.atoms():
                    if a.kind == "var" and a.is_int and not a.name.startswith("_"):
                        ints.setdefault(T.atom_poly(a).id, T.atom_poly(a))
                    if a.kind == "app":
                        for x in a.args:
                            self._cand(x, ints)
                    for x in a.args:
                        rec(x, seen)
            else:
                if t.kind == "app":
                    for x in t.args:
                        self._cand(x, ints)
                for x in t.args:
                    rec(x, seen)
        for b in self.out:
            rec(b, seenb)
        return list(ints.values())

    def _cand(self, x, ints):
        if isinstance(x, T.Poly) and x.is_int and not any(a.name and a.name.startswith("_") for a in T.free_vars(x)):
            ints.setdefault(x.id, x)

    def facts_round(self):
        """facts for the applications occurring; returns True if anything was added"""
        n0 = len(self.out)
        apps = {}
        seen = set()
        for b in list(self.out):
            for a in T.all_atoms(b, {}, seen).values():
                if a.kind == "app":
                    apps[a.id] = a
        for b in list(self.out):
            self.bool_apps(b, apps)
        for a in list(apps.values()):
            if a.id in self.seen_facts:
                continue
            self.seen_facts.add(a.id)
            if any(v.name.startswith("_") for x in a.args for v in T.free_vars(x)):
                continue
            if self.depth is not None and fdepth(a) > self.depth:
                continue
            f = absfn.FACTS.get(a.name)
            if self.heavy and f and a.name in absfn.HEAVY:
                for b in absfn.HEAVY[a.name](a.args):
                    self.add(b)
            if f:
                for b in f(a.args):
                    self.add(b)
            g = absfn.PAIR_FACTS.get(a.name)
            if g:
                for o in self.apps_seen.get(a.name, []):
                    for b in g(o, a.args):
                        self.add(b)
                self.apps_seen.setdefault(a.name, []).append(a.args)
        return len(self.out) > n0

    def bool_apps(self, b, apps):
        seen = set()

        def rec(t):
            if t.id in seen:
                return
            seen.add(t.id)
            if isinstance(t, T.Poly):
                for a in t.atoms():
                    for x in a.args:
                        rec(x)
            else:
                if t.kind == "app" and t.name in absfn.FACTS:
                    apps[t.id] = t
                for x in t.args:
                    rec(x)
        rec(b)

    def instantiate(self):
        n0 = self.ninst
        cands = self.candidates()
        cands.sort(key=lambda p: (len(p.d), p.id))
        import itertools
        index = None
        for g, vs, body in list(self.univ):
            if all(v.single_atom().is_int for v in vs):
                pools = []
                for v in vs:
                    rel = () if self.full else triggers(body, v)
                    if rel:
                        if index is None:
                            index = self.app_index()
                        pool = {}
                        for name, pos, off in rel:
                            for x in index.get((name, pos), ()):
                                y = off(x)
                                pool.setdefault(y.id, y)
                        pools.append(sorted(pool.values(), key=lambda p: (len(p.d), p.id)))
                    else:
                        pools.append(cands if len(vs) == 1 else cands[:12])
                for combo in itertools.product(*pools):
                    key = (body.id, tuple(c.id for c in combo))
                    if key in self.seen_inst:
                        continue
                    self.seen_inst.add(key)
                    if self.ninst - n0 > self.max_inst or (self.deadline and time.time() > self.deadline):
                        return True
                    self.ninst += 1
                    b = T.subst(body, dict(zip(vs, combo)))
                    self.emit(T.or_(T.not_(g), self.nnf(b, True)))
        return self.ninst > n0

    def app_index(self):
        idx = {}
        seen = set()

        def put(name, args):
            for i, x in enumerate(args):
                if isinstance(x, T.Poly) and x.is_int and not any(a.name and a.name.startswith("_") for a in T.free_vars(x)):
                    idx.setdefault((name, i), {})[x.id] = x

        def rec(t):
            if t.id in seen:
                return
            seen.add(t.id)
            if isinstance(t, T.Poly):
                for a in t.atoms():
                    if a.kind == "app":
                        put(a.name, a.args)
                    for x in a.args:
                        rec(x)
            else:
                if t.kind == "app":
                    put(t.name, t.args)
                for x in t.args:
                    rec(x)
        for b in self.out:
            rec(b)
        return {k: list(v.values()) for k, v in idx.items()}

    def run(self, rounds=None):
        for _ in range(rounds if rounds is not None else self.rounds):
            a = self.facts_round()
            b = self.instantiate()
            if not a and not b:
                break
        self.facts_round()


_trig = {}


def triggers(body, v):
    """(function, position, offset) of the applications in which v (plus a constant) is an argument"""
    key = (body.id, v.id)
    r = _trig.get(key)
    if r is not None:
        return r
    va = v.single_atom()
    out = {}
    seen = set()

    def put(name, args):
        for i, x in enumerate(args):
            if isinstance(x, T.Poly) and va in T.free_vars(x):
                off = x - v
                if off.is_const:
                    out[(name, i, off.id)] = (name, i, (lambda off: lambda y: y - off)(off))
                    continue
                # through the inverse of an enumeration
                a = x.single_atom()
                m = absfn.META.get(a.name) if a is not None and a.kind == "app" else None
                if m and m[0] in ("perm", "sel") and not any(va in T.free_vars(z) for z in a.args[:-1]):
                    off = a.args[-1] - v
                    if off.is_const and not any(w.name.startswith("_") for z in a.args[:-1] for w in T.free_vars(z)):
                        inv = "i" + a.name if m[0] == "perm" else "rank" + a.name[3:]
                        out[(name, i, x.id)] = (name, i, (lambda inv, ps, off: lambda y: T.app(inv, ps + [y], True) - off)(inv, list(a.args[:-1]), off))

    def rec(t):
        if t.id in seen or va not in T.free_vars(t):
            return
        seen.add(t.id)
        if isinstance(t, T.Poly):
            for a in t.atoms():
                if a.kind == "app":
                    put(a.name, a.args)
                for x in a.args:
                    rec(x)
        else:
            if t.kind == "app":
                put(t.name, t.args)
            for x in t.args:
                rec(x)
    rec(body)
    r = _trig[key] = tuple(out.values())
    return r


# --------------------------------------------------------------------------------------------- quick checks
_quick = {}
_lin = [None]


def simple_relevant(pc, extra):
    """the assumptions connected to the query by common variables"""
    fv = set()
    for b in extra:
        fv |= T.free_vars(b)
    out = []
    rest = list(pc)
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for b in rest:
            f = T.free_vars(b)
            if not f or f & fv:
                out.append(b)
                fv |= f
                changed = True
            else:
                nxt.append(b)
        rest = nxt
    return out


def _unsat_quick(bs, ms=200):
    """True if the conjunction is unsatisfiable by linear reasoning"""
    if any(b is T.FALSE for b in bs):
        return True
    STATS["quick_calls"] += 1
    g = Ground(rounds=1, max_inst=60, full=False)
    for b in bs:
        g.add(b)
    g.facts_round()
    if g.univ:
        g.instantiate()
        g.facts_round()
    tr = Tr(linear=True)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.set("rlimit", 400000)
    es = [tr.bool(b) for b in g.out]
    s.add(es)
    s.add(tr.side)
    return s.check() == z3.unsat


def entailed_quick(pc, cond):
    key = (tuple(b.id for b in pc), cond.id)
    r = _quick.get(key)
    if r is None:
        t0 = time.time()
        nc = T.not_(cond)
        if cond.kind == "and":
            r = all(entailed_quick(pc, c) for c in cond.args)
        else:
            r = _unsat_quick(simple_relevant(pc, [nc]) + [nc])
        _quick[key] = r
        STATS["time"] += time.time() - t0
    return r


_feas = {}


def feasible(pc, cond):
    key = (tuple(b.id for b in pc), cond.id)
    r = _feas.get(key)
    if r is None:
        t0 = time.time()
        bs = simple_relevant(pc, [cond]) + [cond]
        if _unsat_quick(bs):
            r = False
        else:
            r = not _unsat_full(bs)
        _feas[key] = r
        STATS["time"] += time.time() - t0
    return r


def _unsat_full(bs):
    g = Ground(rounds=2, max_inst=200, full=False)
    for b in bs:
        g.add(b)
    g.run()
    tr = Tr()
    es = [tr.bool(b) for b in g.out]
    s = z3.Solver()
    s.set("timeout", 1500)
    s.set("rlimit", 1500000)
    s.add(es + tr.side)
    return s.check() == z3.unsat


# --------------------------------------------------------------------------------------------- square roots in comparisons
_desq = {}


def desqrt(b):
    """an equivalent formula (for radicands that are not negative): comparisons that are linear in one square root with a
    constant factor are squared"""
    r = _desq.get(b.id)
    if r is not None:
        return r
    k = b.kind
    if k in ("lt", "le"):
        r = _desqrt_cmp(b)
    elif k in ("and", "or", "not", "iff"):
        r = T.rebuild_bool(b, [desqrt(x) for x in b.args])
    else:
        r = b
    _desq[b.id] = r
    return r


def _desqrt_cmp(b):
    p = b.args[0]
    sq = [a for a in p.atoms() if a.kind == "sqrt"]
    for a in sorted(sq, key=lambda x: -x.id):
        ok = True
        coef = None
        for m, c in p.d.items():
            d = dict(m)
            if a in d:
                if len(m) != 1 or d[a] != 1:
                    ok = False
                    break
                coef = c
        if not ok:
            continue
        q = a.args[0]
        rest = p - T.atom_poly(a).scale(coef)
        d = q.scale(coef * coef) - rest * rest          # k^2 q - rest^2
        strict = b.kind == "lt"
        cmp0 = T.lt0 if strict else T.le0
        if coef > 0:
            r = T.and_(cmp0(rest), cmp0(d))
        else:
            # rest < |k| sqrt(q)
            r = T.or_(T.lt0(rest), cmp0(-d))
        return desqrt(r)
    return b


# --------------------------------------------------------------------------------------------- proving
class Result:
    def __init__(self, status, backend="", model=None, time=0.0, detail=""):
        self.status, self.backend, self.model, self.time, self.detail = status, backend, model, time, detail


def split_goal(g):
    """conjuncts of a goal after skolemising its universal quantifiers: list of (extra hypotheses, goal)"""
    if g.kind == "and":
        out = []
        for x in g.args:
            out += split_goal(x)
        return out
    if g.kind == "forall":
        mp = {v: T.fresh("sk", v.single_atom().is_int) for v in g.args[:-1]}
        return split_goal(T.subst(g.args[-1], mp))
    if g.kind == "iff":
        a, b = g.args
        return [([a] + h, q) for h, q in split_goal(b)] + [([b] + h, q) for h, q in split_goal(a)]
    if g.kind == "or":
        # one conjunctive or quantified disjunct is split off
        for i, x in enumerate(g.args):
            if x.kind == "forall" or (x.kind == "iff" and has_q(x)):
                rest = [y for j, y in enumerate(g.args) if j != i]
                return [(h + [T.not_(y) for y in rest], q) for h, q in split_goal(x)]
        hs = [T.not_(y) for y in g.args[:-1]]
        return [(hs + h, q) for h, q in split_goal(g.args[-1])] if g.args[-1].kind in ("and", "iff", "or") else [(hs, g.args[-1])]
    return [([], g)]


def prove(pc, goal, budget=20.0, hints=()):
    t0 = time.time()
    if goal is T.TRUE:
        return Result("proved", "normal form")
    if goal in pc:
        return Result("proved", "normal form")
    worst = None
    backs = []
    for hs, q in split_goal(goal):
        r = prove_one(list(pc) + hs, q, max(2.0, budget - (time.time() - t0)), hints)
        backs.append(r.backend)
        if r.status != "proved":
            r.time = time.time() - t0
            return r
    order = ["normal form", "z3 linear", "z3", "z3 nlsat", "cvc5"]
    b = max(backs, key=lambda x: order.index(x) if x in order else 9)
    return Result("proved", b, None, time.time() - t0)


def prove_one(pc, goal, budget, hints=()):
    t0 = time.time()
    if goal is T.TRUE:
        return Result("proved", "normal form")
    bs = list(pc)
    ng = T.not_(goal)
    if T.and_(*[desqrt(x) for x in bs + [ng]]) is T.FALSE:
        return Result("proved", "normal form")
    for h in bs:
        if h is T.FALSE or h is goal:
            return Result("proved", "normal form")
    if T.and_(*(bs + [ng])) is T.FALSE:
        return Result("proved", "normal form")
    if goal.kind == "eq":
        try:
            if T.clear_denominators(goal.args[0]) is T.ZERO:
                return Result("proved", "normal form", None, time.time() - t0)
        except T.Unsupported:
            pass
    rel = simple_relevant(pc, [ng])
    if not T.free_vars(ng) and len(rel) < len(pc):
        r = prove_with(rel, ng, budget / 2, hints)
        if r.status == "proved":
            return r
        rel = list(pc)
    return prove_with(rel, ng, max(2.0, budget - (time.time() - t0)), hints)


def prove_with(rel, ng, budget, hints):
    t0 = time.time()
    if _unsat_quick(rel + [ng]):
        return Result("proved", "z3 linear", None, time.time() - t0)
    rel2 = [desqrt(x) for x in rel]
    ng2 = desqrt(ng)
    if rel2 != rel or ng2 is not ng:
        if _unsat_quick(rel2 + [ng2]):
            return Result("proved", "z3 linear", None, time.time() - t0)
        rel, ng = rel2, ng2
    sat_model = None
    detail = ""
    levels = ((1, 150, True, False, 4), (2, 600, False, True, 3), (3, 1200, False, True, 4), (2, 600, True, False, 5),
              (4, 2500, False, True, 5), (4, 2500, True, True, 6))
    # first linear arithmetic alone, with more and more instances
    for rounds, maxi, full, heavy, depth in levels[:4]:
        if time.time() - t0 > budget / 3:
            break
        g = Ground(rounds=rounds, max_inst=maxi, deadline=t0 + budget, full=full, heavy=heavy, depth=depth)
        g.add(ng)
        for b in rel:
            g.add(b)
        for h in hints:
            g.add(h)
        g.run()
        if lin_check(g.out, 5)[0] == "unsat":
            return Result("proved", "z3 linear", None, time.time() - t0)
        if not g.univ and not any(a for a in g.seen_facts):
            break
    for rounds, maxi, full, heavy, depth in levels:
        if time.time() - t0 > budget:
            break
        g = Ground(rounds=rounds, max_inst=maxi, deadline=t0 + budget, full=full, heavy=heavy, depth=depth)
        g.add(ng)
        for b in rel:
            g.add(b)
        for h in hints:
            g.add(h)
        g.run()
        left = max(1.0, budget - (time.time() - t0))
        pure = not any(a.is_int or (a.kind == "app" and a.args) for b in g.out for a in T.all_atoms(b).values())
        plan = [("z3 linear", lin_check, 5)]
        plan += [("z3 nlsat", nl_check, 5), ("z3", smt_check, 3)] if pure else [("z3", smt_check, 3), ("z3 nlsat", nl_check, 3)]
        plan += [("z3", smt_check, 12), ("z3 nlsat", nl_check, 15)]
        for name, fn, cap in plan:
            st, model = fn(g.out, min(left, cap))
            if st == "unsat":
                return Result("proved", name, None, time.time() - t0)
            if st == "sat" and (name == "z3" or pure):
                sat_model = model
                break
            if st == "sat" and name == "z3 nlsat" and sat_model is None:
                sat_model = model
            left = max(1.0, budget - (time.time() - t0))
        if not g.univ and not any(a for a in g.seen_facts):
            break
        if sat_model is not None and not g.univ:
            break
    st = "refuted" if sat_model is not None else "unknown"
    return Result(st, "z3", sat_model, time.time() - t0, detail)


def contradictory(pc, seconds=3.0):
    """True if the assumptions are shown to contradict each other"""
    t0 = time.time()
    if any(b is T.FALSE for b in pc):
        return True
    for rounds, maxi, full, heavy, depth in ((1, 150, True, False, 4), (2, 300, False, False, 3)):
        g = Ground(rounds=rounds, max_inst=maxi, deadline=t0 + seconds, full=full, heavy=heavy, depth=depth)
        for b in pc:
            g.add(desqrt(b))
        g.run()
        for f in (lin_check, smt_check):
            if time.time() - t0 > seconds:
                return False
            if f(g.out, 2.0)[0] == "unsat":
                return True
    return False


def lin_check(out, left):
    tr = Tr(linear=True)
    tr.deadline = time.time() + max(left, 5)
    s = z3.Solver()
    s.set("timeout", int(min(left, 5) * 1000))
    try:
        s.add([tr.bool(b) for b in out])
    except Late:
        return "unknown", None
    tr.deadline = None
    s.add(tr.side)
    r = s.check()
    return ("unsat" if r == z3.unsat else "unknown"), None


class Model:
    def __init__(self, m, tr):
        self.m, self.tr = m, tr

    def value(self, p):
        """Fraction value of a Poly over variables"""
        e = self.tr.poly(p)
        v = self.m.eval(e, model_completion=True)
        return z3frac(v)

    def truth(self, b):
        v = self.m.eval(self.tr.bool(b), model_completion=True)
        return z3.is_true(v)


def z3frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return z3frac(v.approx(20))
    try:
        v = z3.simplify(v)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return z3frac(v)
    except z3.Z3Exception:
        pass
    return None


def smt_check(out, left):
    tr = Tr()
    tr.deadline = time.time() + max(left, 5)
    s = z3.Solver()
    s.set("timeout", int(min(left, 10) * 1000))
    try:
        s.add([tr.bool(b) for b in out])
    except Late:
        return "unknown", None
    tr.deadline = None
    s.add(tr.side)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", Model(s.model(), tr)
    return "unknown", None


def nl_check(out, left):
    tr = Tr(ack=True)
    tr.deadline = time.time() + max(left, 5)
    try:
        es = [tr.bool(b) for b in out]
    except Late:
        return "unknown", None
    tr.deadline = None
    es += tr.side
    hasint = any(a.is_int for b in out for a in T.all_atoms(b).values())
    tac = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "tseitin-cnf", "nlsat") if False else None
    s = z3.Tactic("qfnra-nlsat").solver() if not hasint else z3.Tactic("qfnra").solver()
    s.set("timeout", int(min(left, 15) * 1000))
    try:
        s.add(es)
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        try:
            return "sat", Model(s.model(), tr)
        except z3.Z3Exception:
            return "unknown", None
    return "unknown", None
