"""Contract language.  A contract is one Python function over a context c; it is executed symbolically on the
instrumented real source (all inputs, all iterations: proof) and concretely on the real package (replay, search)."""
import contextlib
import math
import sys
import time
from fractions import Fraction
import numpy as _np

TOL = 1e-7


class Violated(Exception):
    def __init__(self, label, info=""):
        Exception.__init__(self, label + (": " + info if info else ""))
        self.label, self.info = label, info


class Skip(Exception):
    """the concrete input does not satisfy the precondition"""


class CBase:
    def imp(self, a, b):
        return self.or_(self.not_(a), b)

    def lt(self, a, b):
        raise NotImplementedError

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    # small vectors as Python lists of scalars
    def vdot(self, a, b):
        r = a[0] * b[0]
        for x, y in zip(a[1:], b[1:]):
            r = r + x * y
        return r

    def vsub(self, a, b):
        return [x - y for x, y in zip(a, b)]

    def vadd(self, a, b):
        return [x + y for x, y in zip(a, b)]

    def vscale(self, s, a):
        return [s * x for x in a]

    def vcross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def norm2(self, a):
        return self.vdot(a, a)

    def mulmv(self, M, v):
        return [self.vdot(r, v) for r in M]

    def mulvm(self, v, M):
        return [self.vdot(v, [M[i][j] for i in range(len(M))]) for j in range(len(M[0]))]

    def mulmm(self, A, B):
        return [[self.vdot(r, [B[i][j] for i in range(len(B))]) for j in range(len(B[0]))] for r in A]

    def transpose(self, M):
        return [[M[i][j] for i in range(len(M))] for j in range(len(M[0]))]

    def det3(self, M):
        return self.vdot(M[0], self.vcross(M[1], M[2]))

    def call(self, path):
        """a function under contract"""
        return self.cls(path)

    def veq(self, a, b):
        return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])

    def meq(self, A, B):
        return self.and_(*[self.veq(x, y) for x, y in zip(A, B)])

    def eye(self, n=3):
        return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


# ================================================================================================= symbolic
class SymCtx(CBase):
    sym = True

    def __init__(self, loader):
        from . import terms, core, arr, lists, absfn, npx
        self.T, self.core, self.arr, self.lists, self.absfn, self.npx = terms, core, arr, lists, absfn, npx
        self.E = core.E
        self.loader = loader
        self.np = npx.NP
        self.array_sigs = {}

    def mod(self, name):
        return self.loader.load(name)

    def cls(self, path):
        m, n = path.rsplit(".", 1)
        return getattr(self.loader.load(m), n)

    # inputs
    def _in(self, name, p):
        self.E.inputs[name] = p

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, scale=None):
        T = self.T
        v = T.var(name)
        self._in(name, v)
        if pos or nonneg or (lo is not None and lo >= 0):
            T.PLUS.add(v.single_atom())
        if pos:
            self.E.assume(T.lt0(-v))
        if nonneg:
            self.E.assume(T.le0(-v))
        if lo is not None:
            self.E.assume(T.le(T.const(lo), v))
        if hi is not None:
            self.E.assume(T.le(v, T.const(hi)))
        return self.core.SNum(v, False)

    def int(self, name, lo=None, hi=None):
        T = self.T
        v = T.var(name, True)
        self._in(name, v)
        if lo is not None:
            self.E.assume(T.le(T.const(lo), v))
        if hi is not None:
            self.E.assume(T.le(v, self.core.poly(hi)))
        return self.core.SNum(v, True)

    def size(self, name, lo=0, hi=None, big=False):
        """a number of things; concrete runs draw up to hi, now and then a large number if big"""
        return self.int(name, lo)

    def bool(self, name):
        T = self.T
        b = T.bapp(name)
        self.E.inputs[name] = b
        return self.core.SBool(b)

    def choice(self, name, options):
        """one of finitely many configurations (all are explored)"""
        T = self.T
        v = T.var("choice_" + name, True)
        self._in("choice_" + name, v)
        self.E.assume(T.le0(-v))
        self.E.assume(T.lt(v, T.const(len(options))))
        for i in range(len(options) - 1):
            if self.E.branch(T.eq(v, T.const(i))):
                return options[i]
        return options[-1]

    def vec(self, name, n=3):
        T = self.T
        ps = [T.var("%s_%d" % (name, i)) for i in range(n)]
        for i, p in enumerate(ps):
            self._in("%s_%d" % (name, i), p)
        return self.arr.SArr.from_terms((n,), "f", ps)

    def mat(self, name, r=3, k=3):
        T = self.T
        ps = [T.var("%s_%d_%d" % (name, i, j)) for i in range(r) for j in range(k)]
        for i in range(r):
            for j in range(k):
                self._in("%s_%d_%d" % (name, i, j), ps[i * k + j])
        return self.arr.SArr.from_terms((r, k), "f", ps)


    def array(self, name, shape, kind="f", lo=None, hi=None):
        """an arbitrary array; dimensions may be symbolic"""
        T = self.T
        sh = tuple(self.core.unwrap_int(d) for d in shape)
        self.E.inputs["array:" + name] = (name, sh, kind)
        if kind == "b":
            return self.arr.SArr(sh, kind, lambda idx: T.bapp(name, idx))
        if lo is not None or hi is not None:
            def facts(args, name=name, lo=lo, hi=hi, kind=kind):
                a = T.app(name, args, kind == "i")
                return [T.le(self.core.poly(lo), a) if lo is not None else T.TRUE, T.le(a, self.core.poly(hi)) if hi is not None else T.TRUE]
            sig = tuple(None if x is None else self.core.poly(x).id for x in (lo, hi))
            if self.array_sigs.setdefault(name, sig) != sig:
                raise T.Unsupported("input array %s with different bounds on different paths" % name)
            self.absfn.FACTS[name] = facts
        return self.arr.SArr(sh, kind, lambda idx: T.app(name, idx, kind == "i"))

    def points(self, name, n):
        return self.array(name, (n, 3))

    def unit(self, name):
        """an arbitrary unit vector, via the rewriting x2^2 = 1 - x0^2 - x1^2"""
        T = self.T
        ps = [T.var("%s_%d" % (name, i)) for i in range(3)]
        a = ps[2].single_atom()
        if a not in T.RULES:
            T.add_rule(((a, 2),), T.ONE - ps[0] * ps[0] - ps[1] * ps[1])
        one = T.ONE
        # stated as it is: the simplifier knows that one minus it is a square
        self.E.assume(T.Bool.make("le", (ps[0] * ps[0] + ps[1] * ps[1] - one,)))
        for i, p in enumerate(ps):
            self._in("%s_%d" % (name, i), p)
        return self.arr.SArr.from_terms((3,), "f", ps)

    def orthogonal(self, name, det=1):
        """an arbitrary orthogonal matrix of the given determinant, through its Groebner basis"""
        from . import so3
        T = self.T
        ps = so3.matrix(name, det)
        for i in range(3):
            for j in range(3):
                self._in("%s_%d_%d" % (name, i, j), ps[i][j])
        return self.arr.SArr.from_terms((3, 3), "f", [ps[i][j] for i in range(3) for j in range(3)])

    def rotation(self, name):
        return self.orthogonal(name, 1)

    # logic
    def b(self, x):
        return self.core.boolean(x)

    def and_(self, *xs):
        return self.core.SBool(self.T.and_(*[self.b(x) for x in xs]))

    def or_(self, *xs):
        return self.core.SBool(self.T.or_(*[self.b(x) for x in xs]))

    def not_(self, x):
        return self.core.SBool(self.T.not_(self.b(x)))

    def iff(self, a, b):
        return self.core.SBool(self.T.iff(self.b(a), self.b(b)))

    def lt(self, a, b):
        return self.core.SBool(self.T.lt(self.core.poly(a), self.core.poly(b)))

    def le(self, a, b):
        return self.core.SBool(self.T.le(self.core.poly(a), self.core.poly(b)))

    def eq(self, a, b):
        return self.core.SBool(self.T.eq(self.core.poly(a), self.core.poly(b)))

    def ite(self, c, a, b):
        return self.core.SNum(self.T.ite(self.b(c), self.core.poly(a), self.core.poly(b)))

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return self.npx.f_sqrt(a)

    def norm(self, v):
        return self.core.SNum(self.T.sqrt(self.core.poly(self.norm2(v))))

    def floor(self, a):
        return self.core.SNum(self.T.floor(self.core.poly(a)), True)

    def forall(self, n, f):
        """for all i in range(n)"""
        k = self.T.fresh("i", True)
        kk = self.core.SNum(k, True)
        np_ = self.core.unwrap_int(n)
        if isinstance(np_, int) and np_ <= 3:
            return self.and_(*[f(self.core.SNum(self.T.const(i), True)) for i in range(np_)])
        g = self.absfn.rng(k, self.core.poly(n))
        self.E.pc.append(g)
        try:
            b = self.b(f(kk))
        finally:
            self.E.pc.remove(g)
        return self.core.SBool(self.T.forall([k], self.T.implies(g, b)))

    def exists(self, n, f):
        return self.not_(self.forall(n, lambda i: self.not_(f(i))))

    def index(self, name, n):
        """an arbitrary index below n"""
        v = self.T.var(name, True)
        self._in(name, v)
        self.E.assume(self.absfn.rng(v, self.core.poly(n)))
        return self.core.SNum(v, True)

    def each(self, name, n):
        """iterate: once with an arbitrary index"""
        if not self.E.branch(self.T.lt0(-self.core.poly(n))):
            return []
        return [self.index(name, n)]

    def vals(self, a):
        """entries of a small array as scalars"""
        a = self.arr.to_arr(a)
        return [self.core.wrap(t) if a.kind == "b" else self.core.SNum(self.arr.as_poly(t), a.kind == "i") for t in a.terms()]

    def rows(self, a):
        a = self.arr.to_arr(a)
        v = self.vals(a)
        k = a.sh[1]
        return [v[i * k:(i + 1) * k] for i in range(a.sh[0])]

    def row(self, a, i):
        return self.vals(self.arr.to_arr(a)[i])

    def item(self, a, *ix):
        r = self.arr.to_arr(a)[ix if len(ix) > 1 else ix[0]]
        return r

    def list_at(self, l, i):
        return l[i]

    def length(self, x):
        from . import rt
        return rt.b_len(x)

    def shape_is(self, a, *dims):
        a = self.arr.to_arr(a)
        if len(a.sh) != len(dims):
            return self.core.SBool(self.T.FALSE)
        return self.and_(*[self.core.SBool(self.T.eq(self.arr.dp(x), self.core.poly(y))) for x, y in zip(a.sh, dims)])

    def snapshot(self, a):
        return self.arr.to_arr(a).fresh_copy()

    def same_array(self, a, b):
        """equal shapes and entries"""
        a, b = self.arr.to_arr(a), self.arr.to_arr(b)
        if len(a.sh) != len(b.sh):
            return self.core.SBool(self.T.FALSE)
        T = self.T
        cs = [T.eq(self.arr.dp(x), self.arr.dp(y)) for x, y in zip(a.sh, b.sh)]
        if a.concrete and b.concrete:
            if a.sh != b.sh:
                return self.core.SBool(T.FALSE)
            for x, y in zip(a.terms(), b.terms()):
                cs.append(T.iff(self.arr.as_bool(x), self.arr.as_bool(y)) if a.kind == "b" and b.kind == "b" else T.eq(self.arr.as_poly(x), self.arr.as_poly(y)))
            return self.core.SBool(T.and_(*cs))
        vs = [T.fresh("e", True) for _ in a.sh]
        g = T.and_(*[self.absfn.rng(v, self.arr.dp(d)) for v, d in zip(vs, a.sh)])
        x, y = a.get(tuple(vs)), b.get(tuple(vs))
        q = T.iff(self.arr.as_bool(x), self.arr.as_bool(y)) if a.kind == "b" and b.kind == "b" else T.eq(self.arr.as_poly(x), self.arr.as_poly(y))
        cs.append(T.forall(vs, T.implies(g, q)))
        return self.core.SBool(T.and_(*cs))

    # contract clauses
    def require(self, cond):
        self.E.assume(self.b(cond))

    def case(self, cond):
        return self.E.branch(self.b(cond))

    def ensure(self, label, cond):
        self.E.oblige(label, self.b(cond), kind="post")

    def fact(self, label, cond):
        """an intermediate lemma: proved, then available"""
        b = self.b(cond)
        self.E.oblige(label, b, kind="lemma")
        self.E.assume(b)

    @contextlib.contextmanager
    def under(self, *conds):
        """a case: what is stated inside is stated (and known) under the conditions only"""
        sv = self.E.pc
        self.E.pc = list(sv)
        try:
            for b in conds:
                self.E.assume(self.b(b))
            yield
        finally:
            self.E.pc = sv

    def settle(self, x):
        """the same value with the case distinctions and quotients decided that the path condition decides"""
        T, core, known = self.T, self.core, self.arr.known

        def lift(a, f):
            p = a.single_atom()
            if p is None and len(a.d) == 1:
                (m, co), = a.d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
                    return lift(T.ite(m[0][0].args[0], m[0][0].args[1].scale(co), m[0][0].args[2].scale(co)), f)
            if p is not None and p.kind == "ite":
                return T.ite(p.args[0], lift(p.args[1], f), lift(p.args[2], f))
            return f(a)

        def go(p):
            r = T.ZERO
            for m, co in p.d.items():
                q = T.const(co)
                for a, e in m:
                    if a.kind == "ite":
                        b = cond(a.args[0])
                        t = go(a.args[1]) if known(b) else go(a.args[2]) if known(T.not_(b)) else T.ite(b, go(a.args[1]), go(a.args[2]))
                    elif a.kind == "quot":
                        t = core.p_floordiv(go(a.args[0]), go(a.args[1]))
                    elif a.kind == "floor":
                        t = lift(go(a.args[0]), T.floor)
                    else:
                        t = T.atom_poly(a)
                    q = q * (t ** e if e > 0 else T.inv(t) ** (-e))
                r = r + q
            return r

        def cond(b):
            if b.kind in ("lt", "le", "eq", "not", "and", "or", "iff"):
                return T.rebuild_bool(b, [go(v) if isinstance(v, T.Poly) else cond(v) for v in b.args])
            return b
        if isinstance(x, (T.Bool, core.SBool)):
            return core.SBool(cond(self.b(x)))
        return core.SNum(go(core.poly(x)), True)

    def lincomb(self, label, x, parts):
        """lemma: x = 0, because x is identically the sum of c*e over the parts (c, e) and every e is 0"""
        T, P = self.T, self.core.poly
        s = T.ZERO
        for cf, e in parts:
            self.E.oblige(label + " (part)", T.eq(P(e), T.ZERO), kind="lemma")
            s = s + P(cf) * P(e)
        self.E.oblige(label + " (certificate)", T.eq(P(x), s), kind="lemma")
        self.E.assume(T.eq(P(x), T.ZERO))

    def cancel(self, label, d, x):
        """lemma: x = 0, because d*x = 0 and d is not 0"""
        T, P = self.T, self.core.poly
        self.E.oblige(label + " (factor)", T.not_(T.eq(P(d), T.ZERO)), kind="lemma")
        self.E.oblige(label + " (product)", T.eq(P(d) * P(x), T.ZERO), kind="lemma")
        self.E.assume(T.eq(P(x), T.ZERO))

    def sincos(self, t):
        from . import scirot
        s, k = scirot.sin_cos(self.core.poly(t))
        return self.core.SNum(s), self.core.SNum(k)

    def induction(self, label, n, prop, hint=None):
        """lemma: prop(k) for every 0 <= k <= n, by induction on k; then available"""
        T = self.T
        k = T.fresh("k", True)
        kk = self.core.SNum(k, True)
        np_ = self.core.poly(n)
        self.E.oblige(label + " (base)", self.b(prop(self.core.SNum(T.ZERO, True))), kind="lemma")
        g = self.absfn.rng(k, np_)
        sv = self.E.pc
        self.E.pc = list(sv)
        self.E.assume(g)
        self.E.assume(self.b(prop(kk)))
        if hint is not None:
            hint(kk)
        self.E.oblige(label + " (step)", self.b(prop(self.core.SNum(k + T.ONE, True))), kind="lemma")
        self.E.pc = sv
        h = T.and_(T.le0(-k), T.le(k, np_))
        self.E.assume(T.forall([k], T.implies(h, self.b(prop(kk)))))

    def count_before(self, label, A, idx, u):
        """lemma: A[idx] is entry u of the array A was selected from, because idx is u less the number of entries before u that
        were left out.  The mask of the selection and the summed property are proved to be complementary; the rest is counting."""
        T, P = self.T, self.core.poly
        r = T.fresh("r", True)
        A = self.arr.to_arr(A)
        t = A.get(tuple([r] + [T.ZERO] * (len(A.sh) - 1)))
        sels = [a for a in T.all_atoms(t).values() if a.kind == "app" and a.name.startswith("sel#") and r.single_atom() in T.free_vars(T.atom_poly(a))]
        sums = [a for a in T.all_atoms(P(idx)).values() if a.kind == "app" and a.name.startswith("Sum#")]
        if len(sels) != 1 or len(sums) != 1:
            raise T.Unsupported("no count of left out entries")
        (_, cm, cn, cb, cps), ps = self.absfn.META[sels[0].name], list(sels[0].args[:-1])
        (_, sb, sn, sk, sps), qs = self.absfn.META[sums[0].name], list(sums[0].args)
        inst = self.absfn.inst
        n, m = inst(cn, cps, ps, [], []), inst(sn, sps, qs, [], [])
        i = T.fresh("i", True)
        b = inst(sb, sps, qs, [sk], [i])
        u = P(u)
        self.fact(label + " (number of entries before)", self.core.SBool(T.eq(m, u)))
        a = b.single_atom()
        if a is None or a.kind != "ite" or {x.const if x.is_const else None for x in a.args[1:]} != {0, 1}:
            raise T.Unsupported("not a count")
        out = a.args[0] if a.args[1].const == 0 else T.not_(a.args[0])
        self.fact(label + " (complement)", self.core.SBool(T.implies(self.absfn.rng(i, n), T.iff(inst(cm, cps, ps, [cb], [i]), out))))
        at = u - T.atom_poly(sums[0])
        self.fact(label + " (kept)", self.core.SBool(T.and_(self.absfn.rng(u, n), inst(cm, cps, ps, [cb], [u]))))
        self.E.assume(T.and_(self.absfn.rng(at, T.app("cnt" + sels[0].name[3:], ps, True)),
                             T.eq(T.app(sels[0].name, ps + [at], True), u), T.eq(T.app("rank" + sels[0].name[3:], ps + [u], True), at)))

    def raises(self, label, exc, f):
        """f() must raise exc on every path"""
        try:
            f()
        except exc:
            self.ensure(label, True)
            return
        self.ensure(label, False)

    def not_raises(self, label, f):
        try:
            r = f()
        except Exception as e:
            self.E.oblige("%s (raised %s: %s)" % (label, type(e).__name__, e), self.T.FALSE, kind="post")
            from .core import PathEnd
            raise PathEnd()
        return r

    def same(self, label, a, b):
        self.ensure(label, self.same_array(a, b))

    def cover(self, label):
        """this point must be reachable (guards against vacuous preconditions)"""
        self.E.covers.append((label, list(self.E.pc)))


# ================================================================================================= concrete
class CB:
    """three-valued truth"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "CB(%s)" % self.v


def cb(x):
    if isinstance(x, CB):
        return x.v
    if x is None:
        return None
    if isinstance(x, _np.ndarray):
        if x.size == 1:
            return bool(x.reshape(-1)[0])
        raise ValueError("array used as a truth value")
    return bool(x)


class ConCtx(CBase):
    sym = False

    def __init__(self, mods, rng, values=None, model=None, tol=TOL):
        self.mods, self.rng = mods, rng
        self.values = {}
        self.preset = values or {}
        self.model = model
        self.np = _np
        self.tol = tol
        self.reached = 0
        self.checked = 0
        self.undecided = 0

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def cls(self, path):
        m, n = path.rsplit(".", 1)
        return getattr(self.mod(m), n)

    # inputs
    def _val(self, name, gen):
        if name in self.preset:
            v = self.preset[name]
        else:
            v = gen()
        self.values[name] = v
        return v

    def _real(self, scale=3.0):
        r = self.rng.random()
        if r < 0.25:
            return float(self.rng.integers(-2, 3))
        if r < 0.35:
            return float(self.rng.integers(-4, 5)) / 2
        return float(self.rng.normal() * scale)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, scale=3.0):
        def gen():
            v = self._real(scale)
            if lo is not None and hi is not None:
                r = self.rng.random()
                v = lo if r < 0.1 else hi if r < 0.2 else float(self.rng.uniform(lo, hi))
            elif lo is not None:
                v = lo + abs(v)
            elif hi is not None:
                v = hi - abs(v)
            elif pos or nonneg:
                v = abs(v)
                if pos and v == 0:
                    v = 1.0
            return v
        v = self._val(name, gen)
        if (pos and not v > 0) or (nonneg and v < 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def int(self, name, lo=None, hi=None):
        l = -6 if lo is None else lo
        h = l + 12 if hi is None else hi
        if h < l:
            raise Skip()
        v = int(self._val(name, lambda: int(self.rng.integers(l, h + 1))))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def size(self, name, lo=0, hi=None, big=False):
        def draw():
            if big and self.rng.random() < 0.04:
                return int(2 ** self.rng.uniform(5, 13.5))
            return int(self.rng.integers(lo, (hi or max(lo + 4, 6)) + 1))
        v = int(self._val(name, draw))
        if v < lo:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self._val(name, lambda: bool(self.rng.integers(0, 2))))

    def choice(self, name, options):
        i = int(self._val("choice_" + name, lambda: int(self.rng.integers(0, len(options)))))
        return options[i % len(options)]

    def vec(self, name, n=3):
        return _np.array([self._val("%s_%d" % (name, i), self._real) for i in range(n)], dtype=float)

    def mat(self, name, r=3, k=3):
        return _np.array([[self._val("%s_%d_%d" % (name, i, j), self._real) for j in range(k)] for i in range(r)], dtype=float)

    def array(self, name, shape, kind="f", lo=None, hi=None):
        def gen():
            sh = tuple(int(d) for d in shape)
            if kind == "b":
                return self.rng.integers(0, 2, size=sh).astype(bool)
            if kind == "i":
                return self.rng.integers(-6 if lo is None else lo, 7 if hi is None else hi + 1, size=sh)
            a = _np.empty(sh)
            for i in _np.ndindex(*sh):
                a[i] = self._real()
            return a
        a = _np.array(self._val("array:" + name, gen))
        if kind == "f":
            a = a.astype(float)
        if a.shape != tuple(int(d) for d in shape):
            raise Skip()
        return a

    def points(self, name, n):
        return self.array(name, (n, 3))

    def unit(self, name):
        v = self.vec(name)
        l = _np.linalg.norm(v)
        if l < 1e-6:
            raise Skip()
        v = v / l
        for i in range(3):
            self.values["%s_%d" % (name, i)] = float(v[i])
        return v

    def orthogonal(self, name, det=1):
        def gen():
            if self.rng.random() < 0.3:
                # signed permutations
                p = self.rng.permutation(3)
                M = _np.zeros((3, 3))
                for i in range(3):
                    M[i, p[i]] = self.rng.choice([-1.0, 1.0])
            else:
                M = _np.linalg.qr(self.rng.normal(size=(3, 3)))[0]
            if _np.linalg.det(M) * det < 0:
                M[2] = -M[2]
            return M
        if "%s_0_0" % name in self.preset:
            M = _np.array([[self.preset["%s_%d_%d" % (name, i, j)] for j in range(3)] for i in range(3)], dtype=float)
            u, s, v = _np.linalg.svd(M)
            if _np.max(_np.abs(s - 1)) > 1e-3:
                raise Skip()
            M = u @ v
        else:
            M = gen()
        for i in range(3):
            for j in range(3):
                self.values["%s_%d_%d" % (name, i, j)] = float(M[i, j])
        return M

    def rotation(self, name):
        return self.orthogonal(name, 1)

    # logic (Kleene)
    def b(self, x):
        return x

    def and_(self, *xs):
        vs = [cb(x) for x in xs]
        if any(v is False for v in vs):
            return CB(False)
        return CB(None if any(v is None for v in vs) else True)

    def or_(self, *xs):
        vs = [cb(x) for x in xs]
        if any(v is True for v in vs):
            return CB(True)
        return CB(None if any(v is None for v in vs) else False)

    def not_(self, x):
        v = cb(x)
        return CB(None if v is None else not v)

    def iff(self, a, b):
        x, y = cb(a), cb(b)
        return CB(None if x is None or y is None else x == y)

    def _scale(self, a, b):
        return self.tol * (1.0 + abs(a) + abs(b))

    def lt(self, a, b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return CB(False)
        if abs(a - b) <= self._scale(a, b) and not (float(a).is_integer() and float(b).is_integer()):
            return CB(None)
        return CB(a < b)

    def le(self, a, b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return CB(False)
        if abs(a - b) <= self._scale(a, b):
            return CB(True)
        return CB(a <= b)

    def eq(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return CB(True)
        if a != a or b != b:
            return CB(False)
        d = abs(a - b)
        s = self._scale(a, b)
        return CB(True if d <= s else None if d <= 100 * s else False)

    def ite(self, c, a, b):
        v = cb(c)
        if v is None:
            return float("nan")
        return a if v else b

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return math.sqrt(max(float(a), 0.0))

    def norm(self, v):
        return math.sqrt(self.norm2(v))

    def floor(self, a):
        return math.floor(a)

    def forall(self, n, f):
        return self.and_(*[f(i) for i in range(int(n))])

    def exists(self, n, f):
        return self.or_(*[f(i) for i in range(int(n))])

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        i = int(self._val(name, lambda: int(self.rng.integers(0, int(n)))))
        if not 0 <= i < n:
            raise Skip()
        return i

    def each(self, name, n):
        n = int(n)
        if n > 300:
            return sorted({0, n - 1} | {int(i) for i in self.rng.integers(0, n, 250)})
        return range(n)

    def vals(self, a):
        return [x for x in _np.asarray(a).reshape(-1).tolist()]

    def rows(self, a):
        return _np.asarray(a).tolist()

    def row(self, a, i):
        return _np.asarray(a)[i].tolist()

    def item(self, a, *ix):
        return _np.asarray(a)[ix if len(ix) > 1 else ix[0]]

    def list_at(self, l, i):
        return l[i]

    def length(self, x):
        return len(x)

    def shape_is(self, a, *dims):
        return CB(tuple(_np.asarray(a).shape) == tuple(int(d) for d in dims))

    def snapshot(self, a):
        return _np.array(a, copy=True)

    def same_array(self, a, b):
        a, b = _np.asarray(a), _np.asarray(b)
        if a.shape != b.shape:
            return CB(False)
        if a.dtype.kind in "bi" and b.dtype.kind in "bi":
            return CB(bool(_np.all(a == b)))
        if a.size == 0:
            return CB(True)
        return self.and_(*[self.eq(x, y) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())])

    # contract clauses
    def require(self, cond):
        if cb(cond) is not True:
            raise Skip()

    def case(self, cond):
        v = cb(cond)
        if v is None:
            raise Skip()
        return v

    def ensure(self, label, cond):
        v = cb(cond)
        self.checked += 1
        if v is None:
            self.undecided += 1
        if v is False:
            raise Violated(label)

    def fact(self, label, cond):
        self.ensure(label, cond)

    def lincomb(self, label, x, parts):
        self.ensure(label, self.eq(x, 0))

    def cancel(self, label, d, x):
        self.ensure(label, self.eq(x, 0))

    def count_before(self, label, A, idx, u):
        pass

    def sincos(self, t):
        return math.sin(t), math.cos(t)

    def induction(self, label, n, prop, hint=None):
        for k in range(int(n) + 1):
            self.ensure(label, prop(k))

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            self.checked += 1
            return
        except Exception as e:
            raise Violated(label, "raised %s instead: %s" % (type(e).__name__, e))
        raise Violated(label, "nothing was raised")

    def not_raises(self, label, f):
        try:
            return f()
        except Exception as e:
            raise Violated(label, "raised %s: %s" % (type(e).__name__, e))

    def same(self, label, a, b):
        self.ensure(label, self.same_array(a, b))

    def cover(self, label):
        self.reached += 1


# ================================================================================================= witnesses
def resolve(E, T, p):
    """decide the case distinctions at the top of a term"""
    while True:
        a = p.single_atom()
        if a is None or a.kind != "ite":
            return p
        p = a.args[1] if E.branch(a.args[0]) else a.args[2]


def witness(c, x, fname):
    """the arguments of the application of an input function that a value is"""
    p = resolve(c.E, c.T, c.core.poly(x))
    a = p.single_atom()
    if a is None or a.kind != "app" or a.name != fname:
        raise c.T.Unsupported("a result that is not one of the inputs: %r" % (p,))
    return [c.core.SNum(y, y.is_int) if isinstance(y, c.T.Poly) else y for y in a.args]


def invert(c, eqs, r):
    """a term R with t(R) = target for every (t, target) in eqs, through the enumerations that occur in the t; None if there is
    no such form.  eqs: terms over the variable r."""
    T, A = c.T, c.absfn
    ra = r.single_atom()
    eqs = list(eqs)
    done = {}

    def has(t):
        return ra in T.free_vars(t)
    for _ in range(40):
        eqs = [(t, g) for t, g in eqs if has(t)]
        # solved
        for t, g in eqs:
            d = t - r
            if not has(d):
                return g - d
        nxt = []
        progress = False
        groups = {}
        for t, g in eqs:
            a = t.single_atom()
            if a is None:
                # c*X + rest
                atoms = [(m, co) for m, co in t.d.items() if has(T.Poly.make({m: co}) if hasattr(T.Poly, "make") else t)]
                lin = [(m, co) for m, co in t.d.items() if len(m) == 1 and m[0][1] == 1 and has(T.atom_poly(m[0][0]))]
                if len(lin) == 1 and lin[0][1] in (1, -1):
                    x = T.atom_poly(lin[0][0][0][0])
                    rest = t - x.scale(lin[0][1])
                    if not has(rest):
                        nxt.append((x, (g - rest).scale(lin[0][1])))
                        progress = True
                        continue
                nxt.append((t, g))
                continue
            if a.kind == "ite":
                # ite on a condition: keep the branch that depends on r
                x, y = a.args[1], a.args[2]
                if has(x) != has(y):
                    nxt.append((x if has(x) else y, g))
                    progress = True
                    continue
                nxt.append((t, g))
                continue
            meta = A.META.get(a.name) if a.kind == "app" else None
            ps, last = (list(a.args[:-1]), a.args[-1]) if a.kind == "app" and a.args else ([], None)
            if meta and meta[0] == "perm" and not any(has(x) for x in ps):
                nxt.append((last, T.app("i" + a.name, ps + [g], True)))
                progress = True
                continue
            if meta and meta[0] == "sel" and has(last):
                # parameters may depend on r through values that are already determined
                ps2 = [subst_known(T, x, done) for x in ps]
                if not any(has(x) for x in ps2):
                    nxt.append((last, T.app("rank" + a.name[3:], ps2 + [g], True)))
                    progress = True
                    continue
            if a.kind == "app" and a.name.startswith(("blk#", "off#")) and not any(has(x) for x in ps):
                groups.setdefault((a.name[4:], tuple(x.id for x in ps), last.id), {})[a.name[:3]] = (ps, last, g)
                done[t.single_atom()] = g
            nxt.append((t, g))
        for (key, _, _), d in groups.items():
            if "blk" in d and "off" in d:
                ps, last, gb = d["blk"]
                nxt.append((last, T.app("flat#" + key, ps + [gb, d["off"][2]], True)))
                progress = True
        eqs = nxt
        if not progress:
            # parameters determined by a group
            return None
    return None


def subst_known(T, t, done):
    return T.Subst(done)(t) if done else t


def flat_lemmas(c, R, label):
    """for a position given through nested blocks: each index lies in its block (lemmas, innermost first); then available"""
    T, A = c.T, c.absfn
    done = set()

    def visit(t):
        if isinstance(t, T.Poly):
            for m in t.d:
                for a, e in m:
                    if a.kind != "var":
                        atom(a)

    def atom(a):
        if a in done:
            return
        done.add(a)
        for x in a.args:
            if isinstance(x, T.Poly):
                visit(x)
        if a.kind == "app" and a.name.startswith("flat#"):
            ps, k, p = list(a.args[:-2]), a.args[-2], a.args[-1]
            _, cm, cn, cb, cps, fn = A.META["blk#" + a.name[5:]]
            c.fact(label, c.core.SBool(A.rng(k, A.inst(cn, cps, ps, [], []))))
            c.fact(label, c.core.SBool(A.rng(p, A.inst(cm, cps, ps, [cb], [k]))))
            me = T.atom_poly(a)
            bl, of = T.app("blk#" + a.name[5:], ps + [me], True), T.app("off#" + a.name[5:], ps + [me], True)
            c.fact(label + " (block)", c.core.SBool(T.eq(bl, k)))
            c.fact(label + " (offset)", c.core.SBool(T.eq(of, p)))
            tot = T.app("tot#" + a.name[5:], ps, True)
            c.fact(label + " (total)", c.core.SBool(A.rng(me, tot)))
    visit(c.core.poly(R))


def ext_lemmas(c, t, idxs, label):
    """for every minimum and maximum that occurs in t: it bounds the values at the given indices (lemmas); then available"""
    T, A = c.T, c.absfn
    done = set()

    def visit(t):
        if isinstance(t, T.Poly):
            for m in t.d:
                for a, e in m:
                    if a.kind != "var" and a not in done:
                        done.add(a)
                        atom(a)
        elif isinstance(t, T.Bool):
            for x in t.args:
                visit(x)

    def atom(a):
        for x in a.args:
            visit(x)
        if a.kind != "app":
            return
        if a.name.startswith("len#"):
            for f in A.FACTS[a.name](list(a.args)):
                c.fact(label, c.core.SBool(f))
                visit(f)
            return
        m = A.META.get(a.name)
        if m and m[0] in ("min", "max"):
            which, cbod, cn, cb, cps = m
            me = T.atom_poly(a)
            n = A.inst(cn, cps, list(a.args), [], [])
            for k in idxs:
                k = c.core.poly(k)
                g = A.rng(k, n)
                v = A.inst(cbod, cps, list(a.args), [cb], [k])
                ok = T.le(me, v) if which == "min" else T.le(v, me)
                c.fact(label, c.core.SBool(T.implies(g, ok)))
    visit(c.core.poly(t))
