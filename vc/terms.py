"""Hash-consed terms: reals/ints as multivariate polynomials in normal form over atoms, plus booleans.

Every arithmetic value is a polynomial with rational coefficients over atoms; an atom is a variable, an
uninterpreted application, an if-then-else, floor, sqrt, reciprocal, abs or integer quotient.  Products are always
expanded and reduced with the rewriting rules of the atoms involved (sqrt(p)^2 -> p, inv(p)*p -> 1, rules declared for
unit vectors and rotation matrices), so polynomial identities are decided by normalisation.
"""
from fractions import Fraction
import itertools
import math

_ids = itertools.count(1)


class Unsupported(BaseException):
    """The engine cannot execute or express this construct."""


# --------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "is_int", "name", "bv", "_vars")

    def __init__(self, kind, args, is_int, name):
        self.id = next(_ids)
        self.kind = kind
        self.args = args
        self.is_int = is_int
        self.name = name
        self._vars = None

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "app":
            return "%s(%s)" % (self.name, ",".join(map(repr, self.args)))
        return "%s(%s)" % (self.kind, ",".join(map(repr, self.args)))

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}


def _mk_atom(kind, args, is_int, name=None):
    key = (kind, name, is_int) + tuple(a._key() if not isinstance(a, str) else a for a in args)
    a = _atoms.get(key)
    if a is None:
        a = Atom(kind, args, is_int, name)
        _atoms[key] = a
    return a


# --------------------------------------------------------------------------------------------- rules
# rule: (lhs monomial as dict atom->exp (positive exps), rhs Poly); indexed by one atom of lhs
RULES = {}


def add_rule(lhs, rhs):
    """lhs: tuple of (atom, exp); rhs: Poly.  Monomials divisible by lhs are rewritten."""
    a = max((x for x, _ in lhs), key=lambda z: z.id)
    RULES.setdefault(a, []).append((dict(lhs), rhs))
    Poly._mulcache.clear()


def clear_rules():
    RULES.clear()
    Poly._mulcache.clear()


# --------------------------------------------------------------------------------------------- polynomials
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


PLUS_APPS = ("len#", "tot#")   # functions whose values are never negative
PLUS = set()         # atoms declared not negative
SOS = set()          # polynomials built as sums of squares


class Poly:
    __slots__ = ("d", "_k", "id", "_int", "_fv")
    _cache = {}
    _mulcache = {}

    @staticmethod
    def make(d):
        """d: dict monomial -> Fraction (already reduced)"""
        k = frozenset(d.items())
        p = Poly._cache.get(k)
        if p is None:
            p = object.__new__(Poly)
            p.d = d
            p._k = k
            p.id = next(_ids)
            p._int = None
            p._fv = None
            Poly._cache[k] = p
        return p

    def _key(self):
        return ("P", self.id)

    # -- queries
    @property
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    @property
    def const(self):
        return self.d.get((), Fraction(0))

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.is_int and e > 0 for a, e in m) for m, c in self.d.items())
        return self._int

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def single_atom(self):
        """the atom if this polynomial is exactly one atom, else None"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: [(a.id, e) for a, e in t[0]]):
            s = "*".join((repr(a) if e == 1 else "%r^%d" % (a, e)) for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append("%s*%s" % (c, s))
        r = " + ".join(out)
        return r if len(r) < 4000 else r[:4000] + "..."

    # -- arithmetic
    def __add__(self, o):
        if not self.d:
            return o
        if not o.d:
            return self
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        r = Poly.make(d)
        if self.id in SOS and (o.id in SOS or o.is_const and o.const >= 0):
            SOS.add(r.id)
        return r

    def __neg__(self):
        return Poly.make({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly.make({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        if self.is_const:
            return o.scale(self.const)
        if o.is_const:
            return self.scale(o.const)
        key = (self.id, o.id) if self.id < o.id else (o.id, self.id)
        r = Poly._mulcache.get(key)
        if r is None:
            if len(self.d) * len(o.d) > 400000:
                raise Unsupported("polynomial too large")
            d = {}
            for m1, c1 in self.d.items():
                for m2, c2 in o.d.items():
                    m = _mono_mul(m1, m2)
                    n = d.get(m, 0) + c1 * c2
                    if n:
                        d[m] = n
                    else:
                        d.pop(m, None)
            r = reduce_dict(d)
            Poly._mulcache[key] = r
            if self is o or (self.id in SOS and o.id in SOS):
                SOS.add(r.id)
        return r

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def lead(self):
        """leading (monomial, coeff) by degree, then atom ids"""
        return max(self.d.items(), key=lambda t: (sum(e for _, e in t[0]), [(a.id, e) for a, e in reversed(t[0])]))


def _mono_rule(m):
    """find a rewriting for monomial m: returns (quotient monomial, Poly) or None"""
    md = None
    for a, e in m:
        if a.kind == "sqrt":
            if e >= 2:
                q = dict(m)
                q[a] = e - 2
                if not q[a]:
                    del q[a]
                return tuple(sorted(q.items(), key=lambda t: t[0].id)), a.args[0]
            if e <= -2:
                q = dict(m)
                q[a] = e + 2
                if not q[a]:
                    del q[a]
                return tuple(sorted(q.items(), key=lambda t: t[0].id)), inv(a.args[0])
        elif a.kind == "abs":
            if e >= 2:
                q = dict(m)
                q[a] = e - 2
                if not q[a]:
                    del q[a]
                return tuple(sorted(q.items(), key=lambda t: t[0].id)), a.args[0] * a.args[0]
        elif a.kind == "inv" and e < 0:
            q = dict(m)
            del q[a]
            return tuple(sorted(q.items(), key=lambda t: t[0].id)), a.args[0] ** (-e)
        rl = RULES.get(a)
        if rl and e > 0:
            if md is None:
                md = dict(m)
            for lhs, rhs in rl:
                if all(md.get(b, 0) >= f for b, f in lhs.items()):
                    q = dict(md)
                    for b, f in lhs.items():
                        q[b] -= f
                        if not q[b]:
                            del q[b]
                    return tuple(sorted(q.items(), key=lambda t: t[0].id)), rhs
    return None


def reduce_dict(d):
    todo = d
    done = {}
    steps = 0
    while todo:
        nxt = {}
        for m, c in todo.items():
            r = _mono_rule(m)
            if r is None:
                n = done.get(m, 0) + c
                if n:
                    done[m] = n
                else:
                    done.pop(m, None)
            else:
                steps += 1
                if steps > 2000000:
                    raise Unsupported("reduction did not terminate")
                q, rhs = r
                for m2, c2 in rhs.d.items():
                    mm = _mono_mul(q, m2)
                    n = nxt.get(mm, 0) + c * c2
                    if n:
                        nxt[mm] = n
                    else:
                        nxt.pop(mm, None)
        todo = nxt
    return Poly.make(done)


def renorm(p):
    """renormalise after rules were added"""
    return reduce_dict(dict(p.d))


def const(c):
    c = to_fraction(c)
    return Poly.make({(): c} if c else {})


_fr_cache = {}


def to_fraction(x):
    """Floats are read as the simplest rational that rounds to the same double (0.1 -> 1/10, 1/3. -> 1/3)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    f = _fr_cache.get(x)
    if f is None:
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite constant %r" % x)
        f = Fraction(x)
        for lim in (100, 10**4, 10**6, 10**9, 10**12):
            g = f.limit_denominator(lim)
            if float(g) == x:
                f = g
                break
        else:
            g = Fraction(repr(x))
            if float(g) == x:
                f = g
        _fr_cache[x] = f
    return f


ZERO = const(0)
ONE = const(1)


def atom_poly(a):
    return Poly.make({((a, 1),): Fraction(1)})


def var(name, is_int=False):
    return atom_poly(_mk_atom("var", (), is_int, name))


_fresh = itertools.count()


def fresh(prefix="v", is_int=False):
    return var("%s!%d" % (prefix, next(_fresh)), is_int)


def app(name, args, is_int=False):
    return atom_poly(_mk_atom("app", tuple(args), is_int, name))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    # common case: ite(c, x, ite(c, y, z)) -> ite(c, x, z)
    aa = b.single_atom()
    if aa is not None and aa.kind == "ite" and aa.args[0] is c:
        b = aa.args[2]
    aa = a.single_atom()
    if aa is not None and aa.kind == "ite" and aa.args[0] is c:
        a = aa.args[1]
    if a is b:
        return a
    return atom_poly(_mk_atom("ite", (c, a, b), a.is_int and b.is_int))


def floor(p):
    if p.is_const:
        return const(math.floor(p.const))
    if p.is_int:
        return p
    # split the integer part off
    ip = {m: c for m, c in p.d.items() if c.denominator == 1 and all(a.is_int and e > 0 for a, e in m)}
    if ip:
        ipp = Poly.make(ip)
        rest = p - ipp
        if () in rest.d and len(rest.d) > 0 and not rest.is_const:
            pass
        return ipp + floor(rest) if rest.is_const else ipp + atom_poly(_mk_atom("floor", (rest,), True))
    return atom_poly(_mk_atom("floor", (p,), True))


def sqrt(p):
    if p.is_const:
        c = p.const
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
            # sqrt(n/d) = sqrt(n*d)/d with the square part removed
            k = c.numerator * c.denominator
            f = 1
            i = 2
            while i * i <= k and i < 2000:
                while k % (i * i) == 0:
                    k //= i * i
                    f *= i
                i += 1
            return atom_poly(_mk_atom("sqrt", (const(k),), False)).scale(Fraction(f, c.denominator))
        raise Unsupported("square root of a negative constant")
    # single monomial with even powers: sqrt(c a^2) = sqrt(c) |a|
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            r = sqrt(const(c)) if c != 1 else ONE
            return r * absv(Poly.make({tuple((a, e // 2) for a, e in m): Fraction(1)}))
        if c > 0 and len(m) == 1 and m[0][0].kind == "inv":
            # sqrt(c*inv(q)) = sqrt(c)/sqrt(q)
            r = sqrt(const(c)) if c != 1 else ONE
            s = sqrt(m[0][0].args[0])
            return r * inv(s)
    # pull a square constant content out
    lc = p.lead()[1]
    if lc > 0 and lc != 1:
        n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
        if n * n == lc.numerator and d * d == lc.denominator:
            return sqrt(p.scale(1 / lc)).scale(Fraction(n, d))
    return atom_poly(_mk_atom("sqrt", (p,), False))


def absv(p):
    if p.is_const:
        return const(abs(p.const))
    if p.lead()[1] < 0:
        p = -p
    if _nonneg(p):
        return p
    if _nonneg(-p):
        return -p
    return atom_poly(_mk_atom("abs", (p,), p.is_int))


def inv(p):
    """1/p; the caller is responsible for the obligation p != 0"""
    if p.is_const:
        if p.const == 0:
            raise ZeroDivisionError
        return const(1 / p.const)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return reduce_dict({tuple((a, -e) for a, e in m): 1 / c})
    # remove monomial content and leading coefficient
    m0, lc = p.lead()
    common = None
    for m in p.d:
        md = dict(m)
        if common is None:
            common = md
        else:
            common = {a: min(e, md.get(a, 0)) for a, e in common.items() if (e > 0 and md.get(a, 0) > 0) or (e < 0 and md.get(a, 0) < 0)}
            for a, e in list(common.items()):
                if e < 0:
                    common[a] = max(dict(mm).get(a, 0) for mm in p.d)
    if common:
        cm = {}
        for a in common:
            es = [dict(m).get(a, 0) for m in p.d]
            if min(es) > 0:
                cm[a] = min(es)
            elif max(es) < 0:
                cm[a] = max(es)
        if cm:
            cmm = tuple(sorted(cm.items(), key=lambda t: t[0].id))
            icm = tuple((a, -e) for a, e in cmm)
            q = Poly.make({_mono_mul(m, icm): c for m, c in p.d.items()})
            return reduce_dict({icm: Fraction(1)}) * inv(q)
    if lc != 1:
        return inv(p.scale(1 / lc)).scale(1 / lc)
    a = _mk_atom("inv", (p,), False)
    if a not in RULES:
        m0, _ = p.lead()
        if all(e > 0 for _, e in m0):
            rest = p - Poly.make({m0: Fraction(1)})
            ap = atom_poly(a)
            RULES[a] = []
            rhs = ONE - (ap * rest)
            lhs = dict(m0)
            lhs[a] = 1
            RULES[a].append((lhs, rhs))
            Poly._mulcache.clear()
    return atom_poly(a)


def divide(a, b):
    """a = b*q + r, with the monomials of a that are multiples of the monomial b in b*q"""
    if len(b.d) != 1:
        return ZERO, a
    (mb, cb), = b.d.items()
    if cb != 1:
        return ZERO, a
    mb = dict(mb)
    q, r = {}, {}
    for m, c in a.d.items():
        e = dict(m)
        if c.denominator == 1 and all(e.get(k, 0) >= n for k, n in mb.items()):
            for k, n in mb.items():
                e[k] -= n
            q[tuple(sorted(((k, n) for k, n in e.items() if n), key=lambda t: t[0].id))] = c
        else:
            r[m] = c
    return Poly.make(q), Poly.make(r)


def quot(a, b):
    """floor(a/b) for integers, b > 0 is the caller's obligation"""
    if a.is_const and b.is_const:
        return const(a.const // b.const)
    if b.is_const:
        return floor(a.scale(1 / b.const))
    return atom_poly(_mk_atom("quot", (a, b), a.is_int and b.is_int))


def pi():
    return atom_poly(_mk_atom("pi", (), False, "pi"))


# --------------------------------------------------------------------------------------------- booleans
class Bool:
    __slots__ = ("id", "kind", "args", "name", "_fv")
    _cache = {}

    @staticmethod
    def make(kind, args=(), name=None):
        key = (kind, name) + tuple(a._key() for a in args)
        b = Bool._cache.get(key)
        if b is None:
            b = object.__new__(Bool)
            b.id = next(_ids)
            b.kind = kind
            b.args = args
            b.name = name
            b._fv = None
            Bool._cache[key] = b
        return b

    def _key(self):
        return ("B", self.id)

    def __repr__(self):
        k = self.kind
        if k in ("true", "false"):
            return k
        if k == "lt":
            return "(%r < 0)" % (self.args[0],)
        if k == "le":
            return "(%r <= 0)" % (self.args[0],)
        if k == "eq":
            return "(%r == 0)" % (self.args[0],)
        if k == "not":
            return "!%r" % (self.args[0],)
        if k == "app":
            return "%s(%s)" % (self.name, ",".join(map(repr, self.args)))
        if k == "forall":
            return "(forall %s. %r)" % (",".join(repr(a) for a in self.args[:-1]), self.args[-1])
        return "(%s)" % ((" %s " % {"and": "&", "or": "|"}.get(k, k)).join(map(repr, self.args)))


TRUE = Bool.make("true")
FALSE = Bool.make("false")


def bconst(b):
    return TRUE if b else FALSE


def bapp(name, args=()):
    return Bool.make("app", tuple(args), name)


def _sgn_norm(p):
    """scale p by a positive constant so that the leading coefficient is +-1"""
    c = abs(p.lead()[1])
    return p.scale(1 / c) if c != 1 else p


def lt0(p):
    if p.is_const:
        return bconst(p.const < 0)
    r = _nonneg(p)
    if r:
        return FALSE
    r = _nonneg(-p)
    return Bool.make("lt", (_sgn_norm(p),))


def le0(p):
    if p.is_const:
        return bconst(p.const <= 0)
    if _nonneg(-p):
        return TRUE
    return Bool.make("le", (_sgn_norm(p),))


def _nonneg(p):
    """cheap syntactic test: all monomials are even powers / sqrt / abs with positive coefficients, or built as a sum of squares"""
    if p.id in SOS:
        return True
    for m, c in p.d.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and a.kind not in ("sqrt", "abs") and a not in PLUS and not (a.kind == "app" and a.name.startswith(PLUS_APPS)):
                return False
    return True


def clear_denominators(p):
    """p times a product of powers of its divisors (not zero where p is defined), without divisions"""
    for _ in range(24):
        cand = [a for a in p.atoms() if a.kind == "inv" or any(dict(m).get(a, 0) < 0 for m in p.d)]
        if not cand:
            return p
        a = max(cand, key=lambda x: x.id)
        parts = {}
        for m, c in p.d.items():
            d = dict(m)
            e = d.pop(a, 0)
            if a.kind == "inv":
                e = -e
            parts.setdefault(e, {})[tuple(sorted(d.items(), key=lambda t: t[0].id))] = c
        lo = min(parts)
        base = a.args[0] if a.kind == "inv" else atom_poly(a)
        r = ZERO
        for e, d in parts.items():
            r = r + reduce_dict(d) * base ** (e - lo)
        p = r
    return p


def eq0(p):
    if p.is_const:
        return bconst(p.const == 0)
    c = p.lead()[1]
    if c != 1:
        p = p.scale(1 / c)
    if p.is_int is False and all(a.is_int and e > 0 for m in p.d for a, e in m):
        # integer valued atoms: clear denominators; constant may be unreachable
        den = 1
        for cc in p.d.values():
            den = den * cc.denominator // math.gcd(den, cc.denominator)
        q = p.scale(den)
        g = 0
        for m, cc in q.d.items():
            if m:
                g = math.gcd(g, int(cc))
        if g and q.const % g:
            return FALSE
    return Bool.make("eq", (p,))


def lt(a, b):
    return lt0(a - b)


def le(a, b):
    return le0(a - b)


def eq(a, b):
    return eq0(a - b)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "lt":
        return le0(-b.args[0])
    if b.kind == "le":
        return lt0(-b.args[0])
    return Bool.make("not", (b,))


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.args if b.kind == "and" else (b,)):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        n = not_(x)
        if n.id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return Bool.make("and", tuple(out))


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.args if b.kind == "or" else (b,)):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
    for x in out:
        n = not_(x)
        if n.id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return Bool.make("or", tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.id > b.id:
        a, b = b, a
    return Bool.make("iff", (a, b))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return and_(implies(c, a), or_(c, b))


def forall(vs, body):
    """vs: list of variable Polys"""
    fv = free_vars(body)
    vs = [v for v in vs if v.single_atom() in fv]
    if not vs or body in (TRUE, FALSE):
        return body
    if body.kind == "forall":
        vs = vs + list(body.args[:-1])
        body = body.args[-1]
    # bound variables are named by the height of the quantifier: equal up to renaming is identical
    h = qheight(body)
    mp = {}
    canon = []
    for i, v in enumerate(vs):
        a = v.single_atom()
        q = var("_Q%d%s" % (h + i, "i" if a.is_int else "r"), a.is_int)
        canon.append(q)
        if q is not v:
            mp[a] = q
    if mp:
        body = Subst(mp)(body)
        if body in (TRUE, FALSE):
            return body
    return Bool.make("forall", tuple(canon) + (body,))


_qh = {}


def qheight(t):
    """number of names taken by nested quantifiers"""
    r = _qh.get(t.id)
    if r is None:
        r = 0
        if isinstance(t, Poly):
            for a in t.atoms():
                for x in a.args:
                    r = max(r, qheight(x))
        elif t.kind == "forall":
            r = qheight(t.args[-1])
            for v in t.args[:-1]:
                r = max(r, int(v.single_atom().name[2:-1]) + 1)
        else:
            for x in t.args:
                r = max(r, qheight(x))
        _qh[t.id] = r
    return r


def exists(vs, body):
    return not_(forall(vs, not_(body)))


# --------------------------------------------------------------------------------------------- traversal
_atom_fv = {}


def atom_free_vars(a):
    r = _atom_fv.get(a)
    if r is None:
        if a.kind == "var":
            r = frozenset([a])
        else:
            s = set()
            for x in a.args:
                s |= free_vars(x)
            r = frozenset(s)
        _atom_fv[a] = r
    return r


def free_vars(t):
    if t._fv is not None:
        return t._fv
    s = set()
    if isinstance(t, Poly):
        for a in t.atoms():
            s |= atom_free_vars(a)
    else:
        if t.kind == "forall":
            s |= free_vars(t.args[-1])
            for v in t.args[:-1]:
                s.discard(v.single_atom())
        else:
            for x in t.args:
                s |= free_vars(x)
    t._fv = frozenset(s)
    return t._fv


def all_atoms(t, acc=None, seen=None):
    """all atoms, transitively"""
    if acc is None:
        acc, seen = {}, set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if isinstance(t, Poly):
        for a in t.atoms():
            if a.id not in acc:
                acc[a.id] = a
                for x in a.args:
                    all_atoms(x, acc, seen)
    else:
        for x in t.args:
            all_atoms(x, acc, seen)
    return acc


class Subst:
    """substitution of atoms (usually variables) by polynomials"""

    def __init__(self, mp):
        self.mp = mp          # atom -> Poly
        self.dom = frozenset(mp)
        self.ac = {}
        self.bc = {}

    def atom(self, a):
        r = self.ac.get(a)
        if r is None:
            r = self.mp.get(a)
            if r is None:
                if self.simple and not (atom_free_vars(a) & self.dom):
                    r = atom_poly(a)
                elif a.kind == "var":
                    r = atom_poly(a)
                else:
                    args = [self(x) for x in a.args]
                    r = rebuild_atom(a, args)
            self.ac[a] = r
        return r

    @property
    def simple(self):
        return all(a.kind == "var" for a in self.dom)

    def __call__(self, t):
        if isinstance(t, Poly):
            if self.simple and not (free_vars(t) & self.dom):
                return t
            r = ZERO
            for m, c in t.d.items():
                p = const(c)
                for a, e in m:
                    q = self.atom(a)
                    if e > 0:
                        p = p * (q if e == 1 else q ** e)
                    else:
                        p = p * (inv(q) ** (-e))
                r = r + p
            return r
        if self.simple and not (free_vars(t) & self.dom):
            return t
        r = self.bc.get(t)
        if r is None:
            k = t.kind
            if k == "forall":
                vs = t.args[:-1]
                body = t.args[-1]
                bound = {v.single_atom() for v in vs}
                if bound & self.dom:
                    r = self.bc[t] = Subst({a: p for a, p in self.mp.items() if a not in bound})(t)
                    return r
                # avoid capture: rename bound variables if they occur in the range
                rng = set()
                for p in self.mp.values():
                    if isinstance(p, Poly):
                        rng |= free_vars(p)
                ren = {}
                for v in vs:
                    a = v.single_atom()
                    if a in rng:
                        ren[a] = fresh("b", a.is_int)
                if ren:
                    body = Subst(ren)(body)
                    vs = [ren.get(v.single_atom(), v) for v in vs]
                r = forall(list(vs), self(body))
            elif k in ("true", "false"):
                r = t
            else:
                r = rebuild_bool(t, [self(x) for x in t.args])
            self.bc[t] = r
        return r


def rebuild_atom(a, args):
    k = a.kind
    if k == "app":
        return app(a.name, args, a.is_int)
    if k == "ite":
        return ite(*args)
    if k == "floor":
        return floor(args[0])
    if k == "sqrt":
        return sqrt(args[0])
    if k == "abs":
        return absv(args[0])
    if k == "inv":
        return inv(args[0])
    if k == "quot":
        return quot(*args)
    if k == "pi":
        return atom_poly(a)
    raise Unsupported("atom " + k)


def rebuild_bool(t, args):
    k = t.kind
    if k == "lt":
        return lt0(args[0])
    if k == "le":
        return le0(args[0])
    if k == "eq":
        return eq0(args[0])
    if k == "not":
        return not_(args[0])
    if k == "and":
        return and_(*args)
    if k == "or":
        return or_(*args)
    if k == "iff":
        return iff(*args)
    if k == "app":
        return bapp(t.name, args)
    raise Unsupported("bool " + k)


def subst(t, mp):
    """mp: {variable Poly or Atom: Poly}"""
    m = {}
    for k, v in mp.items():
        m[k if isinstance(k, Atom) else k.single_atom()] = v
    return Subst(m)(t)


class FunSubst:
    """replace applications of named functions: mp[name] = fn(args) -> Poly/Bool (args already substituted)"""

    def __init__(self, mp):
        self.mp = mp
        self.c = {}

    def __call__(self, t):
        r = self.c.get(t.id)
        if r is not None:
            return r
        if not (fun_names(t) & self.mp.keys()):
            r = t
        elif isinstance(t, Poly):
            r = ZERO
            for m, c in t.d.items():
                p = const(c)
                for a, e in m:
                    q = self.atom(a)
                    p = p * (q ** e if e > 0 else inv(q) ** (-e))
                r = r + p
        elif t.kind == "forall":
            r = forall(list(t.args[:-1]), self(t.args[-1]))
        elif t.kind == "app" and t.name in self.mp:
            r = self.mp[t.name]([self(x) for x in t.args])
        else:
            r = rebuild_bool(t, [self(x) for x in t.args])
        self.c[t.id] = r
        return r

    def atom(self, a):
        if a.kind == "app" and a.name in self.mp:
            return self.mp[a.name]([self(x) for x in a.args])
        if a.kind == "var":
            return atom_poly(a)
        return rebuild_atom(a, [self(x) for x in a.args])


_fn_cache = {}


def fun_names(t):
    """names of uninterpreted functions occurring in a term"""
    r = _fn_cache.get(t.id)
    if r is not None:
        return r
    s = set()
    if isinstance(t, Poly):
        for a in t.atoms():
            if a.kind == "app":
                s.add(a.name)
            for x in a.args:
                s |= fun_names(x)
    else:
        if t.kind == "app":
            s.add(t.name)
        for x in t.args:
            s |= fun_names(x)
    r = frozenset(s)
    _fn_cache[t.id] = r
    return r
