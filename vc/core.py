"""Engine state: path exploration over the real code, heap trail, obligations; symbolic scalars."""
import sys
import time
from fractions import Fraction
from . import terms as T
from .terms import Unsupported


class PathEnd(BaseException):
    """The current path is infeasible or was cut."""


class Obligation:
    __slots__ = ("label", "pc", "goal", "where", "facts", "kind", "path", "status", "backend", "time", "model", "detail", "inputs")

    def __init__(self, label, pc, goal, where, kind, path, inputs):
        self.label, self.pc, self.goal, self.where, self.kind, self.path = label, pc, goal, where, kind, path
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ""
        self.inputs = inputs


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []
        self.trail = []
        self.explorers = []
        self.obligations = []
        self.nz = {}
        self.inputs = {}
        self.path_no = 0
        self.hints = {}
        self.solver_time = 0.0
        self.n_branch = 0
        self.entropy = 0
        self.deadline = None
        self.oblig_seen = set()
        self.functions = set()
        self.covers = []
        self.cond_stack = []

    # ------------------------------------------------------------------ assumptions
    def assume(self, b):
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise PathEnd()
        if b.kind == "and":
            for x in b.args:
                self.assume(x)
            return
        if b not in self.pc:
            self.pc.append(b)

    # ------------------------------------------------------------------ branching
    def branch(self, cond):
        if cond is T.TRUE:
            return True
        if cond is T.FALSE:
            return False
        if not self.explorers:
            raise Unsupported("branch on a symbolic condition outside an exploration: %r" % (cond,))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the symbolic execution reached")
        ncond = T.not_(cond)
        if cond in self.pc:
            return True
        if ncond in self.pc:
            return False
        ex = self.explorers[-1]
        if ex.pos < len(ex.decisions):
            d, both = ex.decisions[ex.pos]
            ex.pos += 1
        else:
            from . import prove
            self.n_branch += 1
            t_possible = prove.feasible(self.pc, cond)
            f_possible = prove.feasible(self.pc, ncond)
            if not t_possible and not f_possible:
                raise PathEnd()
            if t_possible and f_possible:
                d, both = True, True
            else:
                d, both = t_possible, False
            ex.decisions.append((d, both))
            ex.pos += 1
            if len(ex.decisions) > 400:
                raise Unsupported("too many branches on one path (unbounded loop on a symbolic condition?)")
        c = cond if d else ncond
        if both:
            ex.delta.append(c)
        self.assume(c)
        return d

    # ------------------------------------------------------------------ obligations
    def oblige(self, label, goal, kind="post", where=None):
        if goal is T.TRUE and kind == "def":
            return
        key = (label, goal, tuple(self.pc))
        if key in self.oblig_seen:
            return
        self.oblig_seen.add(key)
        if where is None:
            where = here()
        self.obligations.append(Obligation(label, list(self.pc), goal, where, kind, self.path_no, dict(self.inputs)))

    def need_nonzero(self, p):
        """definedness of a division"""
        if p.is_const:
            if p.const == 0:
                raise ZeroDivisionError("division by zero at %s" % here())
            return
        if p.id in self.nz:
            return
        g = T.not_(T.eq0(p))
        if g is T.TRUE or g in self.pc or T.lt0(p) in self.pc or T.lt0(-p) in self.pc:
            self.nz[p.id] = True
            return
        self.nz[p.id] = True
        self.oblige("definedness: divisor is not zero at %s" % here(), g, kind="def")

    def need_nonneg(self, p):
        g = T.le0(-p)
        if g is T.TRUE or g in self.pc:
            return
        k = ("nn", p.id)
        if k in self.nz:
            return
        self.nz[k] = True
        self.oblige("definedness: square root of a non-negative number at %s" % here(), g, kind="def")


E = Engine()


class Serial:
    n = 0
    objs = {}      # id -> (object, serial)


def next_serial():
    Serial.n += 1
    return Serial.n


def register_birth(o):
    Serial.objs[id(o)] = (o, next_serial())


def serial_of(o):
    s = getattr(o, "_serial", None)
    if s is not None and not isinstance(s, property):
        return s
    r = Serial.objs.get(id(o))
    return r[1] if r is not None and r[0] is o else 0


def here():
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "/czone/" in fn:
            return "%s:%d" % (fn[fn.rindex("/czone/") + 1:], f.f_lineno)
        f = f.f_back
    return "spec"


class Explorer:
    """Depth-first exploration of all paths of a function by re-execution."""

    def __init__(self):
        self.decisions = []
        self.pos = 0
        self.delta = []

    def next(self):
        while self.decisions:
            d, both = self.decisions.pop()
            if both and d:
                self.decisions.append((False, True))
                return True
        return False


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


def explore_top(fn, max_paths=400):
    """run fn() on every feasible path; each path starts from a clean pc"""
    ex = Explorer()
    n = 0
    while True:
        E.pc = []
        E.trail = []
        E.nz = {}
        E.inputs = {}
        E.hints = {}
        E.explorers = [ex]
        E.path_no = n
        ex.pos = 0
        ex.delta = []
        try:
            fn()
        except PathEnd:
            pass
        finally:
            rollback(0)
            Serial.objs.clear()
        n += 1
        if n > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        if not ex.next():
            break
    E.explorers = []
    return n


def explore_sub(fn, max_paths=200):
    """Explore fn() from the current state.  Returns a list of (cond, 'ok'|'raise', value, writes, extra) per path; writes
    to objects that existed before are collected ({key: (loc, value)}) and undone; objects made on the path keep their
    content."""
    ex = Explorer()
    out = []
    pc0 = list(E.pc)
    n = 0
    serial0 = Serial.n
    while True:
        mark = len(E.trail)
        E.pc = list(pc0)
        ex.pos = 0
        ex.delta = []
        E.explorers.append(ex)
        nz0 = dict(E.nz)
        try:
            try:
                v = fn()
                res = ("ok", v)
            except PathEnd:
                res = None
            except Exception as e:
                res = ("raise", e)
        finally:
            E.explorers.pop()
            writes = {}
            seg = E.trail[mark:]
            del E.trail[mark:]
            old = [loc for loc in seg if serial_of(loc.obj) <= serial0]
            for loc in old:
                writes[loc.key()] = loc
            ws = {k: (loc, loc.get()) for k, loc in writes.items()}
            for loc in reversed(old):
                loc.undo()
        if res is not None:
            extra = [b for b in E.pc[len(pc0):]]
            out.append((T.and_(*ex.delta), res[0], res[1], ws, extra))
        E.nz = nz0
        n += 1
        if n > max_paths:
            raise Unsupported("more than %d paths in a loop body" % max_paths)
        if not ex.next():
            break
    E.pc = pc0
    return out


# --------------------------------------------------------------------------------------------- heap trail
class Loc:
    """A heap location with its value before a write."""
    __slots__ = ("obj", "name", "old", "_get", "_set")

    def __init__(self, obj, name, old, get, set_):
        self.obj, self.name, self.old, self._get, self._set = obj, name, old, get, set_

    def key(self):
        return (id(self.obj), self.name)

    def get(self):
        return self._get(self.obj, self.name)

    def put(self, v):
        self._set(self.obj, self.name, v)

    def undo(self):
        self._set(self.obj, self.name, self.old)


def record(obj, name, old, get, set_):
    E.trail.append(Loc(obj, name, old, get, set_))


def rollback(mark):
    while len(E.trail) > mark:
        E.trail.pop().undo()


def _attr_get(o, n):
    return o.__dict__.get(n, UNBOUND)


def _attr_set(o, n, v):
    if v is UNBOUND:
        o.__dict__.pop(n, None)
    else:
        o.__dict__[n] = v


def traced_setattr(self, name, value):
    cls = type(self)
    d = None
    for k in cls.__mro__:
        if name in k.__dict__:
            d = k.__dict__[name]
            break
    if d is not None and hasattr(type(d), "__set__"):
        object.__setattr__(self, name, value)
        return
    if not self.__dict__ and id(self) not in Serial.objs:
        register_birth(self)
    E.trail.append(Loc(self, name, self.__dict__.get(name, UNBOUND), _attr_get, _attr_set))
    object.__setattr__(self, name, value)


# --------------------------------------------------------------------------------------------- scalars
import numbers
import numpy as _np


def is_concrete_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)) and not isinstance(x, SNum)


def poly(x):
    """coerce to Poly"""
    if isinstance(x, T.Poly):
        return x
    if isinstance(x, SNum):
        return x.p
    if isinstance(x, SBool):
        return T.ite(x.b, T.ONE, T.ZERO)
    if isinstance(x, T.Bool):
        return T.ite(x, T.ONE, T.ZERO)
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return T.const(int(x))
    if isinstance(x, (int, float, Fraction)):
        return T.const(x)
    if isinstance(x, _np.integer):
        return T.const(int(x))
    if isinstance(x, _np.floating):
        return T.const(float(x))
    f = getattr(x, "_scalar_poly", None)
    if f is not None:
        return f()
    if isinstance(x, _np.ndarray) and x.size == 1:
        return poly(x.reshape(-1)[0])
    raise TypeError("not a number: %r" % (x,))


def boolean(x):
    """coerce to Bool"""
    if isinstance(x, T.Bool):
        return x
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, (bool, _np.bool_)):
        return T.bconst(bool(x))
    if isinstance(x, SNum):
        return T.not_(T.eq0(x.p))
    if isinstance(x, T.Poly):
        return T.not_(T.eq0(x))
    if isinstance(x, (int, float, Fraction, _np.integer, _np.floating)):
        return T.bconst(bool(x))
    f = getattr(x, "_scalar_bool", None)
    if f is not None:
        return f()
    raise TypeError("not a boolean: %r" % (x,))


def is_scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction, _np.integer, _np.floating, _np.bool_, bool))


def truncate(p):
    """conversion to an integer: towards zero"""
    if p.is_int:
        return p
    f = T.floor(p)
    c = T.le0(-p)
    if c is T.TRUE:
        return f
    return T.ite(c, f, -T.floor(-p))


def p_div(a, b):
    E.need_nonzero(b)
    return a * T.inv(b)


def p_floordiv(a, b):
    E.need_nonzero(b)
    if a.is_int and b.is_int and not b.is_const:
        if T.lt0(b) not in E.pc:
            from .arr import known
            if known(T.and_(T.le0(-a), T.lt(a, b))):
                return T.ZERO
            q, r = T.divide(a, b)
            if q is not T.ZERO and known(T.and_(T.le0(-r), T.lt(r, b))):
                return q
            return T.quot(a, b)
    return T.floor(a * T.inv(b)) if not b.is_const else T.floor(a.scale(1 / b.const))


def p_mod(a, b):
    return a - b * p_floordiv(a, b)


def p_pow(a, b):
    if b.is_const:
        c = b.const
        if c.denominator == 1:
            n = int(c)
            if n >= 0:
                return a ** n
            E.need_nonzero(a)
            return T.inv(a) ** (-n)
        if c.denominator == 2:
            E.need_nonneg(a)
            n = c.numerator
            s = T.sqrt(a)
            if n > 0:
                return s ** n
            E.need_nonzero(a)
            return T.inv(s) ** (-n)
    if a.is_const and b.is_const:
        return T.const(float(a.const) ** float(b.const))
    return T.app("pow", (a, b))


def p_sign(p):
    return T.ite(T.lt0(-p), T.ONE, T.ite(T.lt0(p), T.const(-1), T.ZERO))


def p_round(p):
    if p.is_int:
        return p
    if p.is_const:
        return T.const(round(p.const))
    return T.app("round", (p,), True)


def p_max(a, b):
    return T.ite(T.lt(a, b), b, a)


def p_min(a, b):
    return T.ite(T.lt(b, a), b, a)


def num(p, isint=None):
    """wrap a Poly"""
    if isint is None:
        isint = p.is_int
    return SNum(p, isint)


class SNum:
    __slots__ = ("p", "isint")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # numpy scalar interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(int if self.isint else float)

    def item(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def ravel(self):
        return self._arr().ravel()

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def _arr(self):
        from .arr import SArr
        return SArr.scalar(self)

    def __getitem__(self, i):
        return self._arr()[i]

    def astype(self, t, **k):
        if t in (int, _np.int64, _np.int32, "int", "int64"):
            return SNum(truncate(self.p), True)
        if t in (float, _np.float64, "float"):
            return SNum(self.p, False)
        if t in (bool, _np.bool_):
            return SBool(boolean(self))
        raise Unsupported("astype %r" % (t,))

    def is_integer(self):
        return SBool(T.eq(T.floor(self.p), self.p))

    def conjugate(self):
        return self

    real = property(lambda self: self)

    def _bin(self, o, f, both_int=True):
        if isinstance(o, SNum):
            return SNum(f(self.p, o.p), both_int and self.isint and o.isint)
        if isinstance(o, (bool, int, _np.integer, _np.bool_)):
            return SNum(f(self.p, poly(o)), both_int and self.isint)
        if isinstance(o, (float, Fraction, _np.floating)):
            if isinstance(o, (float, _np.floating)) and (o != o or o in (float("inf"), float("-inf"))):
                raise Unsupported("arithmetic with a non-finite number")
            return SNum(f(self.p, poly(o)), False)
        if isinstance(o, SBool):
            return SNum(f(self.p, poly(o)), both_int and self.isint)
        return None

    def _op(f, both_int=True, swap=False):
        def op(self, o):
            g = (lambda a, b: f(b, a)) if swap else f
            r = self._bin(o, g, both_int)
            if r is None:
                if isinstance(o, (_np.ndarray, list, tuple)):
                    a = self._arr()
                    from .arr import to_arr
                    o = to_arr(o)
                    return o._elem2(a, lambda x, y: g(y, x), both_int)
                return NotImplemented
            return r
        return op

    __add__ = _op(lambda a, b: a + b)
    __radd__ = _op(lambda a, b: a + b)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: a - b, swap=True)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = _op(lambda a, b: a * b)
    __truediv__ = _op(p_div, both_int=False)
    __rtruediv__ = _op(p_div, both_int=False, swap=True)
    __floordiv__ = _op(p_floordiv)
    __rfloordiv__ = _op(p_floordiv, swap=True)
    __mod__ = _op(p_mod)
    __rmod__ = _op(p_mod, swap=True)
    __pow__ = _op(p_pow)
    __rpow__ = _op(p_pow, swap=True)
    del _op

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SNum(-self.p, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(T.absv(self.p), self.isint)

    def __round__(self, n=None):
        if n is None:
            return SNum(p_round(self.p), True)
        raise Unsupported("round with digits")

    def __floor__(self):
        return SNum(T.floor(self.p), True)

    def __ceil__(self):
        return SNum(-T.floor(-self.p), True)

    def __trunc__(self):
        return SNum(truncate(self.p), True)

    def _cmp(f):
        def op(self, o):
            if isinstance(o, (float, _np.floating)) and (o != o or o in (float("inf"), float("-inf"))):
                if o != o:
                    return False
                big = T.const(10 ** 30)
                return SBool(f(T.ZERO, big if o > 0 else -big))
            if is_scalar(o):
                return SBool(f(self.p, poly(o)))
            if isinstance(o, (_np.ndarray, list, tuple)):
                from .arr import to_arr
                a = self._arr()
                return to_arr(o)._cmp2(a, lambda x, y: f(y, x))
            return NotImplemented
        return op

    __lt__ = _cmp(lambda a, b: T.lt(a, b))
    __le__ = _cmp(lambda a, b: T.le(a, b))
    __gt__ = _cmp(lambda a, b: T.lt(b, a))
    __ge__ = _cmp(lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if is_scalar(o):
            if isinstance(o, (float, _np.floating)) and (o != o or o in (float("inf"), float("-inf"))):
                return False
            return SBool(T.eq(self.p, poly(o)))
        if isinstance(o, (_np.ndarray, list, tuple)):
            from .arr import to_arr
            return to_arr(o)._cmp2(self._arr(), lambda x, y: T.eq(y, x))
        if o is None or isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SBool):
            return SBool(T.not_(r.b))
        return ~r if not isinstance(r, bool) else not r

    del _cmp

    def __hash__(self):
        return hash(("SNum", self.p.id)) if not self.p.is_const else hash(self.p.const)

    def __bool__(self):
        return E.branch(T.not_(T.eq0(self.p)))

    def __index__(self):
        if self.p.is_const and self.p.const.denominator == 1:
            return int(self.p.const)
        raise Unsupported("symbolic number used as a native index at %s" % here())

    def __int__(self):
        if self.p.is_const:
            return int(self.p.const)
        raise Unsupported("symbolic number converted to a native int at %s" % here())

    def __float__(self):
        if self.p.is_const:
            return float(self.p.const)
        v = const_value(self.p)
        if v is not None:
            return v
        raise Unsupported("symbolic number converted to a native float at %s" % here())

    def __repr__(self):
        return "SNum(%r)" % (self.p,)

    def __format__(self, spec):
        return repr(self.p)[:60]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def const_value(p):
    """numeric value of a polynomial over constant atoms (square roots of rationals)"""
    tot = 0.0
    for m, c in p.d.items():
        v = float(c)
        for a, e in m:
            if a.kind == "sqrt" and a.args[0].is_const:
                v *= float(a.args[0].const) ** (0.5 * e)
            elif a.kind == "pi":
                v *= 3.141592653589793 ** e
            else:
                return None
        tot += v
    return tot


class SBool:
    __slots__ = ("b",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    shape = ()
    ndim = 0
    size = 1
    dtype = _np.dtype(bool)

    def __bool__(self):
        return E.branch(self.b)

    def item(self):
        return self

    def astype(self, t, **k):
        if t in (bool, _np.bool_):
            return self
        return SNum(poly(self), t in (int, _np.int64))

    def _arr(self):
        from .arr import SArr
        return SArr.scalar(self)

    def all(self, *a, **k):
        return self

    any = all

    def _op(f):
        def op(self, o):
            if isinstance(o, (SBool, bool, _np.bool_)):
                return SBool(f(self.b, boolean(o)))
            if isinstance(o, _np.ndarray):
                from .arr import to_arr
                return to_arr(o)._cmp2(self._arr(), lambda x, y: f(boolean(x), boolean(y)))
            return NotImplemented
        return op

    __and__ = _op(lambda a, b: T.and_(a, b))
    __rand__ = __and__
    __or__ = _op(lambda a, b: T.or_(a, b))
    __ror__ = __or__
    __xor__ = _op(lambda a, b: T.not_(T.iff(a, b)))
    __rxor__ = __xor__
    del _op

    def __invert__(self):
        return SBool(T.not_(self.b))

    def _num(self):
        return SNum(poly(self), True)

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return SBool(T.and_(self.b, boolean(o)))
        return self._num() * o

    def __rmul__(self, o):
        return o * self._num()

    def __lt__(self, o):
        return self._num() < o

    def __gt__(self, o):
        return self._num() > o

    def __le__(self, o):
        return self._num() <= o

    def __ge__(self, o):
        return self._num() >= o

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return SBool(T.iff(self.b, boolean(o)))
        if is_scalar(o):
            return self._num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(T.not_(r.b))

    def __hash__(self):
        return hash(("SBool", self.b.id))

    def __index__(self):
        if self.b is T.TRUE:
            return 1
        if self.b is T.FALSE:
            return 0
        raise Unsupported("symbolic boolean used as a native index")

    def __repr__(self):
        return "SBool(%r)" % (self.b,)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def unwrap_int(x):
    """native int if constant, else Poly"""
    if isinstance(x, (int, _np.integer)) and not isinstance(x, bool):
        return int(x)
    p = poly(x)
    if p.is_const and p.const.denominator == 1:
        return int(p.const)
    return p


def wrap(t, isint=None):
    """wrap a term"""
    if isinstance(t, T.Bool):
        return SBool(t)
    return num(t, isint)
