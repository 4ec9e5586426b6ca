"""Lists of concrete or symbolic length, symbolic sequences, and substitution in values."""
import numpy as _np
from . import terms as T
from .terms import Unsupported
from .core import E, SNum, SBool, poly, boolean, is_scalar, wrap, record, unwrap_int, here, UNBOUND, next_serial
from .arr import SArr, pub, dp, Fn, same_dim, known, norm_int, slice_dim, to_arr
from . import absfn


def subst_value(v, mp, memo=None):
    """substitute variables in a value (deep; containers and objects are rebuilt)"""
    if memo is None:
        memo = {}
    if v is None or isinstance(v, (str, int, float, bool, complex, type, _np.generic)):
        return v
    if isinstance(v, SNum):
        return SNum(T.subst(v.p, mp), v.isint)
    if isinstance(v, SBool):
        return SBool(T.subst(v.b, mp))
    if id(v) in memo:
        return memo[id(v)]
    sub = getattr(v, "s_subst", None)
    if sub is not None:
        r = memo[id(v)] = sub(mp)
        return r
    if isinstance(v, SArr):
        f = v.snap()
        sh = tuple(d if isinstance(d, int) else unwrap_int(T.subst(d, mp)) for d in v.sh)
        # evaluate at fresh generic indices and substitute, to avoid capturing
        gi = [T.fresh("gi", True) for _ in sh]
        cache = {}

        def fn(idx):
            if all(i.is_const for i in idx):
                return T.subst(f(idx), mp)
            if "t" not in cache:
                cache["t"] = T.subst(f(tuple(gi)), mp)
            return T.subst(cache["t"], dict(zip(gi, idx)))
        r = SArr(sh, v.kind, fn, meta=v.meta)
        memo[id(v)] = r
        return r
    if isinstance(v, SList):
        if v.sym is None:
            r = SList()
            memo[id(v)] = r
            list.extend(r, [subst_value(x, mp, memo) for x in list.__iter__(v)])
            return r
        n, at = v.sym
        r = SList.symbolic(T.subst(dp(n), mp), lambda k: subst_value(at(k), mp))
        memo[id(v)] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst_value(x, mp, memo) for x in v)
    if isinstance(v, (set, frozenset)):
        return type(v)(subst_value(x, mp, memo) for x in v)
    if isinstance(v, list):
        return [subst_value(x, mp, memo) for x in v]
    if isinstance(v, dict):
        r = type(v)()
        for k, x in v.items():
            dict.__setitem__(r, k, subst_value(x, mp, memo))
        return r
    f = getattr(v, "_subst_value", None)
    if f is not None:
        return f(mp, memo)
    if callable(v) and not hasattr(v, "__dict__"):
        return v
    if isinstance(v, type(lambda: 0)):
        return v
    if hasattr(v, "__dict__") and type(v).__module__.startswith("czone"):
        r = object.__new__(type(v))
        memo[id(v)] = r
        for k, x in v.__dict__.items():
            r.__dict__[k] = subst_value(x, mp, memo)
        return r
    return v


def depends(v, a, seen=None):
    """does a value depend on variable atom a"""
    if seen is None:
        seen = set()
    if isinstance(v, SNum):
        return a in T.free_vars(v.p)
    if isinstance(v, SBool):
        return a in T.free_vars(v.b)
    if v is None or isinstance(v, (str, int, float, bool, type, _np.generic)):
        return False
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, SArr):
        gi = tuple(T.const(0) if isinstance(d, int) and d == 1 else T.fresh("gi", True) for d in v.sh)
        return a in T.free_vars(v.get(gi)) or any(a in T.free_vars(d) for d in v.sh if not isinstance(d, int))
    if isinstance(v, SList) and v.sym is not None:
        kv = T.fresh("k", True)
        return a in T.free_vars(dp(v.sym[0])) or depends(v.sym[1](kv), a, seen)
    if isinstance(v, dict):
        return any(depends(x, a, seen) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(depends(x, a, seen) for x in v)
    f = getattr(v, "_depends", None)
    if f is not None:
        return f(a, seen)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("czone"):
        return any(depends(x, a, seen) for x in v.__dict__.values())
    return False


def _content_get(o, n):
    return (list(list.__iter__(o)), o.sym)


def _content_set(o, n, v):
    list.__setitem__(o, slice(None), v[0])
    o.sym = v[1]


class SList(list):
    """A Python list whose content may be symbolic: sym = (length, at) with at(k) -> value."""

    def __init__(self, it=()):
        self.sym = None
        self._serial = next_serial()
        if isinstance(it, SList) and it.sym is not None:
            list.__init__(self)
            self.sym = it.sym
        elif hasattr(it, "seq_len") and not isinstance(it.seq_len(), int):
            list.__init__(self)
            self.sym = (it.seq_len(), memo_at(it.seq_at))
        else:
            list.__init__(self, it)

    @staticmethod
    def symbolic(n, at):
        n = unwrap_int(n)
        r = SList()
        if isinstance(n, int):
            list.extend(r, [at(T.const(i)) for i in range(n)])
        else:
            r.sym = (n, memo_at(at))
        return r

    def _rec(self):
        self.members = None
        record(self, "content", _content_get(self, None), _content_get, _content_set)

    # protocol
    def seq_len(self):
        return list.__len__(self) if self.sym is None else self.sym[0]

    def seq_at(self, k):
        if self.sym is None:
            if k.is_const:
                return list.__getitem__(self, int(k.const))
            return choose(k, list(list.__iter__(self)))
        return self.sym[1](k)

    def s_len(self):
        return pub(self.seq_len())

    def __len__(self):
        if self.sym is None:
            return list.__len__(self)
        raise Unsupported("native len() of a symbolic list at %s" % here())

    def __bool__(self):
        if self.sym is None:
            return list.__len__(self) > 0
        return E.branch(T.lt0(-self.sym[0]))

    def __iter__(self):
        if self.sym is None:
            return list.__iter__(self)
        raise Unsupported("native iteration over a symbolic list at %s" % here())

    def __reversed__(self):
        if self.sym is None:
            return list.__reversed__(self)
        return SymSeq(self.sym[0], lambda k: self.sym[1](dp(self.sym[0]) - T.ONE - k))

    def __getitem__(self, i):
        n = self.seq_len()
        if isinstance(i, slice):
            if self.sym is None and all(x is None or not isinstance(x, SNum) or x.p.is_const for x in (i.start, i.stop, i.step)):
                g = lambda x: None if x is None else int(x)
                return SList(list.__getitem__(self, slice(g(i.start), g(i.stop), g(i.step))))
            ln, st, step = slice_dim(i, n)
            src = self
            at = self.sym[1] if self.sym else self.seq_at
            return SList.symbolic(ln, lambda k: at(st + k.scale(step)))
        if isinstance(i, SArr):
            i = i.item()
        p = norm_int(i, n)
        return decided(self.seq_at(p))

    def __setitem__(self, i, v):
        n = self.seq_len()
        if isinstance(i, slice):
            if self.sym is None and not any(isinstance(x, SNum) for x in (i.start, i.stop, i.step)):
                self._rec()
                list.__setitem__(self, i, list(v))
                return
            if i.start is None and i.stop is None and i.step is None:
                self._rec()
                w = SList(v)
                list.__setitem__(self, slice(None), list(list.__iter__(w)))
                self.sym = w.sym
                return
            raise Unsupported("slice assignment to a symbolic list")
        p = norm_int(i, n)
        self._rec()
        if self.sym is None and p.is_const:
            list.__setitem__(self, int(p.const), v)
            return
        old = self.sym[1] if self.sym else None
        if old is None:
            raise Unsupported("symbolic element assignment to a concrete list")

        def at(k):
            c = T.eq(k, p)
            if c is T.TRUE or known(c):
                return v
            if c is T.FALSE or known(T.not_(c)):
                return old(k)
            return merge_values(c, v, old(k))
        f = memo_at(at)
        f.set = (p, v, old)
        self.sym = (self.sym[0], f)

    def __delitem__(self, i):
        if self.sym is not None or isinstance(i, SNum):
            raise Unsupported("deletion from a symbolic list")
        self._rec()
        list.__delitem__(self, i)

    def append(self, x):
        self._rec()
        if self.sym is None:
            list.append(self, x)
        else:
            n, at = self.sym
            nn = dp(n)

            def at2(k):
                c = T.eq(k, nn)
                if c is T.TRUE or known(c):
                    return x
                if c is T.FALSE or known(T.lt(k, nn)):
                    return at(k)
                return merge_values(c, x, at(k))
            self.sym = (nn + T.ONE, memo_at(at2))

    def extend(self, it):
        f = getattr(it, "extend_into", None)
        if f is not None and f(self):
            return
        if isinstance(it, SList) or hasattr(it, "seq_len"):
            w = SList(it)
            if w.sym is not None:
                self._rec()
                if self.sym is None and list.__len__(self) == 0:
                    self.sym = w.sym
                    return
                n1, at1 = dp(self.seq_len()), (self.sym[1] if self.sym else SList(self).seq_at)
                n2, at2 = w.sym
                self.sym = cat_seq([(n1, at1), (dp(n2), at2)])
                list.__setitem__(self, slice(None), [])
                return
            it = list(list.__iter__(w))
        if self.sym is None:
            self._rec()
            list.extend(self, it)
        else:
            for x in it:
                self.append(x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        r = SList(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(o)
        r.extend(self)
        return r

    def __mul__(self, n):
        n = unwrap_int(n)
        if self.sym is None and isinstance(n, int):
            return SList(list.__mul__(self, n))
        if self.sym is None and list.__len__(self) == 1:
            x = list.__getitem__(self, 0)
            return SList.symbolic(n, lambda k: x)
        raise Unsupported("list repetition")

    __rmul__ = __mul__

    def insert(self, i, x):
        if self.sym is not None:
            raise Unsupported("insert into a symbolic list")
        self._rec()
        list.insert(self, i, x)

    def pop(self, i=-1):
        if self.sym is not None:
            n, at = self.sym
            if unwrap_int(i) == -1:
                if not E.branch(T.lt0(-n)):
                    raise IndexError("pop from empty list")
                self._rec()
                self.sym = (n - T.ONE, at)
                return at(n - T.ONE)
            raise Unsupported("pop from a symbolic list")
        self._rec()
        return list.pop(self, i)

    def remove(self, x):
        if self.sym is not None:
            raise Unsupported("remove from a symbolic list")
        self._rec()
        list.remove(self, x)

    def clear(self):
        self._rec()
        self.sym = None
        list.clear(self)

    def reverse(self):
        self._rec()
        if self.sym is None:
            list.reverse(self)
        else:
            n, at = self.sym
            self.sym = (n, memo_at(lambda k: at(dp(n) - T.ONE - k)))

    def copy(self):
        return SList(self)

    __copy__ = copy

    def index(self, x, *a):
        if self.sym is not None:
            raise Unsupported("index in a symbolic list")
        return list.index(self, x, *a)

    def count(self, x):
        if self.sym is not None:
            raise Unsupported("count in a symbolic list")
        return list.count(self, x)

    def sort(self, key=None, reverse=False):
        r = sorted_list(self, key, reverse)
        self._rec()
        list.__setitem__(self, slice(None), list(list.__iter__(r)))
        self.sym = r.sym

    def __contains__(self, x):
        if self.sym is None:
            return list.__contains__(self, x)
        n, at = self.sym
        k = T.fresh("k", True)
        el = at(k)
        if is_scalar(el):
            return E.branch(T.exists([k], T.and_(absfn.rng(k, dp(n)), boolean(el == x))))
        raise Unsupported("membership in a symbolic list of objects")

    def __deepcopy__(self, memo):
        import copy
        if self.sym is None:
            r = SList()
            memo[id(self)] = r
            list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
            return r
        n, at = self.sym
        r = SList.symbolic(n, lambda k: copy.deepcopy(at(k)))
        memo[id(self)] = r
        return r

    def __eq__(self, o):
        if self.sym is None and isinstance(o, list):
            if isinstance(o, SList) and o.sym is not None:
                raise Unsupported("comparison of symbolic lists")
            if list.__len__(self) != len(o):
                return False
            for a, b in zip(list.__iter__(self), o):
                if not (a == b):
                    return False
            return True
        if isinstance(o, list):
            raise Unsupported("comparison of symbolic lists")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        if self.sym is None:
            return list.__repr__(self)
        return "SList(len=%r)" % (self.sym[0],)


class SDict(dict):
    """dict with heap trail"""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self._serial = next_serial()

    def _rec(self):
        record(self, "content", dict(self), lambda o, n: dict(o), lambda o, n, v: (dict.clear(o), dict.update(o, v)))

    def __setitem__(self, k, v):
        self._rec()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._rec()
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        self._rec()
        dict.update(self, *a, **k)

    def pop(self, *a):
        self._rec()
        return dict.pop(self, *a)

    def setdefault(self, k, d=None):
        self._rec()
        return dict.setdefault(self, k, d)

    def clear(self):
        self._rec()
        dict.clear(self)

    def __deepcopy__(self, memo):
        import copy
        r = SDict()
        memo[id(self)] = r
        for k, v in self.items():
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        return r

    def copy(self):
        return SDict(self)


def memo_at(at):
    cache = {}

    def f(k):
        r = cache.get(k.id, UNBOUND)
        if r is UNBOUND:
            r = at(k)
            cache[k.id] = r
        return r
    return f


def cat_seq(parts):
    """concatenate sequences [(n, at)...]"""
    total = T.ZERO
    for n, _ in parts:
        total = total + dp(n)

    def at(k):
        off = T.ZERO
        cands = []
        for n, a in parts:
            c = T.lt(k - off, dp(n))
            if c is T.TRUE or known(c):
                return _pick(cands, a(k - off))
            if not (c is T.FALSE or known(T.not_(c))):
                cands.append((c, a(k - off)))
            off = off + dp(n)
        c, last = cands[-1]
        return _pick(cands[:-1], last)
    return (total, memo_at(at))


def _pick(cands, last):
    r = last
    for c, v in reversed(cands):
        r = merge_values(c, v, r)
    return r


def choose(k, items):
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = merge_values(T.eq(k, T.const(i)), items[i], r)
    return r


class Case:
    """One of two lists of different lengths, not yet decided; an element of a sequence is decided when it is taken out."""

    def __init__(self, c, a, b):
        object.__setattr__(self, "abc", (c, a, b))

    def s_subst(self, mp):
        c, a, b = self.abc
        return merge_values(T.subst(c, mp), subst_value(a, mp), subst_value(b, mp))

    def _depends(self, v, seen):
        c, a, b = self.abc
        return v in T.free_vars(c) or depends(a, v, seen) or depends(b, v, seen)

    def __getattr__(self, name):
        raise AttributeError(name) if name.startswith("_") or name in ("seq_len", "s_len", "sym") else Unsupported("a list that depends on a case distinction at %s" % here())

    def __iter__(self):
        raise Unsupported("a list that depends on a case distinction at %s" % here())

    __len__ = __getitem__ = __bool__ = __add__ = __eq__ = __contains__ = lambda self, *a: Case.__iter__(self)
    __hash__ = None


def decided(v):
    while type(v) is Case:
        c, a, b = v.abc
        v = a if E.branch(c) else b
    return v


def merge_values(c, a, b, memo=None):
    """ite over values"""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        ab = isinstance(a, (SBool, bool, _np.bool_))
        bb = isinstance(b, (SBool, bool, _np.bool_))
        if ab and bb:
            return SBool(T.bite(c, boolean(a), boolean(b)))
        from .arr import kind_of_scalar
        return SNum(T.ite(c, poly(a), poly(b)), kind_of_scalar(a) == "i" and kind_of_scalar(b) == "i")
    if isinstance(a, SArr) and isinstance(b, SArr) and len(a.sh) == len(b.sh):
        sh = []
        for x, y in zip(a.sh, b.sh):
            px, py = dp(x), dp(y)
            sh.append(x if px is py else unwrap_int(T.ite(c, px, py)))
        from .arr import kmax
        k = kmax(a.kind, b.kind)
        fa, fb = a.snap(), b.snap()
        from .arr import cast

        def fn(idx):
            x, y = cast(fa(idx), k), cast(fb(idx), k)
            return T.bite(c, x, y) if k == "b" else T.ite(c, x, y)
        return SArr(sh, k, fn)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SList) and isinstance(b, SList):
        na, nb = dp(a.seq_len()), dp(b.seq_len())
        if na is nb:
            if a.sym is None and b.sym is None:
                return SList([merge_values(c, x, y) for x, y in zip(list.__iter__(a), list.__iter__(b))])
            return SList.symbolic(na, lambda k: merge_values(c, a.seq_at(k), b.seq_at(k)))
    if isinstance(a, (SList, Case)) and isinstance(b, (SList, Case)):
        return Case(c, a, b)
    f = getattr(a, "_merge_value", None)
    if f is not None:
        r = f(c, b)
        if r is not None:
            return r
    if type(a) is type(b) and hasattr(a, "__dict__") and type(a).__module__.startswith("czone"):
        if memo is None:
            memo = {}
        key = (id(a), id(b))
        if key in memo:
            return memo[key]
        if set(a.__dict__) == set(b.__dict__):
            r = object.__new__(type(a))
            memo[key] = r
            for k in a.__dict__:
                r.__dict__[k] = merge_values(c, a.__dict__[k], b.__dict__[k], memo)
            return r
    raise Unsupported("cannot merge values of types %s and %s at %s" % (type(a).__name__, type(b).__name__, here()))


def sorted_list(x, key=None, reverse=False):
    if isinstance(x, SArr) and isinstance(x.sh[0], int):
        x = SList(list(x))
    if hasattr(x, "seq_len") and not isinstance(x.seq_len(), int):
        n = x.seq_len()
        at = x.sym[1] if isinstance(x, SList) else x.seq_at
        kv = T.var("_sk", True)
        if key:
            from . import rt
            ks = rt.comp(x, lambda el: [key(el)])
            if ks.sym is None:
                return ks
            kval = ks.sym[1](kv)
        else:
            kval = at(kv)
        if not is_scalar(kval):
            raise Unsupported("sorting a symbolic list by a non-scalar key")
        kp = poly(kval)
        if reverse:
            kp = -kp
        P, Q = absfn.sort_perm(kp, dp(n), kv)
        r = SList.symbolic(n, lambda k: at(P(k)))
        return r
    items = list(x)
    keys = [key(i) if key else i for i in items]
    if all(not isinstance(k, (SNum, SBool)) or (isinstance(k, SNum) and k.p.is_const) for k in keys):
        def nk(k):
            return k.p.const if isinstance(k, SNum) else k
        order = sorted(range(len(items)), key=lambda i: nk(keys[i]), reverse=reverse)
        return SList([items[i] for i in order])
    # insertion sort with symbolic comparisons (forks); stable
    out = []
    for it, k in zip(items, keys):
        pos = len(out)
        while pos > 0 and bool((k < out[pos - 1][1]) if not reverse else (k > out[pos - 1][1])):
            pos -= 1
        out.insert(pos, (it, k))
    return SList([i for i, _ in out])


class SymSeq:
    """A lazily indexed sequence (range, zip, enumerate, ...)."""

    def __init__(self, n, at):
        self.n = unwrap_int(n)
        self._at = at

    def seq_len(self):
        return self.n

    def seq_at(self, k):
        return self._at(k)

    def s_len(self):
        return pub(self.n)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self._at(T.const(i)) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic sequence at %s" % here())

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len() of a symbolic sequence")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SList(self)[i]
        return decided(self._at(norm_int(i, self.n)))

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return E.branch(T.lt0(-self.n))

    def __contains__(self, x):
        k = T.fresh("k", True)
        return E.branch(T.exists([k], T.and_(absfn.rng(k, dp(self.n)), boolean(self._at(k) == x))))


def is_seq(x):
    return hasattr(x, "seq_len")


def seq_of(x):
    """(length, at) of anything iterable with random access; None if only natively iterable"""
    if isinstance(x, SArr):
        return x.sh[0], x.seq_at
    if hasattr(x, "seq_len"):
        if isinstance(x, SList) and x.sym is not None:
            return x.sym
        return x.seq_len(), x.seq_at
    if isinstance(x, (list, tuple, range)):
        items = list(x)
        return len(items), (lambda k: items[int(k.const)] if k.is_const else choose(k, items))
    return None
