"""Arrays with concrete or symbolic dimensions whose entries are terms."""
import operator
from fractions import Fraction
import numpy as _np
from . import terms as T
from .terms import Unsupported
from .core import E, SNum, SBool, poly, boolean, is_scalar, wrap, num, record, truncate, p_div, p_floordiv, p_mod, \
    p_pow, unwrap_int, here, next_serial
from . import absfn

NAN = T.var("NaN")


def is_nan_term(p):
    a = p.single_atom()
    if a is NAN.single_atom():
        return T.TRUE
    if a is not None and a.kind == "ite":
        return T.bite(a.args[0], is_nan_term(a.args[1]), is_nan_term(a.args[2]))
    fv = T.free_vars(p)
    if NAN.single_atom() not in fv:
        return T.FALSE
    # arithmetic over ite atoms that may be NaN: NaN if any operand is
    out = []
    for a in p.atoms():
        if a.kind in ("ite", "floor", "abs", "sqrt", "inv", "round"):
            out.append(is_nan_term(T.atom_poly(a)) if a.kind == "ite" else is_nan_term(a.args[0]))
        elif a is NAN.single_atom():
            out.append(T.TRUE)
    return T.or_(*out)


TRUSTED_INDEX = []


def known(cond):
    """cond is implied by the path condition (quick check)"""
    if cond is T.TRUE:
        return True
    if cond is T.FALSE:
        return False
    if cond in E.pc:
        return True
    from . import prove
    return prove.entailed_quick(E.pc, cond)


class Fn:
    """memoising index -> term function"""
    __slots__ = ("raw", "memo")

    def __init__(self, raw):
        self.raw = raw
        self.memo = {}

    def __call__(self, idx):
        k = tuple([i.id for i in idx])
        r = self.memo.get(k)
        if r is None:
            r = self.raw(idx)
            self.memo[k] = r
        return r


class Buf:
    __slots__ = ("fn", "_serial", "sh", "kind")

    def __init__(self, fn, sh, kind):
        self.fn = fn
        self.sh = sh
        self.kind = kind
        self._serial = next_serial()


def _buf_get(b, n):
    return b.fn


def _buf_set(b, n, v):
    b.fn = v


def dim(x):
    return unwrap_int(x)


def dp(d):
    return d if isinstance(d, T.Poly) else T.const(d)


def pub(d):
    return d if isinstance(d, int) else SNum(d, True)


def same_dim(a, b):
    """are the dimensions equal (forks if undecided)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    pa, pb = dp(a), dp(b)
    if pa is pb:
        return True
    return E.branch(T.eq(pa, pb))


def bdim(a, b):
    """broadcast two dimensions: returns (dim, a_is_broadcast, b_is_broadcast)"""
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a, False, False
        if a == 1:
            return b, True, False
        if b == 1:
            return a, False, True
        raise ValueError("operands could not be broadcast together with dimensions %r %r" % (a, b))
    if isinstance(a, int) and a == 1:
        return b, True, False
    if isinstance(b, int) and b == 1:
        return a, False, True
    if same_dim(a, b):
        return (a if isinstance(a, int) else b), False, False
    if not isinstance(a, int) and E.branch(T.eq(a, T.ONE)):
        return b, True, False
    if not isinstance(b, int) and E.branch(T.eq(b, T.ONE)):
        return a, False, True
    raise ValueError("operands could not be broadcast together")


def broadcast(shs):
    n = max(len(s) for s in shs)
    out = []
    flags = [[] for _ in shs]
    for ax in range(n):
        cur = None
        dims = []
        for s in shs:
            j = ax - (n - len(s))
            dims.append(s[j] if j >= 0 else None)
        for d in dims:
            if d is None:
                continue
            cur = d if cur is None else bdim(cur, d)[0]
        out.append(cur)
        for f, d in zip(flags, dims):
            f.append(None if d is None else (d is not cur and not (isinstance(d, int) and isinstance(cur, int) and d == cur) and
                                             (isinstance(d, int) and d == 1 or known(T.eq(dp(d), T.ONE)) and not known(T.eq(dp(d), dp(cur))))))
    return tuple(out), flags


def bidx(idx, fl):
    """index into an operand with broadcast flags"""
    return tuple(T.ZERO if f else i for i, f in zip(idx, fl) if f is not None)


KRANK = {"b": 0, "i": 1, "f": 2}


def kmax(*ks):
    return max(ks, key=lambda k: KRANK[k])


def kind_of_scalar(x):
    if isinstance(x, (SBool, bool, _np.bool_)):
        return "b"
    if isinstance(x, SNum):
        return "i" if x.isint else "f"
    if isinstance(x, (int, _np.integer)):
        return "i"
    return "f"


def scalar_term(x):
    if isinstance(x, (SBool, bool, _np.bool_)):
        return boolean(x)
    if isinstance(x, (float, _np.floating)) and x != x:
        return NAN
    return poly(x)


def as_poly(t):
    return T.ite(t, T.ONE, T.ZERO) if isinstance(t, T.Bool) else t


def as_bool(t):
    return t if isinstance(t, T.Bool) else T.not_(T.eq0(t))


def cast(t, k):
    if k == "b":
        return as_bool(t)
    return as_poly(t)


def cast_from(t, ksrc, k):
    if k == "b":
        return as_bool(t)
    t = as_poly(t)
    if k == "i" and ksrc == "f":
        return truncate(t)
    return t


def wrapk(t, k):
    if k == "b":
        return SBool(as_bool(t))
    return SNum(as_poly(t), k == "i")


DT = {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool)}


def kind_of_dtype(t):
    if t is None:
        return None
    k = getattr(t, "_kind", None)
    if k is not None:
        return k
    if t in (float, _np.float64, _np.float32, "float", "float64", "f8", "d"):
        return "f"
    if t in (int, _np.int64, _np.int32, _np.intp, "int", "int64", "i8"):
        return "i"
    if t in (bool, _np.bool_, "bool"):
        return "b"
    try:
        k = _np.dtype(t).kind
    except TypeError:
        raise Unsupported("dtype %r" % (t,))
    if k in "iu":
        return "i"
    if k in "fb":
        return k
    raise Unsupported("dtype %r" % (t,))


class SDtype:
    pass


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, sh, kind, fn, view=None, buf=None, meta=None):
        self.sh = tuple(sh)
        self.kind = kind
        self.buf = buf if buf is not None else Buf(fn if isinstance(fn, Fn) else Fn(fn), self.sh, kind)
        self.view = view
        self.meta = meta

    # ---------------------------------------------------------------- construction
    @staticmethod
    def scalar(x):
        t = scalar_term(x)
        return SArr((), kind_of_scalar(x), lambda idx: t)

    @staticmethod
    def from_terms(sh, kind, data):
        """data: dict or list (row-major) of terms for a concrete shape"""
        tab = {}
        for i, ix in enumerate(_np.ndindex(*sh)):
            tab[tuple(T.const(j).id for j in ix)] = data[i]

        def fn(idx):
            k = tuple(i.id for i in idx)
            r = tab.get(k)
            if r is None:
                # symbolic index into a concrete array
                r = _select(tab, sh, idx, kind)
            return r
        return SArr(sh, kind, fn)

    def get(self, idx):
        t = self.buf.fn(self.view[0](idx) if self.view else idx)
        return cast(t, self.kind)

    def snap(self):
        """immutable function idx -> term of the current content"""
        f = self.buf.fn
        k = self.kind
        if self.view:
            fwd = self.view[0]
            return lambda idx: cast(f(fwd(idx)), k)
        return lambda idx: cast(f(idx), k)

    def at(self, *idx):
        """term at the given indices (ints, Polys or SNums)"""
        return self.get(tuple(poly(i) for i in idx))

    def el(self, *idx):
        return wrapk(self.at(*idx), self.kind)

    @property
    def shape(self):
        return tuple(pub(d) for d in self.sh)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to shape")

    @property
    def ndim(self):
        return len(self.sh)

    @property
    def size(self):
        r = T.ONE
        for d in self.sh:
            r = r * dp(d)
        return pub(unwrap_int(r))

    @property
    def dtype(self):
        return DT[self.kind]

    @property
    def concrete(self):
        return all(isinstance(d, int) for d in self.sh)

    def terms(self):
        """row-major list of terms (concrete shapes)"""
        return [self.get(tuple(T.const(j) for j in ix)) for ix in _np.ndindex(*self.sh)]

    def __repr__(self):
        if self.concrete:
            return "SArr%r%r" % (self.sh, self.terms())
        return "SArr(shape=%r)" % (self.sh,)

    def _scalar_poly(self):
        if self.concrete and _np.prod(self.sh, dtype=int) == 1:
            return as_poly(self.terms()[0])
        raise TypeError("only size-1 arrays can be converted to scalars")

    def _scalar_bool(self):
        return as_bool(self._scalar_term())

    def _scalar_term(self):
        n = T.ONE
        for d in self.sh:
            n = n * dp(d)
        if n is not T.ONE:
            if not known(T.eq(n, T.ONE)):
                if n.is_const or not E.branch(T.eq(n, T.ONE)):
                    raise ValueError("The truth value of an array with more than one element is ambiguous")
        return self.get(tuple(T.ZERO for _ in self.sh))

    def __bool__(self):
        return E.branch(as_bool(self._scalar_term()))

    def __float__(self):
        return float(wrapk(self._scalar_term(), self.kind))

    def __int__(self):
        return int(wrapk(self._scalar_term(), self.kind))

    def __index__(self):
        if self.sh == ():
            return wrapk(self.get(()), self.kind).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return wrapk(self._scalar_term(), self.kind)

    def tolist(self):
        from .lists import SList
        if not self.sh:
            return self.item()
        if isinstance(self.sh[0], int):
            return SList([x.tolist() if isinstance(x, SArr) else x for x in self])
        return SList.symbolic(self.sh[0], lambda k: (lambda x: x.tolist() if isinstance(x, SArr) else x)(self[SNum(k, True)]))

    def __len__(self):
        if not self.sh:
            raise TypeError("len() of unsized object")
        if isinstance(self.sh[0], int):
            return self.sh[0]
        raise Unsupported("native len() of a symbolic array")

    def s_len(self):
        if not self.sh:
            raise TypeError("len() of unsized object")
        return pub(self.sh[0])

    def __iter__(self):
        if not self.sh:
            raise TypeError("iteration over a 0-d array")
        if isinstance(self.sh[0], int):
            return iter([self[i] for i in range(self.sh[0])])
        raise Unsupported("native iteration over a symbolic array at %s" % here())

    # sequence protocol for loops
    def seq_len(self):
        return self.sh[0]

    def seq_at(self, k):
        """the element at an index that is in range"""
        TRUSTED_INDEX.append(k)
        try:
            return self[SNum(k, True)]
        finally:
            TRUSTED_INDEX.pop()

    # ---------------------------------------------------------------- copies and views
    def fresh_copy(self, kind=None):
        k = kind or self.kind
        f = self.snap()
        if k == self.kind:
            return SArr(self.sh, k, f)
        ks = self.kind
        return SArr(self.sh, k, lambda idx: cast_from(f(idx), ks, k))

    def copy(self, *a, **k):
        r = self.fresh_copy()
        r.meta = self.meta
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = self.fresh_copy()
        r.meta = self.meta
        memo[id(self)] = r
        return r

    def astype(self, t, copy=True, **k):
        return self.fresh_copy(kind_of_dtype(t))

    def _view(self, sh, fwd, inv):
        """view with fwd: idx -> my idx; inv: my idx -> (cond, idx) or None"""
        if self.view:
            f0, i0 = self.view

            def f(idx):
                return f0(fwd(idx))
            if i0 is None or inv is None:
                i = None
            else:
                def i(b):
                    c0, m = i0(b)
                    c1, v = inv(m)
                    return T.and_(c0, c1), v
            return SArr(sh, self.kind, None, view=(f, i), buf=self.buf)
        return SArr(sh, self.kind, None, view=(fwd, inv), buf=self.buf)

    @property
    def T(self):
        if len(self.sh) < 2:
            return self._view(self.sh, lambda i: i, lambda i: (T.TRUE, i))
        return self.transpose()

    def transpose(self, *axes):
        n = len(self.sh)
        if not axes or axes == (None,):
            ax = tuple(range(n))[::-1]
        else:
            ax = axes[0] if len(axes) == 1 and not isinstance(axes[0], int) else axes
            ax = tuple(int(a) % n for a in ax)
        invax = [0] * n
        for i, a in enumerate(ax):
            invax[a] = i
        return self._view(tuple(self.sh[a] for a in ax),
                          lambda idx: tuple(idx[invax[a]] for a in range(n)),
                          lambda b: (T.TRUE, tuple(b[a] for a in ax)))

    def expand(self, axis):
        n = len(self.sh)
        axis = int(axis)
        if axis < 0:
            axis += n + 1
        if not 0 <= axis <= n:
            raise ValueError("axis out of bounds")
        return self._view(self.sh[:axis] + (1,) + self.sh[axis:],
                          lambda idx: idx[:axis] + idx[axis + 1:],
                          lambda b: (T.TRUE, b[:axis] + (T.ZERO,) + b[axis:]))

    def squeeze(self, axis=None):
        n = len(self.sh)
        if axis is None:
            drop = []
            for i, d in enumerate(self.sh):
                if isinstance(d, int):
                    if d == 1:
                        drop.append(i)
                elif E.branch(T.eq(d, T.ONE)):
                    drop.append(i)
        else:
            drop = [a % n for a in ((axis,) if isinstance(axis, int) else axis)]
            for a in drop:
                if not same_dim(self.sh[a], 1):
                    raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        keep = [i for i in range(n) if i not in drop]

        def fwd(idx):
            out = [T.ZERO] * n
            for i, a in enumerate(keep):
                out[a] = idx[i]
            return tuple(out)
        return self._view(tuple(self.sh[a] for a in keep), fwd, lambda b: (T.TRUE, tuple(b[a] for a in keep)))

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).fresh_copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and not is_scalar(shape[0]):
            shape = tuple(shape[0])
        tgt = [unwrap_int(s) for s in shape]
        src = list(self.sh)
        # resolve -1
        if any(isinstance(t, int) and t == -1 for t in tgt):
            k = [i for i, t in enumerate(tgt) if isinstance(t, int) and t == -1]
            if len(k) > 1:
                raise ValueError("can only specify one unknown dimension")
            k = k[0]
            rest = [t for i, t in enumerate(tgt) if i != k]
            s2 = list(src)
            for t in list(rest):
                for u in s2:
                    if (isinstance(t, int) and isinstance(u, int) and t == u) or (not isinstance(t, int) and t is u):
                        s2.remove(u)
                        rest.remove(t)
                        break
            q = T.ONE
            for u in s2:
                q = q * dp(u)
            r = T.ONE
            for t in rest:
                r = r * dp(t)
            if r is T.ONE:
                tgt[k] = unwrap_int(q)
            elif q.is_const and r.is_const:
                if r.const == 0 or q.const % r.const:
                    raise ValueError("cannot reshape array")
                tgt[k] = int(q.const / r.const)
            else:
                d = T.quot(q, r)
                if not E.branch(T.eq(d * r, q)):
                    raise ValueError("cannot reshape array")
                tgt[k] = unwrap_int(d)
        if all(isinstance(t, int) for t in tgt) and self.concrete:
            n1 = int(_np.prod(src, dtype=int))
            if n1 != int(_np.prod(tgt, dtype=int)):
                raise ValueError("cannot reshape array of size %d into shape %r" % (n1, tuple(tgt)))
            s = _np.arange(n1).reshape(src)
            fw = {}
            bw = {}
            ti = list(_np.ndindex(*tgt))
            si = list(_np.ndindex(*src))
            for a, b in zip(ti, si):
                ta = tuple(T.const(x) for x in a)
                tb = tuple(T.const(x) for x in b)
                fw[tuple(x.id for x in ta)] = tb
                bw[tuple(x.id for x in tb)] = ta

            def fwd(idx):
                r = fw.get(tuple(x.id for x in idx))
                if r is None:
                    # symbolic index: linearise
                    lin = T.ZERO
                    for x, d in zip(idx, tgt):
                        lin = lin.scale(d) + x
                    out = []
                    for d in reversed(src):
                        out.append(lin - T.floor(lin.scale(Fraction(1, d))).scale(d))
                        lin = T.floor(lin.scale(Fraction(1, d)))
                    return tuple(reversed(out))
                return r

            def inv(b):
                r = bw.get(tuple(x.id for x in b))
                if r is None:
                    lin = T.ZERO
                    for x, d in zip(b, src):
                        lin = lin.scale(d) + x
                    out = []
                    for d in reversed(tgt):
                        out.append(lin - T.floor(lin.scale(Fraction(1, d))).scale(d))
                        lin = T.floor(lin.scale(Fraction(1, d)))
                    return T.TRUE, tuple(reversed(out))
                return T.TRUE, r
            return self._view(tuple(tgt), fwd, inv)
        # same up to unit dimensions
        s1 = [i for i, d in enumerate(src) if not (isinstance(d, int) and d == 1)]
        t1 = [i for i, d in enumerate(tgt) if not (isinstance(d, int) and d == 1)]
        if len(s1) == len(t1):
            for a, b in zip(s1, t1):
                if not same_dim(src[a], tgt[b]):
                    break
            else:
                def fwd(idx):
                    out = [T.ZERO] * len(src)
                    for a, b in zip(s1, t1):
                        out[a] = idx[b]
                    return tuple(out)

                def inv(bi):
                    out = [T.ZERO] * len(tgt)
                    for a, b in zip(s1, t1):
                        out[b] = bi[a]
                    return T.TRUE, tuple(out)
                return self._view(tuple(src[s1[t1.index(i)]] if i in t1 else 1 for i in range(len(tgt))), fwd, inv)
        # merge adjacent dimensions
        r = self._reshape_merge(src, tgt)
        if r is not None:
            return r
        # split one dimension
        r = self._reshape_split(src, tgt)
        if r is not None:
            return r
        # the target may have a unit size that is only known from the path
        size_s, size_t = T.ONE, T.ONE
        for d in src:
            size_s = size_s * dp(d)
        for d in tgt:
            size_t = size_t * dp(d)
        if not E.branch(T.eq(size_s, size_t)):
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape %r -> %r at %s" % (src, tgt, here()))

    def _reshape_merge(self, src, tgt):
        """each target dimension is the product of a run of source dimensions"""
        groups = []
        i = 0
        for t in tgt:
            run = [i]
            if i >= len(src):
                if isinstance(t, int) and t == 1:
                    groups.append([])
                    continue
                return None
            q = dp(src[i])
            i += 1
            while q is not dp(t) and i < len(src):
                q = q * dp(src[i])
                run.append(i)
                i += 1
            if q is not dp(t):
                return None
            groups.append(run)
        if i < len(src):
            if all(isinstance(d, int) and d == 1 for d in src[i:]):
                groups[-1] = groups[-1] + list(range(i, len(src)))
            else:
                return None
        f = self.snap()
        maps = []
        for g in groups:
            maps.append(merge_dims([src[a] for a in g]))

        def fn(idx):
            out = []
            for ix, m, g in zip(idx, maps, groups):
                out.extend(m(ix))
            return f(tuple(out))
        r = SArr(tuple(tgt), self.kind, fn, meta=("merged", groups, self, maps))
        return r

    def _reshape_split(self, src, tgt):
        # (N,) -> (A, B) with A*B == N, row-major
        if len(src) == 1 and len(tgt) == 2:
            a, b = dp(tgt[0]), dp(tgt[1])
            if E.branch(T.eq(a * b, dp(src[0]))):
                f = self.snap()
                return SArr(tuple(tgt), self.kind, lambda idx: f((idx[0] * b + idx[1],)))
            raise ValueError("cannot reshape array")
        return None

    # ---------------------------------------------------------------- writing
    def _set_content(self, sel_inv, val):
        """content[i] := val(sel) where sel_inv(my idx) = (cond, sel)"""
        if self.view:
            if self.view[1] is None:
                raise Unsupported("write through a view that cannot be inverted at %s" % here())
            vi = self.view[1]
        else:
            vi = None
        old = self.buf.fn

        def fn(b):
            if vi is not None:
                c0, m = vi(b)
                if c0 is T.FALSE:
                    return old(b)
            else:
                c0, m = T.TRUE, b
            c1, s = sel_inv(m)
            c = T.and_(c0, c1)
            if c is T.FALSE:
                return old(b)
            v = val(s)
            if c is T.TRUE:
                return v
            o = old(b)
            if isinstance(v, T.Bool) or isinstance(o, T.Bool):
                return T.bite(c, as_bool(v), as_bool(o))
            return T.ite(c, v, o)
        record(self.buf, "fn", old, _buf_get, _buf_set)
        self.buf.fn = Fn(fn)
        self.meta = None

    def _assign_all(self, f):
        self._set_content(lambda m: (T.TRUE, m), f)

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        return index_get(self, key)

    def __setitem__(self, key, val):
        index_set(self, key, val)

    # ---------------------------------------------------------------- elementwise
    def _elem2(self, o, f, both_int=True, kind=None, force_poly=True):
        o = to_arr(o)
        sh, (fa, fb) = broadcast([self.sh, o.sh])
        a, b = self.snap(), o.snap()
        k = kind
        if k is None:
            k = kmax(self.kind, o.kind, "i")
            if not both_int:
                k = "f"

        def fn(idx):
            x, y = a(bidx(idx, fa)), b(bidx(idx, fb))
            if force_poly:
                x, y = as_poly(x), as_poly(y)
            return f(x, y)
        return scalar_or(SArr(sh, k, fn))

    def _cmp2(self, o, f):
        return self._elem2(o, f, kind="b")

    def _map(self, f, kind=None):
        a = self.snap()
        return scalar_or(SArr(self.sh, kind or self.kind, lambda idx: f(a(idx))))

    def _inplace(self, o, f, both_int=True):
        o = to_arr(o)
        k = kmax(self.kind, o.kind) if both_int else "f"
        if KRANK[k] > KRANK[self.kind] and not (self.kind == "i" and k == "i"):
            raise TypeError("Cannot cast ufunc output from dtype '%s' to dtype '%s' with casting rule 'same_kind'" % (DT[k], DT[self.kind]))
        sh, (fa, fb) = broadcast([self.sh, o.sh])
        if len(sh) != len(self.sh):
            raise ValueError("non-broadcastable output operand")
        for x, y in zip(sh, self.sh):
            if not same_dim(x, y):
                raise ValueError("non-broadcastable output operand")
        a, b = self.snap(), o.snap()
        self._assign_all(lambda idx: f(as_poly(a(idx)), as_poly(b(bidx(idx, fb)))))
        return self

    def _op(f, both_int=True, swap=False):
        g = (lambda x, y: f(y, x)) if swap else f

        def op(self, o):
            if not isinstance(o, SArr) and not is_scalar(o) and not isinstance(o, (list, tuple, _np.ndarray)):
                return NotImplemented
            return self._elem2(o, g, both_int)
        return op

    def _iop(f, both_int=True):
        def op(self, o):
            return self._inplace(o, f, both_int)
        return op

    def _pow2(a, b):
        return p_pow(a, b)

    __add__ = _op(operator.add)
    __radd__ = _op(operator.add, swap=True)
    __sub__ = _op(operator.sub)
    __rsub__ = _op(operator.sub, swap=True)
    __mul__ = _op(operator.mul)
    __rmul__ = _op(operator.mul, swap=True)
    __truediv__ = _op(p_div, both_int=False)
    __rtruediv__ = _op(p_div, both_int=False, swap=True)
    __floordiv__ = _op(p_floordiv)
    __rfloordiv__ = _op(p_floordiv, swap=True)
    __mod__ = _op(p_mod)
    __rmod__ = _op(p_mod, swap=True)
    __pow__ = _op(_pow2)
    __rpow__ = _op(_pow2, swap=True)
    __iadd__ = _iop(operator.add)
    __isub__ = _iop(operator.sub)
    __imul__ = _iop(operator.mul)
    __itruediv__ = _iop(p_div, both_int=False)
    __ifloordiv__ = _iop(p_floordiv)
    __imod__ = _iop(p_mod)
    __ipow__ = _iop(_pow2)

    def __neg__(self):
        return self._map(lambda t: -as_poly(t))

    def __pos__(self):
        return self.fresh_copy()

    def __abs__(self):
        return self._map(T.absv)

    def _mkcmp(f):
        def op(self, o):
            if isinstance(o, (float, _np.floating)) and o in (float("inf"), float("-inf")):
                o = 10 ** 30 if o > 0 else -10 ** 30
            if not isinstance(o, SArr) and not is_scalar(o) and not isinstance(o, (list, tuple, _np.ndarray)):
                return NotImplemented
            return self._cmp2(o, f)
        return op

    __lt__ = _mkcmp(lambda a, b: T.lt(a, b))
    __le__ = _mkcmp(lambda a, b: T.le(a, b))
    __gt__ = _mkcmp(lambda a, b: T.lt(b, a))
    __ge__ = _mkcmp(lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return self._map(lambda t: T.FALSE, "b")
        o = to_arr(o)
        if self.kind == "b" and o.kind == "b":
            return self._elem2(o, lambda a, b: T.iff(a, b), kind="b", force_poly=False)
        return self._cmp2(o, lambda a, b: T.eq(a, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r

    def _blog(f):
        def op(self, o):
            if not isinstance(o, SArr) and not is_scalar(o) and not isinstance(o, (list, tuple, _np.ndarray)):
                return NotImplemented
            o = to_arr(o)
            if self.kind != "b" or o.kind != "b":
                raise Unsupported("bitwise operation on numbers")
            return self._elem2(o, lambda a, b: f(as_bool(a), as_bool(b)), kind="b", force_poly=False)
        return op

    def _iblog(f):
        def op(self, o):
            o = to_arr(o)
            if self.kind != "b" or o.kind != "b":
                raise Unsupported("bitwise operation on numbers")
            sh, (fa, fb) = broadcast([self.sh, o.sh])
            a, b = self.snap(), o.snap()
            self._assign_all(lambda idx: f(as_bool(a(idx)), as_bool(b(bidx(idx, fb)))))
            return self
        return op

    __and__ = _blog(lambda a, b: T.and_(a, b))
    __rand__ = __and__
    __or__ = _blog(lambda a, b: T.or_(a, b))
    __ror__ = __or__
    __xor__ = _blog(lambda a, b: T.not_(T.iff(a, b)))
    __rxor__ = __xor__
    __iand__ = _iblog(lambda a, b: T.and_(a, b))
    __ior__ = _iblog(lambda a, b: T.or_(a, b))
    __ixor__ = _iblog(lambda a, b: T.not_(T.iff(a, b)))

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("bitwise inversion of numbers")
        return self._map(lambda t: T.not_(as_bool(t)), "b")

    del _op, _iop, _mkcmp, _blog, _iblog

    # ---------------------------------------------------------------- reductions
    def reduce(self, axis, f, init, symf, kind=None, keepdims=False):
        """f: list of terms -> term; symf: (body(term over kv), n, kv) -> term"""
        n = len(self.sh)
        if axis is None:
            axes = list(range(n))
        elif isinstance(axis, (tuple, list)):
            axes = [unwrap_int(a) % n for a in axis]
        else:
            a = unwrap_int(axis)
            if not -n <= a < n:
                raise ValueError("axis %d is out of bounds for array of dimension %d" % (a, n))
            axes = [a % n]
        cur = self.snap()
        sh = list(self.sh)
        for ax in sorted(axes, reverse=True):
            d = sh[ax]
            cur = _reduce1(cur, ax, d, f, init, symf)
            del sh[ax]
        out_sh = sh
        if keepdims:
            src = cur
            axs = sorted(axes)
            out_sh = [1 if i in axes else self.sh[i] for i in range(n)]
            cur = lambda idx: src(tuple(x for i, x in enumerate(idx) if i not in axs))
        return scalar_or(SArr(tuple(out_sh), kind or self.kind, cur))

    def sum(self, axis=None, keepdims=False, **k):
        return self.reduce(axis, lambda ts: _addall([as_poly(t) for t in ts]), T.ZERO,
                           lambda b, n, kv: absfn.sum_sym(as_poly(b), n, kv), kmax(self.kind, "i"), keepdims)

    def prod(self, axis=None, keepdims=False, **k):
        def f(ts):
            r = T.ONE
            for t in ts:
                r = r * as_poly(t)
            return r

        def s(b, n, kv):
            raise Unsupported("product over a symbolic axis")
        return self.reduce(axis, f, T.ONE, s, kmax(self.kind, "i"), keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        s = self.sum(axis, keepdims)
        n = len(self.sh)
        axes = range(n) if axis is None else [axis % n] if isinstance(axis, int) else [a % n for a in axis]
        c = T.ONE
        for a in axes:
            c = c * dp(self.sh[a])
        return s / pub(unwrap_int(c)) if not isinstance(unwrap_int(c), int) else s / float(unwrap_int(c))

    def _ext(self, which, axis=None, keepdims=False):
        def f(ts):
            if not ts:
                raise ValueError("zero-size array to reduction operation has no identity")
            r = as_poly(ts[0])
            for t in ts[1:]:
                t = as_poly(t)
                r = T.ite(T.lt(t, r), t, r) if which == "min" else T.ite(T.lt(r, t), t, r)
            return r

        def s(b, n, kv):
            return absfn.ext_sym(as_poly(b), n, kv, which)[0]
        if any(not isinstance(d, int) for d in self.sh):
            n = len(self.sh)
            axes = range(n) if axis is None else ([axis % n] if isinstance(axis, int) else [a % n for a in axis])
            for a in axes:
                if not isinstance(self.sh[a], int):
                    if E.branch(T.le0(self.sh[a])):
                        raise ValueError("zero-size array to reduction operation has no identity")
        return self.reduce(axis, f, None, s, self.kind, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return self._ext("min", axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return self._ext("max", axis, keepdims)

    def arg(self, which, axis=None):
        a = self
        if axis is None:
            a = self.reshape(-1) if len(self.sh) > 1 else self
            axis = 0
        axis = axis % len(a.sh)
        d = a.sh[axis]
        cur = a.snap()
        sh = a.sh[:axis] + a.sh[axis + 1:]
        if isinstance(d, int):
            if d == 0:
                raise ValueError("attempt to get argmin of an empty sequence")

            def fn(idx):
                best, bi = None, None
                for i in range(d):
                    t = as_poly(cur(idx[:axis] + (T.const(i),) + idx[axis:]))
                    if best is None:
                        best, bi = t, T.ZERO
                    else:
                        c = T.lt(t, best) if which == "min" else T.lt(best, t)
                        best, bi = T.ite(c, t, best), T.ite(c, T.const(i), bi)
                return bi
        else:
            if E.branch(T.le0(d)):
                raise ValueError("attempt to get argmin of an empty sequence")

            def fn(idx):
                kv = T.fresh("k", True)
                b = as_poly(cur(idx[:axis] + (kv,) + idx[axis:]))
                return absfn.ext_sym(b, d, kv, which)[1]
        return scalar_or(SArr(sh, "i", fn))

    def argmin(self, axis=None, **k):
        return self.arg("min", axis)

    def argmax(self, axis=None, **k):
        return self.arg("max", axis)

    def all(self, axis=None, keepdims=False, **k):
        return self.reduce(axis, lambda ts: T.and_(*[as_bool(t) for t in ts]), T.TRUE,
                           lambda b, n, kv: absfn.every(kv, n, as_bool(b)), "b", keepdims)

    def any(self, axis=None, keepdims=False, **k):
        return self.reduce(axis, lambda ts: T.or_(*[as_bool(t) for t in ts]), T.FALSE,
                           lambda b, n, kv: absfn.some(kv, n, as_bool(b)), "b", keepdims)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return matmul(self, to_arr(o))

    def __rmatmul__(self, o):
        return matmul(to_arr(o), self)

    def round(self, decimals=0, **k):
        from .core import p_round
        if decimals:
            raise Unsupported("round with decimals")
        return self._map(p_round)

    def __round__(self):
        return self.round()

    def nonzero(self):
        return nonzero(self)

    def fill(self, v):
        t = scalar_term(v)
        k, ks = self.kind, kind_of_scalar(v)
        self._assign_all(lambda idx: cast_from(t, ks, k))

    def sort(self, axis=-1):
        from .npx import np_sort
        r = np_sort(self, axis)
        f = r.snap()
        self._assign_all(f)

    def conj(self):
        return self

    real = property(lambda self: self)

    def min_max_placeholder(self):
        raise NotImplementedError

    def clip(self, lo=None, hi=None):
        r = self
        from .npx import NP
        if lo is not None:
            r = NP.maximum(r, lo)
        if hi is not None:
            r = NP.minimum(r, hi)
        return r

    def take(self, i, axis=None):
        if axis in (None, 0):
            return self[i]
        raise Unsupported("take")

    def repeat(self, *a, **k):
        from .npx import NP
        return NP.repeat(self, *a, **k)

    def cumsum(self, *a, **k):
        raise Unsupported("cumsum")

    def __contains__(self, x):
        return E.branch(boolean((self == x).any()))

    def __format__(self, spec):
        return "<array>"


def _addall(ts):
    r = T.ZERO
    for t in ts:
        r = r + t
    return r


def _reduce1(cur, ax, d, f, init, symf):
    if isinstance(d, int):
        return lambda idx: f([cur(idx[:ax] + (T.const(i),) + idx[ax:]) for i in range(d)])

    def fn(idx):
        kv = T.fresh("k", True)
        return symf(cur(idx[:ax] + (kv,) + idx[ax:]), d, kv)
    return Fn(fn)


def merge_dims(dims):
    """row-major merge: flat index -> indices"""
    dims = list(dims)
    if not dims:
        return lambda r: ()
    if len(dims) == 1:
        return lambda r: (r,)
    if all(isinstance(d, int) for d in dims):
        def f(r):
            out = []
            for d in reversed(dims):
                q = T.floor(r.scale(Fraction(1, d)))
                out.append(r - q.scale(d))
                r = q
            return tuple(reversed(out))
        return f
    # last dim is the fastest
    if isinstance(dims[-1], int) and dims[-1] == 1:
        g = merge_dims(dims[:-1])
        return lambda r: g(r) + (T.ZERO,)
    if isinstance(dims[0], int) and dims[0] == 1:
        g = merge_dims(dims[1:])
        return lambda r: (T.ZERO,) + g(r)
    m = dp(dims[-1])
    n = T.ONE
    for d in dims[:-1]:
        n = n * dp(d)
    blk, off, flat = block_maps(m, n)
    g = merge_dims(dims[:-1])
    return lambda r: g(blk(r)) + (off(r),)


def merge_flat(dims):
    """indices -> flat index"""
    dims = list(dims)
    if len(dims) == 1:
        return lambda idx: idx[0]
    if all(isinstance(d, int) for d in dims):
        def f(idx):
            r = T.ZERO
            for x, d in zip(idx, dims):
                r = r.scale(d) + x
            return r
        return f
    if isinstance(dims[-1], int) and dims[-1] == 1:
        g = merge_flat(dims[:-1])
        return lambda idx: g(idx[:-1])
    m = dp(dims[-1])
    n = T.ONE
    for d in dims[:-1]:
        n = n * dp(d)
    blk, off, flat = block_maps(m, n)
    g = merge_flat(dims[:-1])
    return lambda idx: flat(g(idx[:-1]), idx[-1])


def block_maps(m, n):
    """n blocks of equal length m; total n*m"""
    kv = T.var("_kv", True)
    total, blk, off, flat = absfn.concat(m, n, kv)
    tot_name = total.single_atom().name
    if not absfn.META.get(tot_name):
        absfn.META[tot_name] = ("const-blocks",)
        old = absfn.FACTS["blk#" + tot_name[4:]]
        base = absfn.FACTS[tot_name]
        key, params, (cm, cn), (cb,), cps = absfn.canon([m, n], [kv])

        def prod(ps):
            return absfn.inst(cm * cn, cps, ps, [], [])

        def tf(args):
            return base(args) + [T.implies(T.le0(-absfn.inst(cn, cps, list(args), [], [])),
                                           T.implies(T.le0(-absfn.inst(cm, cps, list(args), [], [])),
                                                     T.eq(T.app(tot_name, list(args), True), prod(list(args)))))]

        def bf(args):
            ps, r = list(args[:-1]), args[-1]
            t = T.app(tot_name, ps, True)
            return old(args) + tf(ps)
        absfn.FACTS[tot_name] = tf
        absfn.FACTS["blk#" + tot_name[4:]] = bf
        absfn.FACTS["off#" + tot_name[4:]] = bf
        fold = absfn.FACTS["flat#" + tot_name[4:]]
        absfn.FACTS["flat#" + tot_name[4:]] = lambda args: fold(args) + tf(list(args[:-2]))
    return blk, off, flat


def _select(tab, sh, idx, kind):
    """value of a concrete table at symbolic indices"""
    items = list(_np.ndindex(*sh))
    if not items:
        return T.ZERO if kind != "b" else T.FALSE
    r = None
    for ix in items:
        v = tab[tuple(T.const(j).id for j in ix)]
        if r is None:
            r = v
            continue
        c = T.and_(*[T.eq(i, T.const(j)) for i, j in zip(idx, ix)])
        if isinstance(v, T.Bool):
            r = T.bite(c, v, as_bool(r))
        elif isinstance(r, T.Bool):
            r = T.bite(c, as_bool(v), r)
        else:
            r = T.ite(c, v, r)
    return r


def scalar_or(a):
    if a.sh == ():
        return wrapk(a.get(()), a.kind)
    return a


def to_arr(x, kind=None):
    """convert to SArr without copying an SArr"""
    if isinstance(x, SArr):
        return x
    if is_scalar(x):
        return SArr.scalar(x)
    if isinstance(x, _np.ndarray):
        k = kind_of_dtype(x.dtype) if x.dtype != object else None
        if k is None:
            return to_arr(x.tolist())
        sh = x.shape
        return SArr.from_terms(sh, k, [scalar_term(v) for v in x.reshape(-1).tolist()])
    conv = getattr(x, "to_sarr", None)
    if conv is not None:
        return conv()
    if hasattr(x, "seq_len") and not isinstance(x.seq_len(), int):
        n = x.seq_len()
        kv = T.fresh("k", True)
        el = x.seq_at(kv)
        from .lists import subst_value
        if is_scalar(el):
            t = scalar_term(el)
            return SArr((n,), kind_of_scalar(el), lambda idx: T.subst(t, {kv: idx[0]}))
        e = to_arr(el)
        for d in e.sh:
            if isinstance(d, T.Poly) and kv.single_atom() in T.free_vars(d):
                raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        f = e.snap()
        fixed = {}

        def fn(idx):
            # evaluate at generic inner indices, then substitute the outer one
            return T.subst(f(idx[1:]), {kv: idx[0]})
        return SArr((n,) + e.sh, e.kind, fn)
    if isinstance(x, (list, tuple, range)) or hasattr(x, "__iter__"):
        els = list(x)
        if not els:
            return SArr((0,), "f", lambda idx: T.ZERO)
        parts = [to_arr(e) for e in els]
        n0 = len(parts[0].sh)
        for p in parts:
            if len(p.sh) != n0:
                raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        sh0 = parts[0].sh
        for p in parts[1:]:
            for a, b in zip(sh0, p.sh):
                if not same_dim(a, b):
                    raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        k = kmax(*[p.kind for p in parts])
        fs = [p.snap() for p in parts]
        return stack0(fs, sh0, k)
    raise Unsupported("cannot convert %r to an array" % type(x).__name__)


def stack0(fs, sh, k):
    def fn(idx):
        i = idx[0]
        if i.is_const:
            return cast(fs[int(i.const)](idx[1:]), k)
        r = cast(fs[0](idx[1:]), k)
        for j in range(1, len(fs)):
            v = cast(fs[j](idx[1:]), k)
            c = T.eq(i, T.const(j))
            r = T.bite(c, v, r) if k == "b" else T.ite(c, v, r)
        return r
    return SArr((len(fs),) + tuple(sh), k, fn)


# --------------------------------------------------------------------------------------------- products
def contract(n, body):
    if isinstance(n, int):
        r = T.ZERO
        for i in range(n):
            r = r + body(T.const(i))
        return r
    kv = T.fresh("k", True)
    return absfn.sum_sym(body(kv), n, kv)


def matmul(a, b):
    if a.kind == "b" and b.kind == "b":
        return _bool_matmul(a, b)
    if len(a.sh) == 0 or len(b.sh) == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    k = kmax(a.kind, b.kind, "i")
    n = a.sh[-1]
    m = b.sh[-2] if len(b.sh) > 1 else b.sh[0]
    if not same_dim(n, m):
        raise ValueError("matmul: Input operand has a mismatch in its core dimension")
    n = n if isinstance(n, int) else m
    fa, fb = a.snap(), b.snap()
    if len(a.sh) > 2 or len(b.sh) > 2:
        # batched
        if len(b.sh) == 1:
            return scalar_or(SArr(a.sh[:-1], k, Fn(lambda idx: contract(n, lambda i: as_poly(fa(idx + (i,))) * as_poly(fb((i,)))))))
        if len(a.sh) == 1:
            sh = b.sh[:-2] + (b.sh[-1],)
            return scalar_or(SArr(sh, k, Fn(lambda idx: contract(n, lambda i: as_poly(fa((i,))) * as_poly(fb(idx[:-1] + (i, idx[-1])))))))
        bs, (f1, f2) = broadcast([a.sh[:-2], b.sh[:-2]]) if (a.sh[:-2] and b.sh[:-2]) else (a.sh[:-2] or b.sh[:-2], (None, None))

        def fn(idx):
            bi = idx[:-2]
            ia = bidx(bi, f1) if f1 is not None else (bi if a.sh[:-2] else ())
            ib = bidx(bi, f2) if f2 is not None else (bi if b.sh[:-2] else ())
            return contract(n, lambda i: as_poly(fa(ia + (idx[-2], i))) * as_poly(fb(ib + (i, idx[-1]))))
        return SArr(tuple(bs) + (a.sh[-2], b.sh[-1]), k, Fn(fn))
    sh = a.sh[:-1] + (b.sh[1:] if len(b.sh) > 1 else ())
    na = len(a.sh) - 1

    def fn(idx):
        ia, ib = idx[:na], idx[na:]
        return contract(n, lambda i: as_poly(fa(ia + (i,))) * as_poly(fb((i,) + ib)))
    return scalar_or(SArr(sh, k, Fn(fn)))


def _bool_matmul(a, b):
    n = a.sh[-1]
    fa, fb = a.snap(), b.snap()
    na = len(a.sh) - 1
    if not same_dim(n, b.sh[0]):
        raise ValueError("matmul: mismatch")

    def fn(idx):
        ia, ib = idx[:na], idx[na:]
        return T.or_(*[T.and_(as_bool(fa(ia + (T.const(i),))), as_bool(fb((T.const(i),) + ib))) for i in range(n)])
    return scalar_or(SArr(a.sh[:-1] + b.sh[1:], "b", Fn(fn)))


def dot(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.sh == () or b.sh == ():
        return a * b if not (a.sh == () and b.sh == ()) else a.item() * b.item()
    if len(a.sh) <= 2 and len(b.sh) <= 2:
        try:
            return matmul(a, b)
        except ValueError:
            raise ValueError("shapes not aligned")
    if len(b.sh) == 1:
        return matmul(a, b)
    raise Unsupported("dot with %d dimensions" % len(b.sh))


# --------------------------------------------------------------------------------------------- indexing
def nonzero(a):
    a = to_arr(a)
    f = a.snap()
    if len(a.sh) == 1:
        if isinstance(a.sh[0], int):
            ts = [as_bool(f((T.const(i),))) for i in range(a.sh[0])]
            if all(t in (T.TRUE, T.FALSE) for t in ts):
                ix = [i for i, t in enumerate(ts) if t is T.TRUE]
                return (SArr.from_terms((len(ix),), "i", [T.const(i) for i in ix]),)
        cnt, sel, rank = mask1(f, a.sh[0])
        return (SArr((cnt,), "i", lambda idx: sel(idx[0]), meta=("sel", rank)),)
    if a.concrete:
        ix = []
        for i in _np.ndindex(*a.sh):
            t = as_bool(f(tuple(T.const(j) for j in i)))
            if t is T.TRUE:
                ix.append(i)
            elif t is not T.FALSE:
                break
        else:
            return tuple(SArr.from_terms((len(ix),), "i", [T.const(i[d]) for i in ix]) for d in range(len(a.sh)))
    md = merge_dims(a.sh)
    n = T.ONE
    for d in a.sh:
        n = n * dp(d)
    cnt, sel, rank = mask1(lambda idx: f(md(idx[0])), n)
    return tuple(SArr((cnt,), "i", (lambda j: lambda idx: md(sel(idx[0]))[j])(j)) for j in range(len(a.sh)))


def mask1(f, n):
    """selection by a 1-d mask function"""
    iv = T.var("_mi", True)
    m = as_bool(f((iv,)))
    cnt, sel, rank = absfn.mask_sel(m, dp(n), iv)
    if m is T.TRUE:
        return dp(n), (lambda i: i), (lambda i: i)
    if m is T.FALSE:
        return T.ZERO, (lambda i: i), (lambda i: i)
    return cnt, sel, rank


class Axis:
    """one dimension of a selection"""


def norm_int(i, d):
    """normalise an integer index for dimension d, with a bounds obligation that forks to IndexError"""
    p = poly(i)
    if TRUSTED_INDEX and p is TRUSTED_INDEX[-1]:
        return p
    if not p.is_int:
        if isinstance(i, SNum) and i.isint:
            pass
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    D = dp(d)
    if p.is_const and D.is_const:
        c, n = p.const, D.const
        if c < -n or c >= n:
            raise IndexError("index %s is out of bounds for axis with size %s" % (c, n))
        return p if c >= 0 else p + D
    if p.is_const and p.const < 0:
        if not E.branch(T.le0(-(p + D))):
            raise IndexError("index out of bounds")
        return p + D
    if not known(T.le0(-p)):
        if E.branch(T.lt0(p)):
            if not E.branch(T.le0(-(p + D))):
                raise IndexError("index out of bounds")
            return p + D
    if not known(T.lt(p, D)) and not E.branch(T.lt(p, D)):
        raise IndexError("index out of bounds")
    return p


def slice_dim(s, d):
    """returns (length, start Poly, step int)"""
    step = 1 if s.step is None else unwrap_int(s.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    D = dp(d)
    allc = isinstance(d, int) and all(x is None or poly(x).is_const for x in (s.start, s.stop))
    if allc:
        ci = lambda x: None if x is None else int(poly(x).const)
        st, sp, stp = slice(ci(s.start), ci(s.stop), step).indices(d)
        return len(range(st, sp, stp)), T.const(st), stp
    if step == -1 and s.start is None and s.stop is None:
        return d, D - T.ONE, -1
    if step < 0:
        raise Unsupported("slice with a negative step")

    def bound(x, default):
        if x is None:
            return default
        p = poly(x)
        if p.is_const:
            if p.const < 0:
                q = p + D
                return q if known(T.le0(-q)) else T.ite(T.le0(-q), q, T.ZERO)
            return p if known(T.le(p, D)) else T.ite(T.le(p, D), p, D)
        if not known(T.le0(-p)):
            p = T.ite(T.le0(-p), p, T.ite(T.le0(-(p + D)), p + D, T.ZERO))
        return p if known(T.le(p, D)) else T.ite(T.le(p, D), p, D)
    a, b = bound(s.start, T.ZERO), bound(s.stop, D)
    ln = b - a
    if step != 1:
        ln = -T.floor((a - b).scale(Fraction(1, step)))
    if not known(T.le0(-ln)):
        ln = T.ite(T.le0(-ln), ln, T.ZERO)
    return unwrap_int(ln), a, step


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for k in key:
        if isinstance(k, _np.ndarray):
            k = to_arr(k)
        elif isinstance(k, (list, range)) or (hasattr(k, "seq_len") and not isinstance(k, SArr)):
            k = to_arr(k)
            if k.sh == (0,):
                k = SArr((0,), "i", lambda idx: T.ZERO)
        elif isinstance(k, (bool, _np.bool_, SBool)):
            raise Unsupported("indexing by a scalar boolean")
        if isinstance(k, SArr) and k.sh == () and k.kind == "i":
            k = k.item()
        out.append(k)
    used = 0
    for k in out:
        if k is None or k is Ellipsis:
            continue
        used += len(k.sh) if isinstance(k, SArr) and k.kind == "b" else 1
    if used > len(a.sh):
        raise IndexError("too many indices for array")
    if Ellipsis in [k for k in out if k is Ellipsis]:
        i = [j for j, k in enumerate(out) if k is Ellipsis][0]
        out[i:i + 1] = [slice(None)] * (len(a.sh) - used)
    else:
        out += [slice(None)] * (len(a.sh) - used)
    return out


def selection(a, key):
    """returns (shape, fwd(sel idx)->idx, inv(idx)->(cond, sel idx) or None, is_view, meta)"""
    key = expand_key(a, key)
    fancy = [k for k in key if isinstance(k, SArr)]
    if not fancy:
        sh = []
        axes = []       # per source dim: ('int', p) or ('sl', out position, start, step, length)
        d = 0
        newax = []
        for k in key:
            if k is None:
                newax.append(len(sh))
                sh.append(1)
            elif isinstance(k, slice):
                ln, st, step = slice_dim(k, a.sh[d])
                axes.append(("sl", len(sh), st, step, ln, st is T.ZERO and step == 1 and ln is a.sh[d] or
                             (isinstance(ln, int) and ln == a.sh[d] and st is T.ZERO and step == 1)))
                sh.append(ln)
                d += 1
            else:
                axes.append(("int", norm_int(k, a.sh[d])))
                d += 1
        nout = len(sh)

        def fwd(idx):
            out = []
            for ax in axes:
                if ax[0] == "int":
                    out.append(ax[1])
                else:
                    i = idx[ax[1]]
                    out.append(i if ax[5] else ax[2] + i.scale(ax[3]))
            return tuple(out)

        def inv(b):
            sel = [T.ZERO] * nout
            cond = []
            for x, ax in zip(b, axes):
                if ax[0] == "int":
                    cond.append(T.eq(x, ax[1]))
                elif ax[5]:
                    sel[ax[1]] = x
                else:
                    r = x - ax[2]
                    if ax[3] == 1:
                        q = r
                    elif ax[3] == -1:
                        q = -r
                    else:
                        q = T.floor(r.scale(Fraction(1, ax[3])))
                        cond.append(T.eq(q.scale(ax[3]), r))
                    cond.append(absfn.rng(q, dp(ax[4])))
                    sel[ax[1]] = q
            return T.and_(*cond), tuple(sel)
        return tuple(sh), fwd, inv, True, None
    # advanced indexing
    masks = [k for k in fancy if k.kind == "b"]
    ints = [k for k in fancy if k.kind != "b"]
    for k in ints:
        if k.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    # expand each key to source dims
    plan = []
    d = 0
    for k in key:
        if k is None:
            plan.append(("new",))
        elif isinstance(k, slice):
            plan.append(("sl", d, k))
            d += 1
        elif isinstance(k, SArr) and k.kind == "b":
            for j, s in enumerate(k.sh):
                if not same_dim(s, a.sh[d + j]):
                    raise IndexError("boolean index did not match indexed array")
            plan.append(("mask", d, k))
            d += len(k.sh)
        elif isinstance(k, SArr):
            plan.append(("ia", d, k))
            d += 1
        else:
            plan.append(("int", d, norm_int(k, a.sh[d])))
            d += 1
    adv = [i for i, p in enumerate(plan) if p[0] in ("mask", "ia")] + \
          [i for i, p in enumerate(plan) if p[0] == "int"]
    adv.sort()
    contiguous = adv == list(range(adv[0], adv[0] + len(adv)))
    pos = sum(1 for p in plan[:adv[0]] if p[0] in ("sl", "new")) if contiguous else 0
    # the broadcast shape of the advanced part
    parts = []
    shs = []
    for i in adv:
        p = plan[i]
        if p[0] == "mask":
            k = p[2]
            f = k.snap()
            if len(k.sh) == 1:
                if isinstance(k.sh[0], int):
                    ts = [as_bool(f((T.const(j),))) for j in range(k.sh[0])]
                    if all(t in (T.TRUE, T.FALSE) for t in ts):
                        ix = [j for j, t in enumerate(ts) if t is T.TRUE]
                        arr = SArr.from_terms((len(ix),), "i", [T.const(j) for j in ix])
                        parts.append(("ia", p[1], arr.snap(), arr.sh, False, a.sh[p[1]], arr))
                        shs.append(arr.sh)
                        continue
                cnt, sel, rank = mask1(f, k.sh[0])
                cnt = unwrap_int(cnt)
                parts.append(("mask", p[1], 1, sel, rank, f, (cnt,), lambda i: (i,)))
            else:
                md, fl = merge_dims(k.sh), merge_flat(k.sh)
                n = T.ONE
                for s in k.sh:
                    n = n * dp(s)
                cnt, sel, rank = mask1((lambda f, md: lambda idx: f(md(idx[0])))(f, md), n)
                cnt = unwrap_int(cnt)
                parts.append(("maskn", p[1], len(k.sh), (lambda sel, md: lambda i: md(sel(i)))(sel, md),
                              (lambda rank, fl: lambda ix: rank(fl(ix)))(rank, fl), f, (cnt,)))
            shs.append((cnt,))
        elif p[0] == "ia":
            k = p[2]
            nonneg = _nonneg_idx(k, a.sh[p[1]])
            parts.append(("ia", p[1], k.snap(), k.sh, not nonneg, a.sh[p[1]], k))
            shs.append(k.sh)
        else:
            parts.append(("int", p[1], p[2]))
            shs.append(())
    bsh, flags = broadcast(shs) if len(shs) > 1 else (shs[0], [[False] * len(shs[0])])
    nb = len(bsh)
    sh = []
    sl = {}
    outpos = 0
    done = False
    layout = []
    for i, p in enumerate(plan):
        if contiguous and i == adv[0] or (not contiguous and not done and i == 0 and False):
            for x in bsh:
                sh.append(x)
            done = True
        if p[0] == "sl":
            ln, st, step = slice_dim(p[2], a.sh[p[1]])
            sl[p[1]] = (len(sh), st, step, ln)
            sh.append(ln)
        elif p[0] == "new":
            sh.append(1)
    if not contiguous:
        sh = list(bsh) + sh
        sl = {k: (v[0] + nb,) + v[1:] for k, v in sl.items()}
        pos = 0
    else:
        pos = sum(1 for p in plan[:adv[0]] if p[0] in ("sl", "new"))
    nd = len(a.sh)

    def fwd(idx):
        out = [None] * nd
        bi = idx[pos:pos + nb]
        for part, fl in zip(parts, flags):
            if part[0] == "int":
                out[part[1]] = part[2]
            elif part[0] == "mask":
                out[part[1]] = part[3](bidx(bi, fl)[0])
            elif part[0] == "maskn":
                ix = part[3](bidx(bi, fl)[0])
                for j, x in enumerate(ix):
                    out[part[1] + j] = x
            else:
                v = part[2](bidx(bi, fl))
                if part[4]:
                    if v.is_const:
                        v = v if v.const >= 0 else v + dp(part[5])
                    else:
                        v = T.ite(T.lt0(v), v + dp(part[5]), v)
                out[part[1]] = v
        for dd, (o, st, step, ln) in sl.items():
            out[dd] = st + idx[o].scale(step)
        return tuple(out)

    inv = None
    masks = [p for p in parts if p[0] in ("mask", "maskn")]
    if len(masks) == 1 and all(p[0] == "int" for p in parts if p is not masks[0]):
        part = masks[0]
        ints = [p for p in parts if p is not part]

        def inv(b):
            sel = [T.ZERO] * len(sh)
            if part[0] == "mask":
                c = as_bool(part[5]((b[part[1]],)))
                sel[pos] = part[4](b[part[1]])
            else:
                ix = tuple(b[part[1] + j] for j in range(part[2]))
                c = as_bool(part[5](ix))
                sel[pos] = part[4](ix)
            cs = [c] + [T.eq(b[p[1]], p[2]) for p in ints]
            for dd, (o, st, step, ln) in sl.items():
                r = b[dd] - st
                if step != 1:
                    raise Unsupported("strided masked write")
                cs.append(absfn.rng(r, dp(ln)) if not (st is T.ZERO and ln is a.sh[dd]) else T.TRUE)
                sel[o] = r
            return T.and_(*cs), tuple(sel)
        inv.unsel = bool(ints)
    meta = None
    if len(parts) == 1 and parts[0][0] == "mask":
        meta = ("mask", a, parts[0][1], parts[0][4])
    fin = None
    if inv is None:
        # writes: exists a selected position hitting this index (scalar right-hand sides only)
        def fin(b, val=None):
            """condition that some selected position equals b, and the selected position"""
            vs = [T.fresh("w", True) for _ in range(nb)]
            conds = []
            small = all(isinstance(d, int) for d in bsh) and _np.prod(bsh, dtype=int) <= 64
            poss = [tuple(T.const(j) for j in ix) for ix in _np.ndindex(*bsh)] if small else [tuple(vs)]
            out = []
            for bi in poss:
                full = [T.ZERO] * len(sh)
                full[pos:pos + nb] = bi
                cs = []
                for dd, (o, st, step, ln) in sl.items():
                    r = b[dd] - st
                    full[o] = r
                    cs.append(absfn.rng(r, dp(ln)))
                m = fwd(tuple(full))
                for dd in range(nd):
                    if dd not in sl:
                        cs.append(T.eq(m[dd], b[dd]))
                out.append((T.and_(*cs), tuple(full)))
            if small:
                return "list", out
            c = T.and_(*([absfn.rng(v, dp(d)) for v, d in zip(vs, bsh)] + [out[0][0]]))
            return "exists", (vs, c, out[0][1])
    return tuple(sh), fwd, inv, False, (meta, fin)


def _nonneg_idx(k, d):
    """bounds of an integer index array: forks to IndexError if it can be out of range; True if known non-negative"""
    if k.concrete:
        nonneg = True
        for t in k.terms():
            if t.is_const and isinstance(d, int):
                if t.const >= d or t.const < -d:
                    raise IndexError("index %s is out of bounds for axis with size %s" % (t.const, d))
                if t.const < 0:
                    nonneg = False
            else:
                if t.is_const and t.const >= 0:
                    pass
                elif not known(T.le0(-t)):
                    nonneg = False
                if not known(T.and_(T.lt(t, dp(d)), T.le0(-(t + dp(d))))):
                    if not E.branch(T.and_(T.lt(t, dp(d)), T.le0(-(t + dp(d))))):
                        raise IndexError("index out of bounds")
        return nonneg
    vs = [T.fresh("ix", True) for _ in k.sh]
    t = k.get(tuple(vs))
    if t.is_const:
        # uniform
        if t.const >= 0:
            return True
        return False
    inb = T.and_(*[absfn.rng(v, dp(s)) for v, s in zip(vs, k.sh)])
    from . import prove
    nn = prove.entailed_quick(E.pc + [inb], T.le0(-t))
    hi = prove.entailed_quick(E.pc + [inb], T.lt(t, dp(d)))
    lo = nn or prove.entailed_quick(E.pc + [inb], T.le0(-(t + dp(d))))
    if not (hi and lo):
        bad = T.forall(vs, T.implies(inb, T.and_(T.lt(t, dp(d)), T.le0(-(t + dp(d))))))
        if not E.branch(bad):
            raise IndexError("index out of bounds")
    return nn


def index_get(a, key):
    sh, fwd, inv, is_view, meta = selection(a, key)
    if is_view:
        if sh == ():
            return wrapk(a.get(fwd(())), a.kind)
        return a._view(sh, fwd, inv)
    f = a.snap()
    r = SArr(sh, a.kind, lambda idx: f(fwd(idx)))
    if meta[0] is not None:
        r.meta = meta[0]
    return scalar_or(r)


def index_set(a, key, val):
    sh, fwd, inv, is_view, meta = selection(a, key)
    v = to_arr(val) if not is_scalar(val) else SArr.scalar(val)
    # broadcast v to sh
    vsh = list(v.sh)
    while len(vsh) > len(sh):
        if not (isinstance(vsh[0], int) and vsh[0] == 1):
            raise ValueError("could not broadcast input array into shape")
        v = v[0] if len(v.sh) > 1 else v.reshape(())
        v = to_arr(v)
        vsh = list(v.sh)
    fl = []
    off = len(sh) - len(vsh)
    for j, d in enumerate(vsh):
        t = sh[off + j]
        if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
            fl.append(True)
        elif same_dim(d, t):
            fl.append(False)
        elif not isinstance(d, int) and E.branch(T.eq(dp(d), T.ONE)):
            fl.append(True)
        else:
            raise ValueError("could not broadcast input array from shape into shape")
    g = v.snap()
    kd, ks = a.kind, v.kind

    def vat(s):
        ix = tuple(T.ZERO if f else x for f, x in zip(fl, s[off:]))
        return cast_from(g(ix), ks, kd)
    if inv is not None:
        def vat1(s):
            sv, absfn.UNSEL[0] = absfn.UNSEL[0], True
            try:
                return vat(s)
            finally:
                absfn.UNSEL[0] = sv
        a._set_content(inv, vat1 if getattr(inv, "unsel", False) else vat)
        return
    fin = meta[1]
    scalar = v.sh == () or all(fl)
    f0 = a.snap()

    def full(b):
        kind, data = fin(b)
        old = f0(b)
        if kind == "list":
            r = old
            for c, s in data:
                x = vat(s)
                r = T.bite(c, x, r) if kd == "b" else T.ite(c, x, r)
            return r
        vs, c, s = data
        if scalar:
            x = vat(tuple(T.ZERO for _ in sh))
            ex = T.exists(vs, c)
            return T.bite(ex, x, old) if kd == "b" else T.ite(ex, x, old)
        if len(vs) == 1:
            # last write wins
            w = absfn.last_true(c, dp(_dim_of(vs[0], sh, s)), vs[0])
            ex = T.exists(vs, c)
            x = vat(tuple(T.subst(q, {vs[0]: w}) for q in s))
            return T.bite(ex, x, old) if kd == "b" else T.ite(ex, x, old)
        raise Unsupported("scatter write with an array right-hand side")
    a._assign_all(full)


def _dim_of(v, sh, s):
    for d, x in zip(sh, s):
        if x is v:
            return d
    raise Unsupported("scatter write")
