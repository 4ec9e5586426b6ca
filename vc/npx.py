"""numpy as seen by the instrumented program: exact arrays over terms."""
import types
import numpy as _np
from . import terms as T
from .terms import Unsupported
from .core import E, SNum, SBool, poly, boolean, is_scalar, wrap, num, record, truncate, p_div, p_sign, p_round, \
    p_floordiv, p_mod, p_pow, unwrap_int, here, next_serial, p_max, p_min
from . import absfn
from .arr import (SArr, to_arr, broadcast, bidx, kmax, kind_of_dtype, kind_of_scalar, scalar_term, cast, cast_from,
                  scalar_or, dp, pub, same_dim, known, as_poly, as_bool, NAN, is_nan_term, dot, matmul, nonzero, Fn,
                  wrapk, contract, stack0, mask1, DT)
from .lists import SList, SymSeq, seq_of, is_seq, choose


class LinAlgError(ValueError):
    pass


def shape_of(s):
    if s is None:
        return ()
    if is_scalar(s):
        return (unwrap_int(s),)
    if isinstance(s, SArr):
        return tuple(unwrap_int(x) for x in s)
    return tuple(unwrap_int(x) for x in s)


def asarr(x):
    return to_arr(x)


def m1(f, kind=None):
    """elementwise function of one argument"""
    def g(x, *a, **k):
        x = asarr(x)
        return x._map(f, kind)
    return g


def m2(f, kind=None, both_int=True, force_poly=True):
    def g(x, y, *a, **k):
        x, y = asarr(x), asarr(y)
        return x._elem2(y, f, both_int=both_int, kind=kind, force_poly=force_poly)
    return g


def full(shape, v, kind):
    sh = shape_of(shape)
    for d in sh:
        if isinstance(d, T.Poly) and not known(T.le0(-d)):
            if E.branch(T.lt0(d)):
                raise ValueError("negative dimensions are not allowed")
    return SArr(sh, kind, lambda idx: v)


def f_zeros(shape, dtype=None, **k):
    kd = kind_of_dtype(dtype) or "f"
    return full(shape, T.FALSE if kd == "b" else T.ZERO, kd)


def f_ones(shape, dtype=None, **k):
    kd = kind_of_dtype(dtype) or "f"
    return full(shape, T.TRUE if kd == "b" else T.ONE, kd)


def f_full(shape, v, dtype=None, **k):
    kd = kind_of_dtype(dtype) or kind_of_scalar(v)
    return full(shape, cast(scalar_term(v), kd), kd)


def f_empty(shape, dtype=None, **k):
    kd = kind_of_dtype(dtype) or "f"
    sh = shape_of(shape)
    from .core import Serial
    n = next_serial()
    if kd == "b":
        return SArr(sh, kd, lambda idx: T.bapp("undef%d" % n, idx))
    return SArr(sh, kd, lambda idx: T.app("undef%d" % n, idx, kd == "i"))


def f_eye(n, m=None, dtype=None, **k):
    n = unwrap_int(n)
    m = n if m is None else unwrap_int(m)
    return SArr((n, m), kind_of_dtype(dtype) or "f", lambda idx: T.ite(T.eq(idx[0], idx[1]), T.ONE, T.ZERO))


def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SymSeq) or (is_seq(x) and not isinstance(x, SArr)):
        a = to_arr(x if isinstance(x, SList) else SList(x))
    else:
        a = to_arr(x)
    kd = kind_of_dtype(dtype) if dtype is not None else None
    a = a.fresh_copy(kd) if not isinstance(x, SArr) or copy or (kd and kd != a.kind) else a
    if isinstance(x, SArr) and kd in (None, a.kind):
        a.meta = x.meta
    while len(a.sh) < ndmin:
        a = a.expand(0)
    return a


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or kind_of_dtype(dtype) == x.kind):
        return x
    return f_array(x, dtype)


def f_arange(*a, **k):
    a = list(a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    lp, hp, sp = poly(lo), poly(hi), poly(st)
    kd = kmax(*[kind_of_scalar(x) for x in (lo, hi, st)], "i")
    if not sp.is_const:
        E.need_nonzero(sp)
        n = -T.floor((lp - hp) * T.inv(sp))
    else:
        n = -T.floor((lp - hp).scale(1 / sp.const))
    if not known(T.le0(-n)):
        n = T.ite(T.le0(-n), n, T.ZERO)
    return SArr((unwrap_int(n),), kd, lambda idx: lp + sp * idx[0])


def f_linspace(lo, hi, n=50, endpoint=True, **k):
    n = unwrap_int(n)
    lp, hp = poly(lo), poly(hi)
    den = dp(n) - T.ONE if endpoint else dp(n)
    if den.is_const and den.const == 0:
        return SArr((n,), "f", lambda idx: lp)
    E.need_nonzero(den)
    return SArr((n,), "f", lambda idx: lp + (hp - lp) * T.inv(den) * idx[0])


def f_concat(arrs, axis=0, **k):
    if is_seq(arrs) and not isinstance(arrs, SArr) and not isinstance(arrs.seq_len(), int):
        return concat_sym(arrs, axis)
    ps = [asarr(x) for x in arrs]
    if not ps:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        ps = [p.reshape(-1) for p in ps]
        axis = 0
    nd = len(ps[0].sh)
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd if -nd <= axis < nd else _ax_err(axis, nd)
    for p in ps[1:]:
        if len(p.sh) != nd:
            raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not same_dim(p.sh[i], ps[0].sh[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    kd = kmax(*[p.kind for p in ps])
    fs = [p.snap() for p in ps]
    offs = [T.ZERO]
    for p in ps:
        offs.append(offs[-1] + dp(p.sh[axis]))
    tot = unwrap_int(offs[-1])

    def fn(idx):
        i = idx[axis]
        r = None
        for j in range(len(fs) - 1, -1, -1):
            if dp(ps[j].sh[axis]) is T.ZERO:
                continue
            inside = T.le(offs[j], i)
            v = lambda: cast(fs[j](idx[:axis] + (i - offs[j],) + idx[axis + 1:]), kd)
            if inside is T.FALSE or (not inside.kind == "true" and known(T.not_(inside))):
                continue
            if inside is T.TRUE or j == 0 or known(inside):
                x = v()
                r2 = x
                if r is None:
                    return x
                r.append((T.TRUE, x))
                break
            if r is None:
                r = []
            r.append((inside, v()))
        if r is None:
            return T.FALSE if kd == "b" else T.ZERO
        out = r[-1][1]
        for c, x in reversed(r[:-1]):
            out = T.bite(c, x, out) if kd == "b" else T.ite(c, x, out)
        return out
    sh = ps[0].sh[:axis] + (tot,) + ps[0].sh[axis + 1:]
    return SArr(sh, kd, Fn(fn))


def _ax_err(axis, nd):
    raise _np.AxisError(axis, nd)


def concat_sym(seq, axis):
    n, at = (seq.sym if isinstance(seq, SList) else (seq.seq_len(), seq.seq_at))
    if axis not in (0, None):
        raise Unsupported("concatenation of a symbolic number of arrays along axis %r" % axis)
    if not E.branch(T.lt0(-dp(n))):
        raise ValueError("need at least one array to concatenate")
    kv = T.fresh("k", True)
    E.pc.append(absfn.rng(kv, dp(n)))
    try:
        el = asarr(at(kv))
        f = el.snap()
        gi = [T.fresh("gi", True) for _ in el.sh]
        m = dp(el.sh[0])
        t = f(tuple(gi))
    finally:
        E.pc.pop()
    for d in el.sh[1:]:
        if not isinstance(d, int) and kv.single_atom() in T.free_vars(d):
            raise Unsupported("concatenation of arrays with varying trailing dimensions")
    if kv.single_atom() not in T.free_vars(m) and m.is_const and m.const == 1:
        return SArr((n,) + el.sh[1:], el.kind, Fn(lambda idx: T.subst(t, dict([(kv, idx[0]), (gi[0], T.ZERO)] + list(zip(gi[1:], idx[1:]))))))
    tot, blk, off, flat = absfn.concat(m, dp(n), kv)

    def fn(idx):
        r = idx[0]
        return T.subst(t, dict([(kv, blk(r)), (gi[0], off(r))] + list(zip(gi[1:], idx[1:]))))
    return SArr((tot,) + el.sh[1:], el.kind, Fn(fn), meta=("concat", blk, off, flat))


def f_vstack(arrs, **k):
    if is_seq(arrs) and not isinstance(arrs, SArr) and not isinstance(arrs.seq_len(), int):
        src = arrs
        n, at = (src.sym if isinstance(src, SList) else (src.seq_len(), src.seq_at))
        kv = T.fresh("k", True)
        el = asarr(at(kv))
        if len(el.sh) < 2:
            return concat_sym(SList.symbolic(dp(n), lambda k_: asarr(at(k_)).expand(0)), 0)
        return concat_sym(arrs, 0)
    ps = [asarr(x) for x in arrs]
    ps = [p.reshape(1, -1) if len(p.sh) == 0 else p.expand(0) if len(p.sh) == 1 else p for p in ps]
    return f_concat(ps, 0)


def f_hstack(arrs, **k):
    if is_seq(arrs) and not isinstance(arrs, SArr) and not isinstance(arrs.seq_len(), int):
        return concat_sym(arrs, 0)
    ps = [asarr(x) for x in arrs]
    ps = [p.reshape(1) if len(p.sh) == 0 else p for p in ps]
    return f_concat(ps, 0 if len(ps[0].sh) == 1 else 1)


def f_dstack(arrs, **k):
    ps = [asarr(x) for x in arrs]
    out = []
    for p in ps:
        if len(p.sh) == 1:
            p = p.expand(0).expand(2)
        elif len(p.sh) == 2:
            p = p.expand(2)
        out.append(p)
    return f_concat(out, 2)


def f_stack(arrs, axis=0, **k):
    if isinstance(arrs, SArr):
        ps = [asarr(x) for x in arrs]
    elif is_seq(arrs) and not isinstance(arrs.seq_len(), int):
        a = to_arr(SList(arrs))
        if axis == 0:
            return a.fresh_copy()
        raise Unsupported("stack of a symbolic number of arrays along axis %r" % axis)
    else:
        ps = [asarr(x) for x in arrs]
    if not ps:
        raise ValueError("need at least one array to stack")
    nd = len(ps[0].sh)
    for p in ps[1:]:
        if len(p.sh) != nd or not all(same_dim(a, b) for a, b in zip(p.sh, ps[0].sh)):
            raise ValueError("all input arrays must have the same shape")
    if axis < 0:
        axis += nd + 1
    return f_concat([p.expand(axis) for p in ps], axis)


def f_append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        return f_concat([a.reshape(-1), v.reshape(-1)], 0)
    return f_concat([a, v], axis)


def f_where(c, *a):
    if not a:
        return nonzero(asarr(c))
    x, y = asarr(a[0]), asarr(a[1])
    c = asarr(c)
    sh, (fc, fx, fy) = broadcast([c.sh, x.sh, y.sh])
    gc, gx, gy = c.snap(), x.snap(), y.snap()
    kd = kmax(x.kind, y.kind)

    def fn(idx):
        b = as_bool(gc(bidx(idx, fc)))
        u, v = cast(gx(bidx(idx, fx)), kd), cast(gy(bidx(idx, fy)), kd)
        return T.bite(b, u, v) if kd == "b" else T.ite(b, u, v)
    return scalar_or(SArr(sh, kd, Fn(fn)))


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm of order %r" % (ord,))
    if ord == 2 and axis is None and len(x.sh) == 2:
        raise Unsupported("spectral norm")
    s = (x * x).sum(axis=axis, keepdims=keepdims) if x.kind != "b" else x.sum(axis=axis, keepdims=keepdims)
    return f_sqrt(s)


def f_sqrt(x):
    a = asarr(x)

    def f(t):
        t = as_poly(t)
        if t.is_const and t.const < 0:
            return NAN
        if not T._nonneg(t):
            E.need_nonneg(t)
        return T.sqrt(t)
    return a._map(f, "f")


def mat(a, n=None):
    a = asarr(a)
    if len(a.sh) < 2 or not all(isinstance(d, int) for d in a.sh[-2:]):
        raise Unsupported("linear algebra on a matrix of symbolic size")
    if a.sh[-1] != a.sh[-2]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return a


def det_terms(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = T.ZERO
    for j in range(n):
        if M[0][j] is T.ZERO:
            continue
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        d = M[0][j] * det_terms(minor)
        r = r + d if j % 2 == 0 else r - d
    return r


def adj_terms(M):
    n = len(M)
    if n == 1:
        return [[T.ONE]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(M) if k != i]
            d = det_terms(minor)
            out[j][i] = d if (i + j) % 2 == 0 else -d
    return out


def mat_at(f, pre, n):
    return [[as_poly(f(pre + (T.const(i), T.const(j)))) for j in range(n)] for i in range(n)]


def f_det(a):
    a = mat(a)
    f = a.snap()
    n = a.sh[-1]
    return scalar_or(SArr(a.sh[:-2], "f", Fn(lambda idx: det_terms(mat_at(f, idx, n)))))


OPAQUE = []     # spec-supplied contract of matrix inversion: rows of terms -> rows of terms


def f_inv(a):
    a = mat(a)
    f = a.snap()
    n = a.sh[-1]
    cache = {}

    def at(pre):
        k = tuple(p.id for p in pre)
        if k not in cache:
            M = mat_at(f, pre, n)
            if OPAQUE:
                cache[k] = OPAQUE[-1](M)
                return cache[k]
            d = det_terms(M)
            E.need_nonzero(d)
            di = T.inv(d)
            cache[k] = [[x * di for x in r] for r in adj_terms(M)]
        return cache[k]
    if len(a.sh) == 2:
        R = at(())
        return SArr.from_terms((n, n), "f", [R[i][j] for i in range(n) for j in range(n)])

    def fn(idx):
        if idx[-1].is_const and idx[-2].is_const:
            return at(idx[:-2])[int(idx[-2].const)][int(idx[-1].const)]
        R = at(idx[:-2])
        return SArr.from_terms((n, n), "f", [R[i][j] for i in range(n) for j in range(n)]).get(idx[-2:])
    return SArr(a.sh, "f", Fn(fn))


def f_solve(a, b):
    a, b = mat(a), asarr(b)
    if len(a.sh) == 2 and len(b.sh) <= 2:
        return matmul(f_inv(a), b)
    if len(b.sh) == len(a.sh) - 1:
        return matmul(f_inv(a), b.expand(-1)).squeeze(-1)
    return matmul(f_inv(a), b)


def f_cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if k.get("axis", -1) == 0 and len(a.sh) == len(b.sh) == 2:
        return f_cross(a.T, b.T).T
    if set(k) - {"axis"} or k.get("axis", -1) not in (-1, len(a.sh) - 1) or len(a.sh) != len(b.sh) and "axis" in k:
        raise Unsupported("cross product with %r" % (sorted(k),))
    if a.sh[-1] != 3 or b.sh[-1] != 3:
        raise Unsupported("cross product of non 3-vectors")
    sh, (fa, fb) = broadcast([a.sh, b.sh])
    ga, gb = a.snap(), b.snap()
    kd = kmax(a.kind, b.kind, "i")

    def fn(idx):
        i = idx[-1]
        if not i.is_const:
            return T.ite(T.eq0(i), fn(idx[:-1] + (T.ZERO,)), T.ite(T.eq(i, T.ONE), fn(idx[:-1] + (T.ONE,)), fn(idx[:-1] + (T.const(2),))))
        j, l = T.const((int(i.const) + 1) % 3), T.const((int(i.const) + 2) % 3)
        A = lambda q: as_poly(ga(bidx(idx[:-1] + (q,), fa)))
        B = lambda q: as_poly(gb(bidx(idx[:-1] + (q,), fb)))
        return A(j) * B(l) - A(l) * B(j)
    return SArr(sh, kd, Fn(fn))


def f_outer(a, b):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a.expand(1) * b.expand(0)


def f_logical(f):
    def g(x, y, *a, **k):
        x, y = asarr(x), asarr(y)
        return x._elem2(y, lambda p, q: f(as_bool(p), as_bool(q)), kind="b", force_poly=False)
    return g


def f_not(x, **k):
    return asarr(x)._map(lambda t: T.not_(as_bool(t)), "b")


def f_any(x, axis=None, **k):
    x = asarr(x)
    return x.any(axis=axis, **k) if x.sh else SBool(as_bool(x.get(())))


def f_all(x, axis=None, **k):
    x = asarr(x)
    return x.all(axis=axis, **k) if x.sh else SBool(as_bool(x.get(())))


def f_red(name):
    def g(x, axis=None, *a, **k):
        if isinstance(x, SymSeq):
            x = SList(x)
        return getattr(asarr(x), name)(axis=axis, **k)
    return g


def f_arg(which):
    def g(x, axis=None, **k):
        a = asarr(x)
        if len(a.sh) == 1 and isinstance(a.sh[0], int) and 1 < a.sh[0] <= 4 and axis in (None, 0, -1):
            # one path per position
            ts = [as_poly(t) if which == "min" else -as_poly(t) for t in a.terms()]
            for i in range(len(ts) - 1):
                if E.branch(T.and_(*[(T.lt if j < i else T.le)(ts[i], ts[j]) for j in range(len(ts)) if j != i])):
                    return i
            return len(ts) - 1
        return a.arg(which, axis)
    return g


def f_reshape(x, *s, **k):
    return asarr(x).reshape(*s, **k)


def f_allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    a, b = asarr(a), asarr(b)
    at, rt = T.const(atol), T.const(rtol)
    r = a._elem2(b, lambda x, y: T.le(T.absv(x - y), at + rt * T.absv(y)), kind="b")
    return SBool(boolean(r)) if is_scalar(r) else r.all()


def f_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    a, b = asarr(a), asarr(b)
    at, rt = T.const(atol), T.const(rtol)
    return a._elem2(b, lambda x, y: T.le(T.absv(x - y), at + rt * T.absv(y)), kind="b")


def f_array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if len(a.sh) != len(b.sh) or not all(same_dim(x, y) for x, y in zip(a.sh, b.sh)):
        return False
    r = (a == b)
    return SBool(boolean(r)) if is_scalar(r) else r.all()


def f_isnan(x):
    return asarr(x)._map(lambda t: is_nan_term(as_poly(t)), "b")


def f_count(x, axis=None, **k):
    x = asarr(x)
    return x._map(lambda t: as_bool(t), "b").sum(axis=axis) if x.sh else SNum(as_poly(x.get(())), True)


_UNIQ = []


def f_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = asarr(x)
    if axis is not None:
        raise Unsupported("unique along an axis")
    if len(x.sh) != 1:
        x = x.reshape(-1)
    n = x.sh[0]
    f = x.snap()
    if isinstance(n, int):
        ts = [as_poly(f((T.const(i),))) for i in range(n)]
        if all(t.is_const for t in ts):
            vals = sorted({t.const for t in ts})
            r = [SArr.from_terms((len(vals),), x.kind, [T.const(v) if x.kind != "b" else T.bconst(v) for v in vals])]
            cs = [t.const for t in ts]
            if return_index:
                r.append(SArr.from_terms((len(vals),), "i", [T.const(cs.index(v)) for v in vals]))
            if return_inverse:
                r.append(SArr.from_terms((n,), "i", [T.const(vals.index(v)) for v in cs]))
            if return_counts:
                r.append(SArr.from_terms((len(vals),), "i", [T.const(cs.count(v)) for v in vals]))
            return r[0] if len(r) == 1 else tuple(r)
    kv = T.var("_uk", True)
    v = as_poly(f((kv,)))
    U, F, L = absfn.unique_idx(v, dp(n), kv)
    vals = SArr((unwrap_int(U),), x.kind, lambda idx: f((F(idx[0]),)))
    _UNIQ[:] = _UNIQ[-15:] + [(U, F, L, f, dp(n))]
    r = [vals]
    if return_index:
        r.append(SArr((unwrap_int(U),), "i", lambda idx: F(idx[0])))
    if return_inverse:
        r.append(SArr((n,), "i", lambda idx: L(idx[0])))
    if return_counts:
        raise Unsupported("unique with counts")
    return r[0] if len(r) == 1 else tuple(r)


def np_sort(a, axis=-1):
    a = asarr(a)
    if len(a.sh) != 1:
        raise Unsupported("sort of a multi-dimensional array")
    n = a.sh[0]
    f = a.snap()
    if isinstance(n, int):
        ts = [as_poly(f((T.const(i),))) for i in range(n)]
        if all(t.is_const for t in ts):
            ts.sort(key=lambda t: t.const)
        else:
            # sorting network (bubble): exact, no forks
            for i in range(n):
                for j in range(n - 1 - i):
                    x, y = ts[j], ts[j + 1]
                    c = T.le(x, y)
                    ts[j], ts[j + 1] = T.ite(c, x, y), T.ite(c, y, x)
        return SArr.from_terms((n,), a.kind, ts)
    kv = T.var("_sk", True)
    P, Q = absfn.sort_perm(as_poly(f((kv,))), dp(n), kv)
    return SArr((n,), a.kind, lambda idx: f((P(idx[0]),)))


def f_argsort(a, axis=-1, **k):
    a = asarr(a)
    if len(a.sh) != 1:
        raise Unsupported("argsort of a multi-dimensional array")
    n = a.sh[0]
    f = a.snap()
    if isinstance(n, int):
        ts = [as_poly(f((T.const(i),))) for i in range(n)]
        if all(t.is_const for t in ts):
            order = sorted(range(n), key=lambda i: ts[i].const)
            return SArr.from_terms((n,), "i", [T.const(i) for i in order])
    kv = T.var("_sk", True)
    P, Q = absfn.sort_perm(as_poly(f((kv,))), dp(n), kv)
    return SArr((n,), "i", lambda idx: P(idx[0]))


def f_searchsorted(a, v, side="left", **k):
    a, v = asarr(a), asarr(v)
    f = a.snap()
    n = a.sh[0]
    if len(v.sh) == 1 and not isinstance(v.sh[0], int):
        # the sorted distinct values of an array, looked up for that array: the rank of each of its elements
        k1, k2 = T.var("_ssk", True), T.var("_ssv", True)
        g = v.snap()
        for U, F, L, h, m in _UNIQ:
            if dp(n) is dp(U) and dp(v.sh[0]) is m and as_poly(f((k1,))) is as_poly(h((F(k1),))) and as_poly(g((k2,))) is as_poly(h((k2,))):
                return SArr((v.sh[0],), "i", lambda idx: L(idx[0]) if side == "left" else L(idx[0]) + T.ONE)

    def one(x):
        kv = T.fresh("k", True)
        y = as_poly(f((kv,)))
        c = T.lt(y, as_poly(x)) if side == "left" else T.le(y, as_poly(x))
        if isinstance(n, int):
            r = T.ZERO
            for i in range(n):
                r = r + T.ite(T.subst(c, {kv: T.const(i)}), T.ONE, T.ZERO)
            return r
        return absfn.sum_sym(T.ite(c, T.ONE, T.ZERO), dp(n), kv)
    return v._map(one, "i")


def f_delete(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis = axis % len(a.sh)
    d = a.sh[axis]
    if isinstance(obj, slice):
        raise Unsupported("delete with a slice")
    if isinstance(d, int):
        o = asarr(obj)
        f0 = o.reshape(-1) if len(o.sh) != 1 else o
        ts = f0.terms()
        if o.kind == "b":
            keepm = [T.not_(as_bool(t)) for t in ts]
        else:
            keepm = []
            for i in range(d):
                keepm.append(T.and_(*[T.not_(T.or_(T.eq(t, T.const(i)), T.eq(t, T.const(i - d)))) for t in ts]))
            for t in ts:
                if not E.branch(T.and_(T.le(T.const(-d), t), T.lt(t, T.const(d)))):
                    raise IndexError("index out of bounds")
        mask = SArr.from_terms((d,), "b", keepm)
    else:
        o = asarr(obj)
        if o.kind == "b":
            mask = f_not(o)
        else:
            of = o.snap()
            if o.sh == ():
                t = as_poly(of(()))
                if not E.branch(T.and_(T.le(-d, t), T.lt(t, d))):
                    raise IndexError("index out of bounds")
                mask = SArr((d,), "b", lambda idx: T.not_(T.or_(T.eq(t, idx[0]), T.eq(t + d, idx[0]))))
            else:
                if len(o.sh) != 1:
                    o = o.reshape(-1)
                    of = o.snap()
                m = o.sh[0]
                if o.kind != "i" and not (isinstance(m, int) and m == 0):
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                jv = T.fresh("j", True)
                tj = as_poly(of((jv,)))
                inb = T.and_(T.le(-dp(d), tj), T.lt(tj, dp(d)))
                okall = T.forall([jv], T.implies(absfn.rng(jv, dp(m)), inb)) if not isinstance(m, int) else \
                    T.and_(*[T.subst(inb, {jv: T.const(i)}) for i in range(m)])
                if not E.branch(okall):
                    raise IndexError("index out of bounds")

                def hit(i):
                    g = lambda j: T.or_(T.eq(as_poly(of((j,))), i), T.eq(as_poly(of((j,))) + dp(d), i))
                    if isinstance(m, int):
                        return T.or_(*[g(T.const(j)) for j in range(m)])
                    j = T.fresh("j", True)
                    return T.exists([j], T.and_(absfn.rng(j, dp(m)), g(j)))
                mask = SArr((d,), "b", lambda idx: T.not_(hit(idx[0])))
    key = tuple([slice(None)] * axis + [mask])
    return a[key].fresh_copy() if isinstance(a[key], SArr) else a[key]


def f_transpose(a, axes=None):
    a = asarr(a)
    return a.transpose() if axes is None else a.transpose(*axes)


def f_minmax(f, name):
    def g(x, y, **k):
        x, y = asarr(x), asarr(y)
        return x._elem2(y, f)
    return g


def f_copy(x, **k):
    r = asarr(x).fresh_copy()
    if isinstance(x, SArr):
        r.meta = x.meta
    return r


def f_zeros_like(x, dtype=None, **k):
    x = asarr(x)
    kd = kind_of_dtype(dtype) or x.kind
    return full(x.sh, T.FALSE if kd == "b" else T.ZERO, kd)


def f_ones_like(x, dtype=None, **k):
    x = asarr(x)
    kd = kind_of_dtype(dtype) or x.kind
    return full(x.sh, T.TRUE if kd == "b" else T.ONE, kd)


def f_repeat(a, n, axis=None):
    a = asarr(a)
    n = unwrap_int(n)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    f = a.snap()
    axis = axis % len(a.sh)
    if not isinstance(n, int):
        raise Unsupported("repeat a symbolic number of times")
    d = a.sh[axis]
    sh = a.sh[:axis] + (unwrap_int(dp(d).scale(n)),) + a.sh[axis + 1:]
    from fractions import Fraction
    return SArr(sh, a.kind, Fn(lambda idx: f(idx[:axis] + (T.floor(idx[axis].scale(Fraction(1, n))),) + idx[axis + 1:])))


def f_tile(a, reps):
    a = asarr(a)
    reps = shape_of(reps)
    if any(not isinstance(r, int) for r in reps):
        raise Unsupported("tile a symbolic number of times")
    while len(a.sh) < len(reps):
        a = a.expand(0)
    reps = (1,) * (len(a.sh) - len(reps)) + tuple(reps)
    f = a.snap()
    sh = tuple(unwrap_int(dp(d).scale(r)) for d, r in zip(a.sh, reps))

    def fn(idx):
        return f(tuple(i if r == 1 else i - dp(d) * (T.quot(i, dp(d)) if not isinstance(d, int) else T.floor(i.scale(T.to_fraction(1) / d)))
                       for i, d, r in zip(idx, a.sh, reps)))
    return SArr(sh, a.kind, Fn(fn))


def f_isin(a, test, assume_unique=False, invert=False, **k):
    a, t = asarr(a), asarr(test)
    t = t.reshape(-1) if len(t.sh) != 1 else t
    g = t.snap()
    m = t.sh[0]

    def one(x):
        x = as_poly(x)
        if isinstance(m, int):
            r = T.or_(*[T.eq(x, as_poly(g((T.const(j),)))) for j in range(m)])
        else:
            j = T.fresh("j", True)
            r = T.exists([j], T.and_(absfn.rng(j, dp(m)), T.eq(x, as_poly(g((j,))))))
        return T.not_(r) if invert else r
    return a._map(one, "b")


def f_diag(a, **k):
    a = asarr(a)
    f = a.snap()
    if len(a.sh) == 1:
        n = a.sh[0]
        return SArr((n, n), a.kind, lambda idx: T.ite(T.eq(idx[0], idx[1]), f((idx[0],)), T.ZERO))
    return SArr((a.sh[0],), a.kind, lambda idx: f((idx[0], idx[0])))


def f_trace(a, **k):
    a = asarr(a)
    f = a.snap()
    r = T.ZERO
    for i in range(a.sh[0]):
        r = r + as_poly(f((T.const(i), T.const(i))))
    return SNum(r)


def f_einsum(sub, *ops, **k):
    """sums of products over axes of known size; an axis of unknown size only as a dot product of the last axes"""
    if k or not isinstance(sub, str) or "->" not in sub or "." in sub:
        raise Unsupported("einsum of this form")
    ins, out = sub.replace(" ", "").split("->")
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    if len(ins) != len(ops) or any(len(i) != len(o.sh) for i, o in zip(ins, ops)) or any(o.kind not in "if" for o in ops):
        raise Unsupported("einsum of these operands")
    dims = {}
    for i, o in zip(ins, ops):
        if len(set(i)) != len(i):
            raise Unsupported("einsum along a diagonal")
        for ch, n in zip(i, o.sh):
            if ch in dims:
                if isinstance(dims[ch], int) and isinstance(n, int) and 1 in (dims[ch], n) and dims[ch] != n or not same_dim(dims[ch], n):
                    raise ValueError("operands could not be broadcast together with remapped shapes")
                n = dims[ch] if isinstance(dims[ch], int) else n
            dims[ch] = n
    red = [ch for ch in dims if ch not in out]
    if any(not isinstance(dims[ch], int) for ch in red) or len(set(out)) != len(out) or any(ch not in dims for ch in out):
        raise Unsupported("einsum over an axis of unknown size")
    import itertools
    gs = [o.snap() for o in ops]

    def fn(idx):
        at = dict(zip(out, idx))
        tot = T.ZERO
        for v in itertools.product(*[range(dims[ch]) for ch in red]):
            at.update((ch, T.const(x)) for ch, x in zip(red, v))
            t = T.ONE
            for g, i in zip(gs, ins):
                t = t * as_poly(g(tuple(at[ch] for ch in i)))
            tot = tot + t
        return tot
    r = SArr(tuple(dims[ch] for ch in out), kmax(*[o.kind for o in ops]), Fn(fn))
    return r if out else r[()]


def f_swapaxes(a, i, j):
    a = asarr(a)
    ax = list(range(len(a.sh)))
    ax[i], ax[j] = ax[j], ax[i]
    return a.transpose(*ax)


def f_moveaxis(a, i, j):
    a = asarr(a)
    if not isinstance(i, int) or not isinstance(j, int):
        raise Unsupported("moving several axes")
    n = len(a.sh)
    ax = [x for x in range(n) if x != i % n]
    ax.insert(j % n, i % n)
    return a.transpose(*ax)


def f_full_like(x, v, dtype=None, **k):
    x = asarr(x)
    kd = kind_of_dtype(dtype) or x.kind
    return full(x.sh, cast(scalar_term(v), kd), kd)


def f_empty_like(x, dtype=None, **k):
    x = asarr(x)
    return f_empty(x.shape, dtype or {"b": bool, "i": int, "f": float}[x.kind])


def f_column_stack(xs):
    return f_concat([x.expand(1) if len(x.sh) == 1 else x for x in map(asarr, xs)], axis=1)


def f_hypot(x, y):
    x, y = asarr(x), asarr(y)
    return scalar_or(asarr(f_sqrt(x * x + y * y)))


def f_diff(a, n=1, axis=-1):
    a = asarr(a)
    if n != 1 or a.kind == "b":
        raise Unsupported("differences of this form")
    ix = [slice(None)] * len(a.sh)
    lo, hi = list(ix), list(ix)
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    return a[tuple(hi)] - a[tuple(lo)]


def f_flip(a, axis=None):
    a = asarr(a)
    ix = [slice(None)] * len(a.sh)
    for x in range(len(ix)) if axis is None else [axis] if isinstance(axis, int) else axis:
        ix[x] = slice(None, None, -1)
    return a[tuple(ix)]


def f_ptp(a, axis=None, **k):
    a = asarr(a)
    return a.max(axis=axis, **k) - a.min(axis=axis, **k)


def f_cumsum(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
    if k or len(a.sh) != 1 or not isinstance(a.sh[0], int):
        raise Unsupported("cumulative sums of this form")
    f, t, r = a.snap(), T.ZERO, []
    for i in range(a.sh[0]):
        v = f((T.const(i),))
        t = t + (T.ite(as_bool(v), T.ONE, T.ZERO) if a.kind == "b" else as_poly(v))
        r.append(SNum(t, a.kind != "f"))
    return f_array(r) if r else f_zeros((0,))


def f_tri(upper):
    def f(a, k=0):
        a = asarr(a)
        g = a.snap()
        k = T.const(k)
        z = T.FALSE if a.kind == "b" else T.ZERO

        def fn(idx):
            keep = T.le(idx[-2] + k, idx[-1]) if upper else T.le(idx[-1], idx[-2] + k)
            v = g(idx)
            return T.bite(keep, as_bool(v), z) if a.kind == "b" else T.ite(keep, as_poly(v), z)
        return SArr(a.sh, a.kind, Fn(fn))
    return f


def f_broadcast_to(a, shape, **k):
    a = asarr(a)
    sh, (fa, fb) = broadcast([a.sh, shape_of(shape)])
    g = a.snap()
    return SArr(sh, a.kind, Fn(lambda idx: g(bidx(idx, fa))))


def f_ix(*xs):
    xs = [asarr(x) for x in xs]
    if any(len(x.sh) != 1 or x.kind == "b" for x in xs):
        raise Unsupported("np.ix_ of this form")
    return tuple(x.reshape(*[-1 if i == j else 1 for j in range(len(xs))]) for i, x in enumerate(xs))


def f_argwhere(a):
    return f_stack(nonzero(asarr(a)), axis=1)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def f_expand(x, axis):
    x = asarr(x)
    if isinstance(axis, (tuple, list)):
        for a in sorted(axis):
            x = x.expand(a)
        return x
    return x.expand(axis)


def f_squeeze(x, axis=None):
    x = asarr(x)
    r = x.squeeze(axis)
    return r


def f_atleast(nd):
    def g(x):
        x = asarr(x)
        if nd == 2 and len(x.sh) == 1:
            return x.expand(0)
        while len(x.sh) < nd:
            x = x.expand(0)
        return x
    return g


def f_fix(x):
    return asarr(x)._map(lambda t: T.ite(T.le0(-as_poly(t)), T.floor(as_poly(t)), -T.floor(-as_poly(t))), "f")


def trig(name):
    def f(x):
        def one(t):
            t = as_poly(t)
            if t is T.ZERO:
                return {"cos": T.ONE}.get(name, T.ZERO) if name != "arccos" else T.pi().scale(T.to_fraction(1) / 2)
            return T.app(name, (t,))
        return asarr(x)._map(one, "f")
    return f


def f_ndenumerate(x):
    raise Unsupported("ndenumerate")


def f_meshgrid(*xs, indexing="xy", **k):
    xs = [asarr(x).reshape(-1) if len(asarr(x).sh) != 1 else asarr(x) for x in xs]
    n = len(xs)
    ds = [x.sh[0] for x in xs]
    out = []
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(ds[o] for o in order)
    for i, x in enumerate(xs):
        f = x.snap()
        p = order.index(i)
        out.append(SArr(sh, x.kind, (lambda f, p: lambda idx: f((idx[p],)))(f, p)))
    return SList(out)


# --------------------------------------------------------------------------------------------- masked arrays
class MArr:
    """np.ma.masked_array restricted to what czone uses"""

    def _digest(self, d):
        return ("m", d(self.data), d(self._mask))

    def __init__(self, data, mask=None):
        self.data = asarr(data).fresh_copy()
        self._serial = next_serial()
        object.__setattr__(self, "_mask", asarr(mask) if mask is not None else full(self.data.sh, T.FALSE, "b"))

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        record(self, "_mask", self._mask, lambda o, n: o._mask, lambda o, n, v: setattr(o, "_mask", v))
        m = asarr(m)
        if m.sh == ():
            m = full(self.data.sh, as_bool(m.get(())), "b")
        self._mask = m

    @property
    def shape(self):
        return self.data.shape

    def astype(self, t):
        return MArr(self.data.astype(t), self._mask)

    def compressed(self):
        m = self._mask
        if len(self.data.sh) > 1:
            return self.data.reshape(-1)[f_not(m.reshape(-1))]
        r = self.data[f_not(m)]
        if isinstance(r, SArr) and isinstance(self.data.sh[0], int):
            # what it holds: the entries that are not masked
            r.members = [(T.not_(as_bool(b)), as_poly(v)) for b, v in zip(m.terms(), self.data.terms())]
        return r

    def __getitem__(self, k):
        r = self.data[k]
        m = self._mask[k]
        if isinstance(r, SArr):
            return MArr(r, m)
        return r

    def seq_len(self):
        return self.data.sh[0]

    def seq_at(self, k):
        return MArr(self.data.seq_at(k), self._mask.seq_at(k))

    def __iter__(self):
        n = self.data.sh[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic masked array")
        return iter([self[i] for i in range(n)])


class MA:
    masked_array = array = MArr

    @staticmethod
    def compressed(x):
        return x.compressed()


# --------------------------------------------------------------------------------------------- random numbers
RNG_FACTS_DONE = set()


class SRng:
    """A generator whose draws are uninterpreted functions of (seed, draw number, index): every possible stream."""

    def __init__(self, seed):
        self._serial = next_serial()
        self.seed = seed          # Poly
        self.n = 0

    def _draw(self):
        record(self, "n", self.n, lambda o, n: o.n, lambda o, n, v: setattr(o, "n", v))
        k = self.n
        self.n = k + 1
        return dp(k) if isinstance(k, int) else poly(k)

    def _arr(self, size, fn, kind):
        if size is None:
            return wrapk(fn(()), kind)
        sh = shape_of(size)
        return SArr(sh, kind, Fn(fn))

    def uniform(self, low=0.0, high=1.0, size=None):
        k = self._draw()
        lo, hi = asarr(low), asarr(high)
        u = unit01
        if lo.sh == () and hi.sh == ():
            a, b = as_poly(lo.get(())), as_poly(hi.get(()))
            return self._arr(size, lambda idx: a + (b - a) * u(self.seed, k, idx), "f")
        raise Unsupported("uniform with array bounds")

    def random(self, size=None, **kw):
        return self.uniform(size=size)

    def rand(self, *size):
        return self.uniform(size=size if size else None)

    def integers(self, low, high=None, size=None, endpoint=False, **kw):
        if high is None:
            low, high = 0, low
        k = self._draw()
        lo, hi = poly(low), poly(high)
        if endpoint:
            hi = hi + T.ONE
        if not E.branch(T.lt(lo, hi)):
            raise ValueError("low >= high")
        return self._arr(size, lambda idx: randint(self.seed, k, lo, hi, idx), "i")

    def randint(self, low, high=None, size=None, **kw):
        return self.integers(low, high, size)

    def choice(self, a, size=None, replace=True, **kw):
        a = asarr(a) if not is_scalar(a) else f_arange(a)
        if kw.get("p") is not None or (size is not None and not replace):
            raise Unsupported("choice with probabilities or without replacement")
        n = a.sh[0]
        if not E.branch(T.lt0(-dp(n))):
            raise ValueError("a cannot be empty unless no samples are taken")
        k = self._draw()
        f = a.snap()
        if len(a.sh) != 1:
            if size is not None:
                raise Unsupported("choice of rows")
            return a[SNum(randint(self.seed, k, T.ZERO, dp(n), ()), True)]
        return self._arr(size, lambda idx: f((randint(self.seed, k, T.ZERO, dp(n), idx),)), a.kind)

    def standard_normal(self, size=None, **kw):
        k = self._draw()
        return self._arr(size, lambda idx: T.app("normal", (self.seed, k) + tuple(idx)), "f")

    def normal(self, loc=0.0, scale=1.0, size=None):
        k = self._draw()
        lo, sc = poly(loc), poly(scale)
        return self._arr(size, lambda idx: lo + sc * T.app("normal", (self.seed, k) + tuple(idx)), "f")

    def _digest(self, d):
        return ("r", d(SNum(self.seed, True)), d(self.n))

    def __deepcopy__(self, memo):
        r = SRng(self.seed)
        r.n = self.n
        return r

    def _subst_value(self, mp, memo):
        r = SRng(T.subst(self.seed, mp))
        r.n = self.n
        return r


def _u01_facts(name):
    def f(args):
        u = T.app(name, args)
        return [T.le0(-u), T.lt(u, T.ONE)]
    return f


def unit01(seed, k, idx):
    name = "u01_%d" % len(idx)
    absfn.FACTS.setdefault(name, _u01_facts(name))
    return T.app(name, (seed, k) + tuple(idx))


def randint(seed, k, lo, hi, idx):
    name = "rint_%d" % len(idx)
    if name not in absfn.FACTS:
        def f(args):
            r = T.app(name, args, True)
            return [T.implies(T.lt(args[2], args[3]), T.and_(T.le(args[2], r), T.lt(r, args[3])))]
        absfn.FACTS[name] = f
    return T.app(name, (seed, k, lo, hi) + tuple(idx), True)


_entropy = [0]
GLOBAL_RNG = SRng(T.var("global_seed", True))


def default_rng(seed=None):
    if isinstance(seed, SRng):
        return seed
    if seed is None:
        E.entropy += 1
        return SRng(T.fresh("entropy", True))
    return SRng(poly(seed))


class Random:
    default_rng = staticmethod(default_rng)
    Generator = SRng
    RandomState = None

    def __getattr__(self, n):
        if n in ("rand", "randint", "uniform", "random", "choice", "normal", "standard_normal"):
            return getattr(GLOBAL_RNG, n)
        raise Unsupported("np.random." + n)


class Linalg:
    norm = staticmethod(f_norm)
    inv = staticmethod(f_inv)
    det = staticmethod(f_det)
    solve = staticmethod(f_solve)
    LinAlgError = LinAlgError

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


class NPMeta(type):
    def __getattr__(cls, n):
        raise Unsupported("np." + n)


def S(f):
    return staticmethod(f)


class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SArr) or isinstance(x, _np.ndarray)


class ndarray(metaclass=NdMeta):
    pass


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and x.isint


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and not x.isint


class integer(metaclass=IntMeta):
    pass


class floating(metaclass=FloatMeta):
    pass


def f_issubdtype(a, b):
    try:
        k = kind_of_dtype(a)
    except Unsupported:
        return False
    if b is integer or b is _np.integer:
        return k == "i"
    if b is floating:
        return k == "f"
    if b in (int,):
        return k == "i"
    if b in (float,):
        return k == "f"
    if b in (bool, _np.bool_):
        return k == "b"
    raise Unsupported("issubdtype %r" % (b,))


class NP(metaclass=NPMeta):
    ndarray = ndarray
    integer = integer
    floating = floating
    bool_ = _np.bool_
    float64, float32, int64, int32 = _np.float64, _np.float32, _np.int64, _np.int32
    pi = SNum(T.pi())
    nan = float("nan")
    inf = float("inf")
    newaxis = None
    linalg = Linalg()
    random = Random()
    ma = MA
    finfo = S(lambda t=float: _np.finfo(getattr(t, "_real", t)))
    AxisError = _np.AxisError
    dtype = _np.dtype
    issubdtype = S(f_issubdtype)
    array = S(f_array)
    asarray = S(f_asarray)
    asanyarray = S(f_asarray)
    ascontiguousarray = S(f_asarray)
    copy = S(f_copy)
    zeros, ones, full, empty = S(f_zeros), S(f_ones), S(f_full), S(f_empty)
    zeros_like, ones_like = S(f_zeros_like), S(f_ones_like)
    eye, identity = S(f_eye), S(f_eye)
    arange, linspace = S(f_arange), S(f_linspace)
    concatenate, vstack, hstack, dstack, stack, append = S(f_concat), S(f_vstack), S(f_hstack), S(f_dstack), S(f_stack), S(f_append)
    row_stack = S(f_vstack)
    where, nonzero = S(f_where), S(lambda x: nonzero(asarr(x)))
    flatnonzero = S(lambda x: nonzero(asarr(x).reshape(-1))[0])
    sqrt = S(f_sqrt)
    dot, matmul = S(dot), S(lambda a, b: matmul(asarr(a), asarr(b)))
    inner = S(lambda a, b: dot(asarr(a), asarr(b)) if len(asarr(b).sh) == 1 else dot(asarr(a), asarr(b).T))
    cross, outer, einsum = S(f_cross), S(f_outer), S(f_einsum)
    logical_and = S(f_logical(lambda a, b: T.and_(a, b)))
    logical_or = S(f_logical(lambda a, b: T.or_(a, b)))
    logical_xor = S(f_logical(lambda a, b: T.not_(T.iff(a, b))))
    logical_not = S(f_not)
    invert = S(f_not)
    any, all = S(f_any), S(f_all)
    sum, prod, mean = S(f_red("sum")), S(f_red("prod")), S(f_red("mean"))
    min, max, amin, amax = S(f_red("min")), S(f_red("max")), S(f_red("min")), S(f_red("max"))
    argmin, argmax = S(f_arg("min")), S(f_arg("max"))
    abs = absolute = S(m1(lambda t: T.absv(as_poly(t))))
    fabs = abs
    sign = S(m1(lambda t: p_sign(as_poly(t))))
    floor = S(m1(lambda t: T.floor(as_poly(t)), "f"))
    ceil = S(m1(lambda t: -T.floor(-as_poly(t)), "f"))
    round = S(lambda x, decimals=0, **k: asarr(x).round(decimals) if isinstance(x, SArr) else SNum(p_round(poly(x)), getattr(x, "isint", False)))
    around = rint = round
    fix = trunc = S(f_fix)
    square = S(m1(lambda t: as_poly(t) * as_poly(t)))
    negative = S(m1(lambda t: -as_poly(t)))
    add = S(m2(lambda a, b: a + b))
    subtract = S(m2(lambda a, b: a - b))
    multiply = S(m2(lambda a, b: a * b))
    divide = true_divide = S(m2(p_div, both_int=False))
    floor_divide = S(m2(p_floordiv))
    mod = remainder = S(m2(p_mod))
    power = S(m2(p_pow))
    minimum = S(f_minmax(p_min, "min"))
    maximum = S(f_minmax(p_max, "max"))
    less = S(m2(lambda a, b: T.lt(a, b), "b"))
    less_equal = S(m2(lambda a, b: T.le(a, b), "b"))
    greater = S(m2(lambda a, b: T.lt(b, a), "b"))
    greater_equal = S(m2(lambda a, b: T.le(b, a), "b"))
    equal = S(lambda a, b: asarr(a) == b)
    not_equal = S(lambda a, b: asarr(a) != b)
    reshape, ravel = S(f_reshape), S(lambda x, **k: asarr(x).reshape(-1))
    transpose = S(f_transpose)
    squeeze, expand_dims = S(f_squeeze), S(f_expand)
    atleast_1d, atleast_2d = S(f_atleast(1)), S(f_atleast(2))
    allclose, isclose, array_equal = S(f_allclose), S(f_isclose), S(f_array_equal)
    isnan = S(f_isnan)
    isfinite = S(lambda x: f_not(f_isnan(x)))
    count_nonzero = S(f_count)
    unique, sort, argsort, searchsorted = S(f_unique), S(np_sort), S(f_argsort), S(f_searchsorted)
    delete, repeat, tile = S(f_delete), S(f_repeat), S(f_tile)
    isin = S(f_isin)
    in1d = S(f_isin)
    diag, trace = S(f_diag), S(f_trace)
    meshgrid = S(f_meshgrid)
    sin, cos, tan, arccos, arcsin, arctan = [S(trig(n)) for n in ("sin", "cos", "tan", "arccos", "arcsin", "arctan")]
    exp, log = S(trig("exp")), S(trig("log"))
    swapaxes, moveaxis, column_stack = S(f_swapaxes), S(f_moveaxis), S(f_column_stack)
    full_like, empty_like, hypot, diff = S(f_full_like), S(f_empty_like), S(f_hypot), S(f_diff)
    flip, flipud, fliplr = S(f_flip), S(lambda a: f_flip(a, 0)), S(lambda a: f_flip(a, 1))
    ptp, cumsum, triu, tril, broadcast_to, ix_, argwhere = S(f_ptp), S(f_cumsum), S(f_tri(True)), S(f_tri(False)), S(f_broadcast_to), S(f_ix), S(f_argwhere)
    deg2rad = radians = S(lambda x: x * SNum(T.pi()) / 180)
    rad2deg = degrees = S(lambda x: x * 180 / SNum(T.pi()))
    errstate = errstate
    isscalar = S(is_scalar)
    ndim = S(lambda x: len(asarr(x).sh))
    shape = S(lambda x: asarr(x).shape)
    size = S(lambda x: asarr(x).size)
    clip = S(lambda x, a, b, **k: asarr(x).clip(a, b))
    take = S(lambda a, i, axis=None, **k: asarr(a).take(i, axis))
    ndindex = S(_np.ndindex)
    c_ = r_ = None
    vectorize = None

    class typing:
        ArrayLike = object
        NDArray = object
