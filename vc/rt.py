"""Run-time support of the instrumented program: loops, comprehensions, displays, built-in functions."""
import builtins as _b
import copy as _copy
import types
import functools
import numpy as _np
from . import terms as T
from .terms import Unsupported
from . import core
from .core import (E, SNum, SBool, poly, boolean, is_scalar, explore_sub, PathEnd, Serial, serial_of, register_birth,
                   traced_setattr, UNBOUND, record, truncate, unwrap_int, wrap, here, Loc)
from . import absfn
from .arr import SArr, Buf, Fn, dp, pub, known, to_arr, kind_of_scalar, as_bool, as_poly, NAN
from .lists import (SList, SDict, SymSeq, seq_of, subst_value, depends, merge_values, sorted_list, cat_seq, choose, memo_at,
                    _content_get, _content_set)


class _Brk:
    def __repr__(self):
        return "BRK"


BRK = _Brk()
RET = "RET"


class PoisonUse(Unsupported):
    """a value carried over by a loop is used that has no common form before and after the first iteration"""


class Poison:
    """value of a variable that is not defined on every path"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise PoisonUse("use of %s at %s" % (object.__getattribute__(self, "_why"), here()))

    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = _bad
    __rsub__ = __mul__ = __rmul__ = __truediv__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __or__ = _bad
    __iadd__ = __neg__ = __matmul__ = _bad
    __hash__ = object.__hash__


def enter(q):
    E.functions.add(q)


def mklist(x):
    return SList(x)


def mkcat(*parts):
    """a list display with starred parts"""
    r = SList()
    for starred, x in parts:
        r.extend(x) if starred else r.append(x)
    return r


def mkdict(x):
    return SDict(x)


def mkset(x):
    return set_(x)


class SMap:
    """a dictionary built from a symbolic number of (key, value) pairs"""

    def __init__(self, n, at):
        self.n, self.at = n, at


class SSet:
    """the set of the numbers of a sequence: each once, in an order that is not specified"""

    def __init__(self, n, at, kind, members=None):
        self.src, self.members = (n, at), members
        kv = T.fresh("k", True)
        v = poly(at(kv))
        U, F, L = absfn.unique_idx(v, dp(n), kv)
        self.n, self.kind = absfn.length(U), kind
        nm = U.single_atom()
        perm, inv = "setord" + nm.name, "isetord" + nm.name
        ps = list(nm.args)
        if perm not in absfn.FACTS:
            def pf(args):
                k, q = args[-1], list(args[:-1])
                r = T.app(perm, args, True)
                u = T.app(nm.name, q, True)
                return [T.implies(absfn.rng(k, u), T.and_(absfn.rng(r, u), T.eq(T.app(inv, q + [r], True), k)))]

            def qf(args):
                k, q = args[-1], list(args[:-1])
                r = T.app(inv, args, True)
                u = T.app(nm.name, q, True)
                return [T.implies(absfn.rng(k, u), T.and_(absfn.rng(r, u), T.eq(T.app(perm, q + [r], True), k)))]
            absfn.FACTS[perm], absfn.FACTS[inv] = pf, qf
            absfn.META[perm] = ("perm",)
        self.index_of = lambda j: T.app(inv, ps + [L(j)], True)
        self._v = lambda k: SNum(T.subst(v, {kv: F(T.app(perm, ps + [k], True))}), kind == "i")

    def seq_len(self):
        return self.n

    def seq_at(self, k):
        return self._v(k)

    def s_len(self):
        return SNum(dp(self.n), True)

    def s_subst(self, mp):
        n, at = self.src
        ms = None if self.members is None else [(T.subst(b, mp), T.subst(v, mp)) for b, v in self.members]
        return SSet(unwrap_int(T.subst(dp(n), mp)), lambda k: subst_value(at(k), mp), self.kind, ms)


def mkdict_items(x):
    if isinstance(x, SList) and x.sym is not None:
        return SMap(*x.sym)
    return SDict(dict(list(x)))


def mkgen(x):
    return x


# --------------------------------------------------------------------------------------------- comprehensions
def comp(it, lam):
    return _comp(it, lam, False)


def comp_flat(it, lam):
    return _comp(it, lam, True)


def _comp(it, lam, flat):
    seq = seq_of(it) if not isinstance(it, (dict, set, frozenset, str)) else None
    if seq is None:
        out = SList()
        for x in it:
            for y in lam(x):
                if flat:
                    list.extend(out, list(y) if not isinstance(y, SList) else list.__iter__(y))
                else:
                    list.append(out, y)
        return out
    n, at = seq
    if isinstance(n, int):
        out = SList()
        for i in range(n):
            for y in lam(at(T.const(i))):
                if flat:
                    w = y if isinstance(y, list) else list(y)
                    if isinstance(w, SList) and w.sym is not None:
                        out.extend(w)
                    else:
                        for z in list.__iter__(w):
                            out.append(z) if out.sym is not None else list.append(out, z)
                else:
                    out.append(y) if out.sym is not None else list.append(out, y)
        return out
    if flat:
        # the loop that adds the parts one after the other
        out = SList()

        def body(x):
            for y in lam(x):
                out.extend(getattr(y, "same_as", y))
        for rule in FOR_RULES:
            if rule(n, at, body, [], "comprehension", 0) is not NotImplemented:
                return out
    kv = T.fresh("k", True)
    if not E.branch(T.lt0(-dp(n))):
        r = SList()
        if isinstance(it, SList):
            r.same_as = it
        return r
    pc0 = list(E.pc)
    E.assume(absfn.rng(kv, dp(n)))
    el = at(kv)
    paths = explore_sub(lambda: lam(el))
    E.pc = pc0
    bad = [(c, v) for c, st, v, ws, ex in paths if st == "raise"]
    if bad:
        X = T.or_(*[c for c, _ in bad])
        if exists_first(X, kv, n):
            k1 = E.last_witness
            lam(at(k1))
            raise PathEnd()
    good = [(c, v, ws) for c, st, v, ws, ex in paths if st == "ok"]
    for c, v, ws in good:
        if ws:
            raise Unsupported("comprehension with side effects at %s" % here())
    ones = [(c, v[0]) for c, v, ws in good if len(v) == 1]
    zeros = [c for c, v, ws in good if len(v) == 0]
    if not ones:
        return SList()
    val = ones[-1][1]
    for c, v in reversed(ones[:-1]):
        val = merge_values(c, v, val)
    memo = {}

    def elem(k):
        return subst_value(val, {kv: k})
    if flat:
        raise Unsupported("nested comprehension over a symbolic sequence")
    if not zeros:
        r = SList.symbolic(n, elem)
        if isinstance(it, SList) and (val is el or (isinstance(val, SNum) and isinstance(el, SNum) and val.p is el.p)):
            r.same_as = it
        return r
    mask = T.or_(*[c for c, _ in ones])
    cnt, sel, rank = absfn.mask_sel(mask, dp(n), kv)
    r = SList.symbolic(cnt, lambda k: elem(sel(k)))
    return r


def exists_first(X, kv, n):
    """fork on exists k in [0,n). X(k); on the true side E.last_witness is the first such k"""
    ex = T.exists([kv], T.and_(absfn.rng(kv, dp(n)), X))
    if not E.branch(ex):
        return False
    w = T.fresh("w", True)
    E.assume(absfn.rng(w, dp(n)))
    E.assume(T.subst(X, {kv: w}))
    j = T.fresh("j", True)
    E.assume(T.forall([j], T.implies(T.and_(T.le0(-j), T.lt(j, w)), T.not_(T.subst(X, {kv: j})))))
    E.last_witness = w
    return True


# --------------------------------------------------------------------------------------------- for loops
def for_(it, body, cells, qual, line):
    seq = seq_of(it) if not isinstance(it, (dict, set, frozenset, str)) else None
    if seq is None:
        for x in it:
            r = body(x)
            if r is not None:
                return r
        return None
    n, at = seq
    if isinstance(n, int):
        for i in range(n):
            r = body(at(T.const(i)))
            if r is not None:
                return r
        return None
    for rule in FOR_RULES:
        r = rule(n, at, body, cells, qual, line)
        if r is not NotImplemented:
            return r
    if not E.branch(T.lt0(-dp(n))):
        return None
    return run_loop(n, at, body, cells, qual, line, 2)


def run_loop(n, at, body, cells, qual, line, peel):
    mark, pc, nob, seen = len(E.trail), list(E.pc), len(E.obligations), set(E.oblig_seen)
    pre = []
    for name, get, put in cells:
        try:
            pre.append(get())
        except NameError:
            pre.append(UNBOUND)
    try:
        return Loop(n, at, body, cells, qual, line).run()
    except PoisonUse:
        if not peel:
            raise
    # the first iteration is executed by itself
    core.rollback(mark)
    E.pc = pc
    del E.obligations[nob:]
    E.oblig_seen = seen
    for (name, get, put), v in zip(cells, pre):
        if v is not UNBOUND:
            put(v)
    r = body(at(T.ZERO))
    if r is not None:
        return r
    n1 = dp(n) - T.ONE
    if not E.branch(T.lt0(-n1)):
        return None
    return run_loop(n1, lambda k: at(k + T.ONE), body, cells, qual, line, peel - 1)


class Comp:
    """one component of a loop-carried value: a function of index variables"""
    __slots__ = ("name", "idx", "kind", "v0", "new", "F", "slot", "H", "isint")


class Slot:
    """a loop-carried location"""

    def __init__(self, key, cur, put, label):
        self.key, self.v0, self.put, self.label = key, cur, put, label
        self.comps = []
        self.mode = None
        self.ph = None


CARRY = []            # spec-supplied candidate invariants: fn(value before) -> (k -> value after k iterations) or None


def sem_eq(a, b):
    """the two values are equal, as a formula; None if they cannot be compared"""
    if a is b:
        return T.TRUE
    if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
        return T.iff(boolean(a), boolean(b)) if is_scalar(a) and is_scalar(b) else None
    if is_scalar(a) or is_scalar(b):
        return T.eq(poly(a), poly(b)) if is_scalar(a) and is_scalar(b) else None
    if isinstance(a, SArr) and isinstance(b, SArr):
        if len(a.sh) != len(b.sh) or (a.kind == "b") != (b.kind == "b"):
            return None
        vs = [T.fresh("e", True) for _ in a.sh]
        x, y = a.get(tuple(vs)), b.get(tuple(vs))
        q = T.iff(as_bool(x), as_bool(y)) if a.kind == "b" else T.eq(as_poly(x), as_poly(y))
        return T.and_(*[T.eq(dp(i), dp(j)) for i, j in zip(a.sh, b.sh)],
                      T.forall(vs, T.implies(T.and_(*[absfn.rng(v, dp(d)) for v, d in zip(vs, a.sh)]), q)))
    if type(a) is not type(b):
        return None
    if hasattr(a, "__dict__"):
        if set(a.__dict__) != set(b.__dict__):
            return None
        r = [sem_eq(v, b.__dict__[k]) for k, v in a.__dict__.items()]
        return None if any(x is None for x in r) else T.and_(*r)
    try:
        return T.TRUE if a == b else T.FALSE
    except Exception:
        return None


def holds(b):
    if b is T.TRUE:
        return True
    if b is None or b is T.FALSE:
        return False
    from . import prove
    return prove.prove(list(E.pc), b, 8.0).status == "proved"


_loopn = [0]


def _mk_comp(slot, nidx, kind, v0, isint=False):
    c = Comp()
    _loopn[0] += 1
    c.name = "H%d" % _loopn[0]
    c.idx = [T.var("_hx%d" % i, True) for i in range(nidx)]
    c.kind = kind
    c.v0 = v0
    c.slot = slot
    c.new = None
    c.F = None
    c.isint = isint
    slot.comps.append(c)
    return c


def _H(c, idx):
    return T.bapp(c.name, idx) if c.kind == "b" else T.app(c.name, idx, c.isint)


class ValueSlot(Slot):
    """a variable or attribute holding a scalar, an array or something opaque"""
    loop = None
    inv = None
    tried = False
    notlist = False

    def prepare(self):
        v = self.v0
        if self.loop is not None and CARRY and not self.tried:
            self.tried = True
            for cand in CARRY:
                g = cand(v)
                if g is None:
                    continue
                b = sem_eq(v, g(T.ZERO))
                if holds(b):
                    self.inv = g
                    self.inv0 = b
                    break
        if self.inv is not None:
            self.mode = "inv"
            self.ph = self.inv(self.loop.kv)
            return self.ph
        if isinstance(v, (SBool, bool, _np.bool_)):
            self.mode = "bool"
            c = _mk_comp(self, 0, "b", lambda idx: boolean(v))
            self.ph = SBool(_H(c, ()))
        elif is_scalar(v):
            self.mode = "num"
            ki = kind_of_scalar(v)
            p0 = poly(v) if not (isinstance(v, float) and v != v) else NAN
            if isinstance(v, float) and v in (float("inf"), float("-inf")):
                p0 = T.const(10 ** 30 if v > 0 else -10 ** 30)
            c = _mk_comp(self, 0, "p", lambda idx: p0, ki == "i")
            self.isint = ki == "i"
            self.ph = SNum(_H(c, ()), ki == "i")
        elif isinstance(v, SArr):
            self.mode = "arr"
            f = v.snap()
            c = _mk_comp(self, len(v.sh), "b" if v.kind == "b" else "p", f, v.kind == "i")
            self.sh, self.akind = v.sh, v.kind
            self.ph = SArr(v.sh, v.kind, lambda idx: _H(c, idx))
        elif isinstance(v, tuple) and all(isinstance(x, SArr) or is_scalar(x) for x in v):
            self.mode = "opaque"
            self.ph = Poison("the value of %s carried over by a loop" % self.label)
        elif isinstance(v, SList) and not self.notlist:
            # a list that every iteration replaces by itself with at most one more element
            self.mode = "list"
            self.rule = ListSlot.__new__(ListSlot)
            self.rule.setmode, self.rule.v0 = False, _content_get(v, None)
            _loopn[0] += 1
            self.rule.hn = T.var("HL%d" % _loopn[0], True)
            E.pc.append(T.le(dp(v.seq_len()), self.rule.hn))
            ph = Poison("an element of a list built by a loop")
            self.ph = SList.symbolic(self.rule.hn, lambda k: ph)
        else:
            self.mode = "opaque"
            self.ph = Poison("the value of %s carried over by a loop" % self.label)
        return self.ph

    def merge(self, vals):
        """vals: [(cond, value)]"""
        if self.mode == "list":
            try:
                self.rule.merge([(c, _content_get(v, None)) for c, v in vals])
                assert not any(isinstance(v, Poison) for c, v in self.rule.items)
            except (Unsupported, AttributeError, TypeError, AssertionError):
                self.notlist = True
                raise Retry()
            return
        if self.mode == "inv":
            want = self.inv(self.loop.kv + T.ONE)
            self.steps = []
            for cond, v in vals:
                b = sem_eq(v, want)
                if b is not None:
                    b = T.implies(cond, b)
                if not holds(b):
                    self.inv = None
                    raise Retry()
                self.steps.append((list(E.pc), b))
            return
        if self.mode == "opaque":
            vs = [(c, v) for c, v in vals]
            r = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                if v is r:
                    continue
                if isinstance(v, Poison) or isinstance(r, Poison):
                    r = Poison("the value of %s after a loop" % self.label)
                    break
                r = merge_values(c, v, r)
            self.newval = r
            return
        c = self.comps[0]
        terms = []
        for cond, v in vals:
            if self.mode == "bool":
                t = boolean(v)
            elif self.mode == "num":
                if isinstance(v, SArr):
                    raise Unsupported("a loop turns a number into an array (%s)" % self.label)
                t = poly(v)
            else:
                if not isinstance(v, SArr) or len(v.sh) != len(self.sh):
                    raise Unsupported("a loop changes the shape of %s" % self.label)
                for a, b in zip(v.sh, self.sh):
                    if dp(a) is not dp(b) and not known(T.eq(dp(a), dp(b))):
                        raise Unsupported("a loop changes the shape of %s" % self.label)
                if v.kind != self.akind:
                    if {v.kind, self.akind} == {"i", "f"}:
                        self.akind = "f"
                        c.isint = False
                    else:
                        raise Unsupported("a loop changes the type of %s" % self.label)
                t = v.get(tuple(c.idx))
                t = as_bool(t) if c.kind == "b" else as_poly(t)
            terms.append((cond, t))
        r = terms[-1][1]
        for cond, t in reversed(terms[:-1]):
            r = T.bite(cond, t, r) if c.kind == "b" else T.ite(cond, t, r)
        c.new = r

    def final(self, m, fs):
        """value after m iterations"""
        if self.mode == "inv":
            return self.inv(m)
        if self.mode == "list":
            r = SList()
            _content_set(r, None, self.rule.final(m, fs))
            return r
        if self.mode == "opaque":
            v = self.newval
            if isinstance(v, Poison):
                return v
            return subst_value(v, {fs.kv: m - T.ONE})
        c = self.comps[0]
        if self.mode == "bool":
            return SBool(c.F(m, ()))
        if self.mode == "num":
            return SNum(c.F(m, ()), self.isint)
        F = c.F
        return SArr(self.sh, self.akind, lambda idx: F(m, idx))


class BufSlot(Slot):
    """the content of an array that existed before the loop"""

    def __init__(self, key, loc):
        Slot.__init__(self, key, loc.obj.fn, lambda v: _bufput(loc.obj, v), "an array")
        self.loc = loc

    def prepare(self):
        b = self.loc.obj
        f = self.v0
        k = b.kind
        c = _mk_comp(self, len(b.sh), "b" if k == "b" else "p", (lambda idx: as_bool(f(idx))) if k == "b" else (lambda idx: as_poly(f(idx))), k == "i")
        self.ph = Fn(lambda idx: _H(c, idx))
        return self.ph

    def merge(self, vals):
        c = self.comps[0]
        r = None
        for cond, f in reversed(vals):
            t = f(tuple(c.idx))
            t = as_bool(t) if c.kind == "b" else as_poly(t)
            r = t if r is None else (T.bite(cond, t, r) if c.kind == "b" else T.ite(cond, t, r))
        c.new = r

    def final(self, m, fs):
        F = self.comps[0].F
        return Fn(lambda idx: F(m, tuple(idx)))


def _bufput(b, f):
    record(b, "fn", b.fn, lambda o, n: o.fn, lambda o, n, v: setattr(o, "fn", v))
    b.fn = f


def same_value(a, b):
    """structurally the same value (identical terms)"""
    if a is b:
        return True
    if isinstance(a, SNum) or isinstance(b, SNum):
        return is_scalar(a) and is_scalar(b) and poly(a) is poly(b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        return is_scalar(a) and is_scalar(b) and boolean(a) is boolean(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, SArr):
        if len(a.sh) != len(b.sh) or any(dp(x) is not dp(y) for x, y in zip(a.sh, b.sh)):
            return False
        gi = tuple(T.fresh("gi", True) for _ in a.sh)
        return a.get(gi) is b.get(gi)
    if isinstance(a, (list, tuple)):
        if isinstance(a, SList) and (a.sym is not None or b.sym is not None):
            return False
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    if hasattr(a, "__dict__") and type(a).__module__.startswith("czone"):
        return set(a.__dict__) == set(b.__dict__) and all(same_value(v, b.__dict__[k]) for k, v in a.__dict__.items())
    try:
        return bool(a == b)
    except Exception:
        return False


def sub_leaves(t, h, name):
    """t - h with the subtraction pushed into the branches that depend on h"""
    d = t - h
    if name not in T.fun_names(d):
        return d
    a = t.single_atom()
    if a is not None and a.kind == "ite" and name not in T.fun_names(a.args[0]):
        return T.ite(a.args[0], sub_leaves(a.args[1], h, name), sub_leaves(a.args[2], h, name))
    return d


class ListSlot(Slot):
    """the content of a list that existed before the loop: appends, or assignment of the element of the iteration"""

    def __init__(self, key, loc, val=None):
        from .lists import _content_get, _content_set
        self.loc = loc
        self.setmode = val is not None and val[1] is not None and hasattr(val[1][1], "set")
        Slot.__init__(self, key, _content_get(loc.obj, None), None, "a list")

        def put(v):
            loc.obj._rec()
            _content_set(loc.obj, None, v)
        self.put = put

    def prepare(self):
        _loopn[0] += 1
        self.hn = T.var("HL%d" % _loopn[0], True)
        ph = Poison("an element of a list built by a loop")
        if self.setmode:
            if self.v0[1] is None:
                raise Unsupported("a loop assigns elements of a list of known length")
            n0, at0 = self.v0[1]
            kv = self.loop.kv

            def at(k):
                # iterations assign only their own element (checked by merge)
                if k is kv or known(T.eq(k, kv)):
                    return at0(k)
                return ph
            self.ph = ([], (n0, at))
            return self.ph
        self.ph = ([], (self.hn, lambda k: ph))
        E.pc.append(T.le0(-self.hn))
        return self.ph

    def merge_set(self, vals):
        kv = self.loop.kv
        items = []
        for cond, (lst, sym) in vals:
            if sym is None or dp(sym[0]) is not dp(self.v0[1][0]):
                raise Unsupported("a loop replaces a list")
            f, v = sym[1], None
            while f is not self.ph[1][1]:
                if not hasattr(f, "set") or not (f.set[0] is kv or known(T.eq(f.set[0], kv))):
                    raise Unsupported("a loop changes a list other than at the element of the iteration")
                if v is None:
                    v = f.set[1]
                f = f.set[2]
            items.append((cond, self.v0[1][1](kv) if v is None else v))
        self.items = items

    def final_set(self, m, fs):
        kv = fs.kv
        val = self.items[-1][1]
        for c, v in reversed(self.items[:-1]):
            val = merge_values(fs.close(c), v, val)
        val = fs.close_value(val)
        n0, at0 = self.v0[1]

        def at(k):
            if m is dp(n0) or known(T.lt(k, m)):
                return subst_value(val, {kv: k})
            return merge_values(T.lt(k, m), subst_value(val, {kv: k}), at0(k))
        return ([], (n0, memo_at(at)))

    def merge(self, vals):
        if self.setmode:
            return self.merge_set(vals)
        items = []
        for cond, (lst, sym) in vals:
            if sym is None:
                raise Unsupported("a loop replaces a list")
            n, at = sym
            d = dp(n) - self.hn
            if not d.is_const or d.const not in (0, 1):
                raise Unsupported("a loop changes a list other than by appending one element")
            if d.const == 1:
                items.append((cond, at(self.hn)))
            else:
                items.append((cond, None))
        self.items = items

    def final(self, m, fs):
        if self.setmode:
            return self.final_set(m, fs)
        kv = fs.kv
        ones = [(c, v) for c, v in self.items if v is not None]
        zeros = [c for c, v in self.items if v is None]
        old = self.v0
        if not ones:
            return old
        val = ones[-1][1]
        for c, v in reversed(ones[:-1]):
            val = merge_values(fs.close(c), v, val)
        val = fs.close_value(val)
        elem = memo_at(lambda k: subst_value(val, {kv: k}))
        if zeros:
            mask = fs.close(T.or_(*[c for c, _ in ones]))
            cnt, sel, rank = absfn.mask_sel(mask, m, kv)
            new = (cnt, lambda k: elem(sel(k)))
        else:
            new = (m, elem)
        lst, sym = old
        if sym is None and not lst:
            return ([], (unwrap_int(new[0]), new[1]))
        items = list(lst)
        if sym is None and new[0] is m:
            L = len(items)
            try:
                if all(same_value(items[j], elem(T.const(j - L))) for j in range(L)):
                    return ([], (m + T.const(L), memo_at(lambda k: elem(k - T.const(L)))))
            except Unsupported:
                pass
        at0 = sym[1] if sym is not None else (lambda k: items[int(k.const)] if k.is_const else choose(k, items))
        n0 = sym[0] if sym is not None else T.const(len(items))
        return ([], cat_seq([(dp(n0), at0), new]))


class Retry(Exception):
    """a candidate invariant is not one"""


class Loop:
    def __init__(self, n, at, body, cells, qual, line):
        self.n, self.at, self.body, self.cells, self.qual, self.line = dp(n), at, body, cells, qual, line

    def run(self):
        kv = self.kv = T.fresh("k", True)
        n = self.n
        ser_at = Serial.n
        pc0 = list(E.pc)
        E.assume(absfn.rng(kv, n))
        el = self.at(kv)
        serial0 = Serial.n
        pre = []
        for name, get, put in self.cells:
            try:
                v = get()
            except NameError:
                v = UNBOUND
            pre.append(v)
        slots = {}
        ob0 = len(E.obligations)
        while True:
            try:
                paths, start = self.rounds(slots, pre, pc0, ob0, ser_at, serial0, el)
                exits, goods, X = self.collect(slots, pre, pc0, paths)
                break
            except Retry:
                continue
        if not goods:
            # the first iteration always leaves
            r = self.body(self.at(T.ZERO))
            if r is None:
                self.left()
            return r
        E.pc = pc0
        for s in slots.values():
            if getattr(s, "mode", None) == "inv":
                E.oblige("loop invariant of %s holds before the loop" % s.label, s.inv0, kind="inv")
                for pc, b in s.steps:
                    sv, E.pc = E.pc, pc
                    E.oblige("loop invariant of %s is preserved" % s.label, b, kind="inv")
                    E.pc = sv
        self.solve([c for s in slots.values() for c in s.comps])
        # obligations of the body: carried values at iteration k
        self.close_obligations(ob0, pc0)
        X = self.close(X)
        if X is not T.FALSE and exists_first(X, kv, n):
            w = E.last_witness
            self.install(slots, pre, w, goods)
            r = self.body(self.at(w))
            if r is None:
                self.left()
            return r
        self.install(slots, pre, n, goods)
        return None

    def left(self):
        """the loop was found to leave here, and the body went on: a path that cannot be taken"""
        E.oblige("the loop at %s:%s leaves where it was found to leave" % (self.qual, self.line), T.FALSE, kind="inv")
        raise PathEnd()

    def rounds(self, slots, pre, pc0, ob0, ser_at, serial0, el):
        kv, n = self.kv, self.n
        for round_ in range(12):
            del E.obligations[ob0:]
            E.oblig_seen = {o for o in E.oblig_seen}  # keep
            E.pc = pc0 + [absfn.rng(kv, n)] if True else E.pc
            E.pc = list(pc0)
            E.assume(absfn.rng(kv, n))
            for s in slots.values():
                s.comps = []
                s.loop = self
                s.prepare()
            mark = len(E.trail)
            for key, s in slots.items():
                if key[0] != "cell":
                    s.put(s.ph)
            start = []
            for i, (name, get, put) in enumerate(self.cells):
                s = slots.get(("cell", i))
                v = s.ph if s is not None else (Poison("variable %s before assignment" % name) if pre[i] is UNBOUND else pre[i])
                start.append(v)

            def once():
                for (name, get, put), v in zip(self.cells, start):
                    put(v)
                r = self.body(el)
                return r, [get() for name, get, put in self.cells]
            seen = E.oblig_seen
            E.oblig_seen = set(seen)
            paths = explore_sub(once)
            core.rollback(mark)
            new = False
            for c, st, v, ws, ex in paths:
                for key, (loc, val) in ws.items():
                    if key in slots:
                        continue
                    for t in slots.values():
                        if getattr(t, "mode", None) == "list" and loc.obj is t.ph:
                            t.notlist = True
                            raise Retry()
                    s_ = serial_of(loc.obj)
                    if ser_at < s_ <= serial0:
                        raise Unsupported("loop at %s:%s changes the elements of a symbolic list" % (self.qual, self.line))
                    slots[key] = self.heap_slot(key, loc, val)
                    new = True
                if st == "ok":
                    for i, w in enumerate(v[1]):
                        if w is not start[i] and ("cell", i) not in slots and pre[i] is not UNBOUND:
                            name, get, put = self.cells[i]
                            slots[("cell", i)] = ValueSlot(("cell", i), pre[i], put, "variable " + name)
                            new = True
            if not new:
                break
        else:
            raise Unsupported("loop at %s:%s does not stabilise" % (self.qual, self.line))
        return paths, start

    def collect(self, slots, pre, pc0, paths):
        kv, n = self.kv, self.n
        # restore the cells
        for (name, get, put), v in zip(self.cells, pre):
            if v is not UNBOUND:
                put(v)
        E.pc = pc0
        exits = [(c, st, v) for c, st, v, ws, ex in paths if st == "raise" or v[0] is not None]
        goods = [(c, v, ws) for c, st, v, ws, ex in paths if st == "ok" and v[0] is None]
        X = T.or_(*[c for c, st, v in exits]) if exits else T.FALSE
        if not goods:
            return exits, goods, X
        E.pc = list(pc0)
        E.assume(absfn.rng(kv, n))
        for key, s in slots.items():
            vals = []
            for c, v, ws in goods:
                if key[0] == "cell":
                    vals.append((c, v[1][key[1]]))
                else:
                    vals.append((c, ws[key][1] if key in ws else s.ph))
            s.merge(vals)
        E.pc = pc0
        return exits, goods, X

    def heap_slot(self, key, loc, val=None):
        if isinstance(loc.obj, Buf):
            return BufSlot(key, loc)
        if isinstance(loc.obj, SList) and loc.name == "content":
            return ListSlot(key, loc, val)
        if isinstance(loc.obj, SDict):
            raise Unsupported("loop at %s:%s changes a dictionary" % (self.qual, self.line))
        cur = loc.get()

        def put(v, loc=loc):
            E.trail.append(Loc(loc.obj, loc.name, loc.get(), loc._get, loc._set))
            loc.put(v)
        return ValueSlot(key, cur, put, "attribute " + str(loc.name))

    def install(self, slots, pre, m, goods):
        first = m is T.ZERO
        for key, s in slots.items():
            if getattr(s, "mode", None) in ("opaque", "list"):
                if not known(T.lt0(-m)):
                    if not E.branch(T.lt0(-m)):
                        s.put(s.v0)
                        continue
            s.put(s.final(m, self))
        for i, (name, get, put) in enumerate(self.cells):
            if pre[i] is UNBOUND:
                vals = [(c, v[1][i]) for c, v, ws in goods]
                put(self.last_value(vals, m, name))

    def last_value(self, vals, m, name):
        bad = Poison("variable %s after a loop" % name)
        if any(isinstance(v, Poison) for _, v in vals):
            return bad
        try:
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = merge_values(c, v, r)
            if is_scalar(r) or isinstance(r, SArr):
                r = self.close_value(r)
                return subst_value(r, {self.kv: m - T.ONE})
            return bad
        except Unsupported:
            return bad

    # ------------------------------------------------------------------ closed forms
    def close(self, t):
        """replace the carried values by their closed forms at iteration kv"""
        names = T.fun_names(t)
        mp = {}
        for c in self.allcomps:
            if c.name in names:
                mp[c.name] = (lambda c: lambda args: c.F(self.kv, tuple(args)))(c)
        for _ in range(3):
            if not mp:
                break
            t = T.FunSubst(mp)(t)
            if not (T.fun_names(t) & set(mp)):
                break
        return t

    def close_value(self, v):
        if isinstance(v, SNum):
            return SNum(self.close(v.p), v.isint)
        if isinstance(v, SBool):
            return SBool(self.close(v.b))
        if isinstance(v, SArr):
            f = v.snap()
            return SArr(v.sh, v.kind, lambda idx: self.close(f(idx)), meta=v.meta)
        if isinstance(v, tuple):
            return tuple(self.close_value(x) for x in v)
        return v

    def close_obligations(self, ob0, pc0):
        obs = E.obligations[ob0:]
        del E.obligations[ob0:]
        for o in obs:
            g = self.close(o.goal)
            if g is T.TRUE and o.kind == "def":
                continue
            o.goal = g
            o.pc = [self.close(b) for b in o.pc]
            E.obligations.append(o)

    def solve(self, comps):
        self.allcomps = comps
        todo = list(comps)
        names = {c.name for c in comps}
        while todo:
            progress = False
            for c in list(todo):
                deps = (T.fun_names(c.new) & names) - {x.name for x in comps if x.F is not None}
                if deps <= {c.name}:
                    new = c.new
                    sub = {}
                    for x in comps:
                        if x.F is not None and x.name in T.fun_names(new):
                            sub[x.name] = (lambda x: lambda args: x.F(self.kv, tuple(args)))(x)
                    if sub:
                        new = T.FunSubst(sub)(new)
                    c.new = new
                    c.F = self.closed(c, new)
                    todo.remove(c)
                    progress = True
            if not progress:
                self.recursion(todo)
                break

    def closed(self, c, new):
        kv = self.kv
        idx = tuple(c.idx)
        v0 = c.v0

        def at(t, k, ix):
            return T.subst(t, dict([(kv, k)] + list(zip(c.idx, ix))))
        if c.name not in T.fun_names(new):
            def F(m, ix):
                if m is T.ZERO:
                    return v0(ix)
                a = at(new, m - T.ONE, ix)
                if known(T.lt0(-m)):
                    return a
                return T.bite(T.lt0(-m), a, v0(ix)) if c.kind == "b" else T.ite(T.lt0(-m), a, v0(ix))
            return F
        h = _H(c, idx)
        # only the own element?
        hv = T.fresh("h", c.isint) if c.kind != "b" else None
        new = own_index(new, c.name, idx)
        c.new = new
        occ = occurrences(new, c.name)
        own = all(tuple(o) == idx for o in occ)
        if own:
            r = self.pattern(c, new, h, at)
            if r is not None:
                return r
        return self.recursion([c])

    def pattern(self, c, new, h, at):
        kv, idx, v0, n = self.kv, tuple(c.idx), c.v0, self.n
        isb = c.kind == "b"
        ite = T.bite if isb else T.ite
        if new is h:
            return lambda m, ix: v0(ix)
        # element write at an index determined by the iteration: find k == e
        for q in eq_atoms(new, kv):
            p = q.args[0]
            a = kv.single_atom()
            co = [cc for mm, cc in p.d.items() if mm == ((a, 1),)]
            if len(co) != 1:
                continue
            e = kv - p.scale(1 / co[0])
            if a in T.free_vars(e) or not e.is_int:
                continue
            rest = replace_bool(new, q, T.FALSE)
            if rest is h:
                def F(m, ix, e=e):
                    ee = T.subst(e, dict(zip(c.idx, ix)))
                    inside = T.and_(T.le0(-ee), T.lt(ee, m))
                    w = at(new, ee, ix)
                    w = T.FunSubst({c.name: lambda args: v0(tuple(args))})(w)
                    if inside is T.TRUE or known(inside):
                        return w
                    return ite(inside, w, v0(ix))
                return F
        H = lambda val: T.FunSubst({c.name: lambda args: val})
        if isb:
            t1, t0 = H(T.TRUE)(new), H(T.FALSE)(new)
            if t0 is T.FALSE:
                return lambda m, ix: T.and_(v0(ix), self.all_below(at, t1, m, ix))
            if t1 is T.TRUE:
                return lambda m, ix: T.or_(v0(ix), T.not_(self.all_below(at, T.not_(t0), m, ix)))
            # contradictory / implied forms
            if valid(T.implies(t0, t1)):
                # set when t0, reset when not t1: value = exists k<m: t0(k) and forall j in (k,m): t1(j), or v0 and forall t1
                def F(m, ix):
                    k, j = T.fresh("k", True), T.fresh("j", True)
                    last = T.exists([k], T.and_(T.le0(-k), T.lt(k, m), at(t0, k, ix),
                                                T.forall([j], T.implies(T.and_(T.lt(k, j), T.lt(j, m)), at(t1, j, ix)))))
                    return T.or_(last, T.and_(v0(ix), self.all_below(at, t1, m, ix)))
                return F
            return None
        diff = sub_leaves(new, h, c.name)
        if c.name not in T.fun_names(diff):
            def F(m, ix):
                k = T.fresh("k", True)
                return v0(ix) + absfn.sum_sym(at(diff, k, ix), m, k)
            return F
        # decision list with leaves h or values free of h
        dec = decision(new, h, c.name)
        if dec is not None:
            cond, val = dec

            def F(m, ix):
                k = T.fresh("k", True)
                ck = at(cond, k, ix)
                if ck is T.TRUE:
                    w = at(val, m - T.ONE, ix)
                    return w if known(T.lt0(-m)) else T.ite(T.lt0(-m), w, v0(ix))
                ex = T.exists([k], T.and_(absfn.rng(k, m), ck))
                lt = absfn.last_true(ck, m, k)
                return T.ite(ex, at(val, lt, ix), v0(ix))
            return F
        # running minimum / maximum
        a = new.single_atom()
        if a is not None and a.kind == "ite":
            cnd, x, y = a.args
            for which in ("min", "max"):
                for f, hh, pos in ((x, y, True), (y, x, False)):
                    if hh is not h or c.name in T.fun_names(f):
                        continue
                    better = (T.lt(f, h), T.le(f, h)) if which == "min" else (T.lt(h, f), T.le(h, f))
                    cc = cnd if pos else T.not_(cnd)
                    if cc in better:
                        def F(m, ix, f=f, which=which):
                            k = T.fresh("k", True)
                            e = absfn.ext_sym(at(f, k, ix), m, k, which)[0]
                            z = v0(ix)
                            b = T.ite(T.lt(e, z), e, z) if which == "min" else T.ite(T.lt(z, e), e, z)
                            return b if known(T.lt0(-m)) else T.ite(T.lt0(-m), b, z)
                        return F
        return None

    def all_below(self, at, t, m, ix):
        k = T.fresh("k", True)
        b = at(t, k, ix)
        return absfn.every(k, m, b) if k.single_atom() in T.free_vars(b) else T.or_(T.le0(m), b)

    def recursion(self, comps):
        """name the loop by its body: an uninterpreted function of the number of iterations with its defining facts"""
        kv = self.kv
        comps = list(comps)
        terms = []
        mp = {}
        for i, c in enumerate(comps):
            mp[c.name] = (lambda i, c: lambda args: T.bapp("REC%d_%d" % (i, len(args)), args) if c.kind == "b" else
                          T.app("REC%d_%d" % (i, len(args)), args, c.isint))(i, c)
        for c in comps:
            terms.append(T.FunSubst(mp)(c.new))
        v0s = [c.v0(tuple(c.idx)) for c in comps]
        bound = [kv] + [T.var("_hx%d" % i, True) for i in range(max([len(c.idx) for c in comps] + [0]))]
        key, params, cts, cb, cps = absfn.canon(terms + v0s, bound)
        nc = len(comps)
        names = ["rec%d#%s" % (i, key) for i in range(nc)]

        def R(i, ps, m, ix):
            args = list(ps) + [m] + list(ix)
            return T.bapp(names[i], args) if comps[i].kind == "b" else T.app(names[i], args, comps[i].isint)
        for i, c in enumerate(comps):
            c.F = (lambda i, c: lambda m, ix: c.v0(tuple(ix)) if m is T.ZERO else R(i, params, m, ix))(i, c)
            if names[i] not in absfn.FACTS:
                kinds = [(x.kind, x.isint, len(x.idx)) for x in comps]
                np_ = len(params)

                def facts(args, i=i):
                    ps, m, ix = list(args[:np_]), args[np_], list(args[np_ + 1:])
                    me = R(i, ps, m, ix)
                    v = absfn.inst(cts[nc + i], cps, ps, cb, [m] + ix + [T.ZERO] * (len(cb) - 1 - len(ix)))
                    out = [T.implies(T.eq0(m), T.iff(me, v) if kinds[i][0] == "b" else T.eq(me, v))]
                    return out
                absfn.FACTS[names[i]] = facts

                def step(args, i=i):
                    ps, m, ix = list(args[:np_]), args[np_], list(args[np_ + 1:])
                    me = R(i, ps, m, ix)
                    b = absfn.inst(cts[i], cps, ps, cb, [m - T.ONE] + ix + [T.ZERO] * (len(cb) - 1 - len(ix)))
                    mp2 = {}
                    for j in range(nc):
                        mp2["REC%d_%d" % (j, kinds[j][2])] = (lambda j: lambda a: R(j, ps, m - T.ONE, a))(j)
                    b = T.FunSubst(mp2)(b)
                    return T.implies(T.lt0(-m), T.iff(me, b) if kinds[i][0] == "b" else T.eq(me, b))
                absfn.META[names[i]] = ("rec", step)
        return comps[0].F


def own_index(t, name, idx):
    """where the index is known to be another one, write the old value at that one as the value at the index itself"""
    a = t.single_atom() if isinstance(t, T.Poly) else None
    if a is None or a.kind != "ite" or name not in T.fun_names(t):
        return t
    q, x, y = a.args
    qs = set(q.args) if q.kind == "and" else {q}

    def same(o):
        return all(u is v or T.eq(u, v) in qs for u, v in zip(o, idx))
    occ = [o for o in occurrences(x, name) if tuple(o) != idx]
    if occ and all(same(o) for o in occ):
        isint = t.is_int
        x = T.FunSubst({name: lambda args: T.app(name, idx if same(args) else args, isint)})(x)
    return T.ite(q, x, own_index(y, name, idx))


def occurrences(t, name, acc=None, seen=None):
    """argument tuples of the applications of a function"""
    if acc is None:
        acc, seen = [], set()
    if t.id in seen or name not in T.fun_names(t):
        return acc
    seen.add(t.id)
    if isinstance(t, T.Poly):
        for a in t.atoms():
            if a.kind == "app" and a.name == name:
                acc.append(a.args)
            for x in a.args:
                occurrences(x, name, acc, seen)
    else:
        if t.kind == "app" and t.name == name:
            acc.append(t.args)
        for x in t.args:
            occurrences(x, name, acc, seen)
    return acc


def eq_atoms(t, kv, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    a = kv.single_atom()
    if t.id in seen or a not in T.free_vars(t):
        return acc
    seen.add(t.id)
    if isinstance(t, T.Poly):
        for x in t.atoms():
            for y in x.args:
                eq_atoms(y, kv, acc, seen)
    else:
        if t.kind == "eq":
            acc.append(t)
        for x in t.args:
            eq_atoms(x, kv, acc, seen)
    return acc


def replace_bool(t, q, val, memo=None):
    """replace the boolean q by val inside t"""
    if memo is None:
        memo = {}
    if t is q:
        return val
    r = memo.get(t.id)
    if r is not None:
        return r
    if isinstance(t, T.Poly):
        r = T.ZERO
        for m, c in t.d.items():
            p = T.const(c)
            for a, e in m:
                if a.kind == "var" or not a.args:
                    x = T.atom_poly(a)
                else:
                    x = T.rebuild_atom(a, [replace_bool(y, q, val, memo) for y in a.args])
                p = p * (x ** e if e > 0 else T.inv(x) ** (-e))
            r = r + p
    elif t.kind == "forall" or not t.args:
        r = t
    else:
        r = T.rebuild_bool(t, [replace_bool(y, q, val, memo) for y in t.args])
    memo[t.id] = r
    return r


def decision(t, h, name):
    """t as a decision list: (condition under which h is replaced, replacement); None if not of that form"""
    if t is h:
        return T.FALSE, T.ZERO
    if name not in T.fun_names(t):
        return T.TRUE, t
    a = t.single_atom()
    if a is None or a.kind != "ite" or name in T.fun_names(a.args[0]):
        return None
    x, y = decision(a.args[1], h, name), decision(a.args[2], h, name)
    if x is None or y is None:
        return None
    return T.bite(a.args[0], x[0], y[0]), T.ite(a.args[0], x[1], y[1])


def valid(b):
    from . import prove
    return b is T.TRUE or prove.entailed_quick([], b)


# --------------------------------------------------------------------------------------------- while loops
WHILE_RULES = []      # spec-supplied: fn(loop) -> handled?
FOR_RULES = []        # spec-supplied, for loops over sequences of symbolic length


def while_(cond, body, cells, qual, line):
    for rule in WHILE_RULES:
        r = rule(cond, body, cells, qual, line)
        if r is not NotImplemented:
            return r
    n = 0
    while True:
        if not cond():
            return None
        r = body()
        if r is not None:
            return r
        n += 1
        if n > 5000:
            raise Unsupported("while loop at %s:%s does not end" % (qual, line))


def closure_env(*fns):
    """the variables the condition and the body of a loop use"""
    env = {}
    for f in fns:
        for name, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                env[name] = cell.cell_contents
            except ValueError:
                pass
    return env


def digest(v, depth=0):
    """a key such that equal keys mean identical values (terms are hash-consed); None if there is no such key"""
    if v is None or isinstance(v, (str, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == "Module":
        return ("c", id(v) if not isinstance(v, str) else v)
    if isinstance(v, SBool):
        return ("b", id(v.b))
    if is_scalar(v):
        return ("s", poly(v).id) if not (isinstance(v, float) and v != v) else ("nan",)
    if isinstance(v, SArr):
        ix = tuple(T.var("_dg%d" % i, True) for i in range(len(v.sh)))
        t = v.get(ix)
        return ("a", v.kind, tuple(dp(d).id for d in v.sh), id(t) if not hasattr(t, "id") else t.id)
    if isinstance(v, SList):
        n = v.seq_len()
        if isinstance(n, int):
            r = tuple(digest(v.seq_at(T.const(i)), depth + 1) for i in range(n))
            return None if any(x is None for x in r) else ("l", r)
        r = digest(v.seq_at(T.var("_dgl%d" % depth, True)), depth + 1)
        return None if r is None else ("ls", dp(n).id, r)
    if isinstance(v, tuple):
        r = tuple(digest(x, depth) for x in v)
        return None if any(x is None for x in r) else ("t", r)
    f = getattr(v, "_digest", None)
    return f(digest) if f is not None else None


def invariant_loop(cond, body, cells, label, check, havoc, allowed=()):
    """The while rule.  check(when): obliges the invariant of the current state; havoc(inside): replaces what the loop may
    change by arbitrary values that satisfy the invariant (returns the names of the variables it set).  Every other variable
    of the loop is unusable afterwards; a body that writes to any object that havoc did not write to is refused."""
    serial0 = Serial.n
    check(label + " holds before the loop")
    inside = E.branch(T.bapp("inside", [T.fresh("inside", True)]))
    mark = len(E.trail)
    done = set(havoc(inside) or ())
    keys = {loc.key() for loc in E.trail[mark:]} | set(allowed)
    for name, get, put in cells:
        if name not in done:
            try:
                get()
            except NameError:
                continue
            put(Poison("variable %s set by a loop" % name))
    if not inside:
        if cond():
            raise PathEnd()
        return None
    if not cond():
        raise PathEnd()
    mark, ent = len(E.trail), E.entropy
    r = body()
    for loc in E.trail[mark:]:
        if serial_of(loc.obj) <= serial0 and loc.key() not in keys:
            raise Unsupported("a loop changes %s of %s, which its invariant does not describe" % (loc.name, type(loc.obj).__name__))
    if E.entropy != ent:
        raise Unsupported("a loop draws on an unseeded generator")
    if r is not None:
        return r
    check(label + " is preserved")
    raise PathEnd()


def poison(cells, done):
    for name, get, put in cells:
        if name not in done:
            try:
                get()
            except NameError:
                continue
            put(Poison("variable %s set by a loop" % name))


def frame(mark, serial0, keys, ent):
    for loc in E.trail[mark:]:
        if serial_of(loc.obj) <= serial0 and loc.key() not in keys:
            raise Unsupported("a loop changes %s of %s, which its invariant does not describe" % (loc.name, type(loc.obj).__name__))
    if E.entropy != ent:
        raise Unsupported("a loop draws on an unseeded generator")


def invariant_for(n, at, body, cells, label, check, havoc):
    """The for rule over a sequence of symbolic length n: check(k, when) obliges the invariant of the state after k iterations;
    havoc(k) replaces what the loop may change by arbitrary values that satisfy it."""
    serial0 = Serial.n
    n = dp(n)
    check(T.ZERO, label + " holds before the loop")
    inside = E.branch(T.bapp("inside", [T.fresh("inside", True)]))
    if inside:
        k = T.fresh("it", True)
        E.assume(absfn.rng(k, n))
    else:
        k = T.ite(T.lt0(-n), n, T.ZERO)
    mark = len(E.trail)
    done = set(havoc(k) or ())
    keys = {loc.key() for loc in E.trail[mark:]}
    poison(cells, done)
    if not inside:
        return None
    mark, ent = len(E.trail), E.entropy
    r = body(at(k))
    frame(mark, serial0, keys, ent)
    if r is not None:
        return r
    check(k + T.ONE, label + " is preserved")
    raise PathEnd()


def last_iteration(cond, body, cells, havoc):
    """The while rule without an invariant: after the loop, either its condition failed at once, or the state is that after
    executing the body from some state (in which every variable of the loop is unknown) with the condition failing.  Bodies
    that read what an earlier iteration set, or write to objects that havoc did not write to, are refused."""
    if not cond():
        return None
    serial0, mark = Serial.n, len(E.trail)
    done = havoc() or ()
    keys = {loc.key() for loc in E.trail[mark:]}
    poison(cells, done)
    mark, ent = len(E.trail), E.entropy
    r = body()
    frame(mark, serial0, keys, ent)
    if r is not None:
        return r
    if cond():
        raise PathEnd()
    return None


# --------------------------------------------------------------------------------------------- built-in functions
def forget(cond, body, cells):
    """every number the loop may change becomes an arbitrary number, every generator has made an arbitrary number of draws"""
    from .npx import SRng
    done = []
    for nm, get, put in cells:
        try:
            v = get()
        except Exception:
            continue
        if isinstance(v, (int, float, SNum)) and not isinstance(v, bool):
            put(SNum(T.fresh("any_" + nm, False)))
            done.append(nm)
    for v in closure_env(cond, body).values():
        if isinstance(v, SRng):
            v._draw()
            v.n = SNum(T.fresh("draws", True), True)
    return done


class _TypeLike(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class int_(metaclass=_TypeLike):
    _kind = "i"
    _real = int

    def __new__(cls, x=0, *a):
        if a or isinstance(x, str):
            return int(x, *a)
        if is_scalar(x) or isinstance(x, SArr):
            p = poly(x)
            q = truncate(p)
            return int(q.const) if q.is_const else SNum(q, True)
        return int(x)

    @classmethod
    def _check(cls, x):
        return isinstance(x, int) or (isinstance(x, SNum) and x.isint)


class float_(metaclass=_TypeLike):
    _kind = "f"
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return float(x)
        if isinstance(x, (SNum, SBool, SArr)):
            return SNum(poly(x), False)
        return float(x)

    @classmethod
    def _check(cls, x):
        return isinstance(x, float) or (isinstance(x, SNum) and not x.isint)


class bool_(metaclass=_TypeLike):
    _kind = "b"
    _real = bool

    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return SBool(boolean(x))
        return bool(x)

    @classmethod
    def _check(cls, x):
        return isinstance(x, (bool, SBool))


class list_(metaclass=_TypeLike):
    _real = list

    def __new__(cls, x=()):
        if isinstance(x, SArr):
            if isinstance(x.sh[0], int):
                return SList(list(x))
            r = SList.symbolic(x.sh[0], x.seq_at)
            if hasattr(x, "members"):
                r.members = x.members
            return r
        return SList(x)

    @classmethod
    def _check(cls, x):
        return isinstance(x, list)


class dict_(metaclass=_TypeLike):
    _real = dict

    def __new__(cls, *a, **k):
        return SDict(*a, **k)

    @classmethod
    def _check(cls, x):
        return isinstance(x, dict)


class set_(metaclass=_TypeLike):
    _real = set

    def __new__(cls, x=()):
        s = seq_of(x) if not isinstance(x, (set, dict, str)) else None
        if s is not None and not isinstance(s[0], int):
            return SSet(s[0], s[1], kind_of_scalar(s[1](T.fresh("k", True))), getattr(x, "members", None))
        return set(x) if s is None else set(s[1](T.const(i)) for i in range(s[0]))

    @classmethod
    def _check(cls, x):
        return isinstance(x, (set, SSet))


class str_(metaclass=_TypeLike):
    _real = str

    def __new__(cls, x="", *a, **k):
        f = getattr(x, "s_str", None)
        return f() if f is not None else str(x, *a, **k)

    @classmethod
    def _check(cls, x):
        return isinstance(x, str) or type(x).__name__ == "SymbolText"


class type_(metaclass=_TypeLike):
    _real = type

    def __new__(cls, x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, SNum):
            return int_ if x.isint else float_
        if isinstance(x, SBool):
            return bool_
        if isinstance(x, SList):
            return list_
        if isinstance(x, SDict):
            return dict_
        return type(x)

    @classmethod
    def _check(cls, x):
        return isinstance(x, type)


def b_len(x):
    f = getattr(x, "s_len", None)
    if f is not None:
        return f()
    return len(x)


def b_range(*a):
    ps = [poly(x) for x in a]
    for x, p in zip(a, ps):
        if not p.is_int and not (isinstance(x, SNum) and x.isint):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(p.is_const for p in ps):
        return range(*[int(p.const) for p in ps])
    lo, hi, st = (T.ZERO, ps[0], T.ONE) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else T.ONE)
    if not st.is_const or st.const not in (1, -1):
        raise Unsupported("symbolic range with a step")
    s = int(st.const)
    n = (hi - lo) if s == 1 else (lo - hi)
    if not known(T.le0(-n)):
        n = T.ite(T.le0(-n), n, T.ZERO)
    return SymSeq(n, lambda k: SNum(lo + k.scale(s), True))


def b_enumerate(x, start=0):
    s = seq_of(x)
    if s is None or isinstance(x, (dict, set)):
        return enumerate(x, start)
    n, at = s
    if isinstance(n, int):
        return [(i + start, at(T.const(i))) for i in range(n)]
    st = poly(start)
    return SymSeq(n, lambda k: (SNum(k + st, True), at(k)))


def b_zip(*xs):
    ss = [seq_of(x) if not isinstance(x, (dict, set)) else None for x in xs]
    if all(s is not None for s in ss) and any(not isinstance(s[0], int) for s in ss):
        n = dp(ss[0][0])
        for s in ss[1:]:
            m = dp(s[0])
            if m is n or known(T.le(n, m)):
                continue
            if known(T.le(m, n)):
                n = m
            else:
                n = T.ite(T.le(n, m), n, m)
        return SymSeq(n, lambda k: tuple(s[1](k) for s in ss))
    return zip(*[([s[1](T.const(i)) for i in range(s[0])] if s is not None else x) for s, x in zip(ss, xs)])


def b_map(f, *xs):
    if len(xs) == 1:
        return comp(xs[0], lambda x: [f(x)])
    return comp(b_zip(*xs), lambda t: [f(*t)])


def b_filter(f, xs):
    return comp(xs, lambda x: [x] if (f(x) if f is not None else x) else [])


def b_reversed(x):
    s = seq_of(x)
    if s is None:
        return reversed(x)
    n, at = s
    if isinstance(n, int):
        return [at(T.const(i)) for i in range(n - 1, -1, -1)]
    return SymSeq(n, lambda k: at(dp(n) - T.ONE - k))


def b_sum(x, start=0):
    s = seq_of(x)
    if s is None:
        return sum(x, start)
    n, at = s
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = r + at(T.const(i))
        return r
    a = to_arr(SList(x) if not isinstance(x, SArr) else x)
    return a.sum(axis=0) + start


def b_minmax(which):
    def f(*a, **k):
        key = k.get("key")
        if len(a) == 1:
            s = seq_of(a[0])
            items = None
            if s is not None:
                n, at = s
                if not isinstance(n, int):
                    if key is not None:
                        if SBool(T.le0(dp(n))):
                            if "default" in k:
                                return k["default"]
                            raise ValueError("%s() arg is an empty sequence" % which)
                        # the first of those with the least (greatest) key: the first of them sorted, which is stable
                        return sorted_list(a[0] if hasattr(a[0], "seq_len") else SList.symbolic(n, at), key, which == "max")[0]
                    return getattr(to_arr(SList(a[0]) if not isinstance(a[0], SArr) else a[0]), which)()
                items = [at(T.const(i)) for i in range(n)]
            else:
                items = list(a[0])
        else:
            items = list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("%s() arg is an empty sequence" % which)
        r = items[0]
        for x in items[1:]:
            if key is not None:
                kx, kr = key(x), key(r)
                if (kx < kr) if which == "min" else (kx > kr):
                    r = x
            elif isinstance(x, SNum) or isinstance(r, SNum):
                px, pr = poly(x), poly(r)
                c = T.lt(px, pr) if which == "min" else T.lt(pr, px)
                r = x if c is T.TRUE else r if c is T.FALSE else SNum(T.ite(c, px, pr), kind_of_scalar(x) == "i" and kind_of_scalar(r) == "i")
            else:
                if (x < r) if which == "min" else (x > r):
                    r = x
        return r
    return f


def b_any(x):
    s = seq_of(x)
    if s is not None and not isinstance(s[0], int):
        k = T.fresh("k", True)
        n, at = s
        return SBool(absfn.some(k, dp(n), boolean(at(k))))
    items = list(x) if s is None else [s[1](T.const(i)) for i in range(s[0])]
    if any(isinstance(i, SBool) for i in items) and all(isinstance(i, (SBool, bool)) for i in items):
        return SBool(T.or_(*[boolean(i) for i in items]))
    for i in items:
        if i:
            return True
    return False


def b_all(x):
    s = seq_of(x)
    if s is not None and not isinstance(s[0], int):
        k = T.fresh("k", True)
        n, at = s
        return SBool(absfn.every(k, dp(n), boolean(at(k))))
    items = list(x) if s is None else [s[1](T.const(i)) for i in range(s[0])]
    if any(isinstance(i, SBool) for i in items) and all(isinstance(i, (SBool, bool)) for i in items):
        return SBool(T.and_(*[boolean(i) for i in items]))
    for i in items:
        if not i:
            return False
    return True


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, (set, dict)):
        x = list(x)
    return sorted_list(x, key, reverse)


def b_tuple(x=()):
    return tuple(x)


def b_print(*a, **k):
    pass


def b_round(x, n=None):
    if isinstance(x, (SNum, SArr)):
        return x.__round__() if not n else Unsupported("round with digits")
    return round(x, n) if n is not None else round(x)


def make_builtins(loader):
    d = dict(_b.__dict__)
    d.update(type=type_, set=set_, str=str_, len=b_len, range=b_range, int=int_, float=float_, bool=bool_, list=list_, dict=dict_, enumerate=b_enumerate,
             zip=b_zip, map=b_map, filter=b_filter, reversed=b_reversed, sum=b_sum, min=b_minmax("min"), max=b_minmax("max"),
             any=b_any, all=b_all, sorted=b_sorted, print=b_print, round=b_round)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        return loader.import_(name, globals, locals, fromlist, level)
    d["__import__"] = imp

    def build_class(func, name, *bases, **kw):
        cls = _b.__build_class__(func, name, *bases, **kw)
        if "__setattr__" not in cls.__dict__ and not issubclass(cls, BaseException):
            cls.__setattr__ = traced_setattr
        return cls
    d["__build_class__"] = build_class
    return d


class CopyProxy:
    """copy: as the standard module, but objects made are known to be new"""

    @staticmethod
    def deepcopy(x, memo=None):
        memo = {} if memo is None else memo
        r = _copy.deepcopy(x, memo)
        for o in list(memo.values()):
            if type(o).__module__.startswith("czone") and hasattr(o, "__dict__"):
                register_birth(o)
        return r

    @staticmethod
    def copy(x):
        r = _copy.copy(x)
        if type(r).__module__.startswith("czone") and hasattr(r, "__dict__") and r is not x:
            register_birth(r)
        return r


class Stub:
    """a library that is not modelled: any call is unsupported"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Stub(self._name + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self._name)

    def __instancecheck__(self, x):
        return False

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, i):
        return self

    def __or__(self, o):
        return self


def unknown_module(full, fromlist):
    return Stub(full)
