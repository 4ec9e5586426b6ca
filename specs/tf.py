"""Transformations: arbitrary ones in proofs, random real ones in concrete runs."""
import numpy as _np
from specs import common as K

TR = "czone.transform.transform."


def mm(c, M):
    """an array or list of lists as rows of scalars"""
    return c.rows(M) if not isinstance(M, list) else M


def affine(c, M, o, p):
    """M (p - o) + o"""
    if o is None:
        return c.mulmv(M, p)
    return c.vadd(c.mulmv(M, c.vsub(p, o)), o)


def mirror(c, n, q, p):
    """mirror image in the plane through q with unit normal n"""
    return c.vsub(p, c.vscale(2 * c.vdot(c.vsub(p, q), n), n))


# ------------------------------------------------------------------------------------------------ abstract transformations
def abs_transform(c):
    """an arbitrary transformation: maps each point by itself, and bases to some 3x3 matrix"""
    if not hasattr(c, "_abs_transform"):
        B = c.cls(TR + "BaseTransform")
        T, A, P = c.T, c.arr, c.core.poly

        def points(self, pts):
            X = A.to_arr(pts)
            one = len(X.sh) == 1
            if one:
                X = X.expand(0)
            f = X.snap()
            k = P(self.k)
            r = A.SArr((X.sh[0], 3), "f", lambda idx: tmap(T, k, idx[1], [f((idx[0], T.const(j))) for j in range(3)]))
            return r[0] if one else r

        def bases(self, pts):
            X = A.to_arr(pts)
            k = P(self.k)
            es = [A.as_poly(x) for x in X.terms()]
            return A.SArr((3, 3), "f", lambda idx: T.app("tbase", [k, idx[0], idx[1]] + es))

        def alg(self, ob):
            raise T.Unsupported("surfaces under an arbitrary transformation")
        c._abs_transform = K.sub(c, B, "AbsTransform", {
            "__init__": lambda self: None,
            "applyTransformation": points, "applyTransformation_bases": bases, "applyTransformation_alg": alg,
            "params": property(lambda self: self.k),
            "locked": property(lambda self: c.core.SBool(T.bapp("tlocked", [P(self.k)]))),
            "basis_only": property(lambda self: c.core.SBool(T.bapp("tbonly", [P(self.k)]))),
        })
    return c._abs_transform


def tmap(T, k, j, x):
    return T.app("tmap", [k, j] + list(x))


def affine_facts(c):
    """the arbitrary transformations are affine: transformation k is x -> A_k x + b_k and turns bases B into A_k B"""
    T = c.T

    def A(k, i, j):
        return T.app("ta", [k, i, j])

    def lin(k, j, x):
        return [A(k, j, T.const(i)) * x[i] for i in range(3)]

    def tm(args):
        k, j, x = args[0], args[1], list(args[2:])
        s = T.app("tb", [k, j])
        for t in lin(k, j, x):
            s = s + t
        return [T.eq(T.app("tmap", args), s)]

    def tb(args):
        k, i, j, es = args[0], args[1], args[2], list(args[3:])
        if not j.is_const:
            return []
        s = T.ZERO
        for t in lin(k, i, [es[3 * a + int(j.const)] for a in range(3)]):
            s = s + t
        return [T.eq(T.app("tbase", args), s)]
    c.absfn.FACTS["tmap"] = tm
    c.absfn.FACTS["tbase"] = tb
    return A


def affine_chain(c, n, p0, v, B, q):
    """lemma: the image of p0 + B q under the first m is the image of p0 plus (bases B under the first m) q"""
    T, P = c.T, c.core.poly
    N = c.core.SNum
    A = affine_facts(c)
    x0 = [P(t) for t in p0]
    es = [P(t) for r in B for t in r]
    qs = [P(t) for t in q]
    x1 = [P(t) for t in v]

    def ch(m, j, x):
        return T.app("tchain", [m, T.const(j)] + list(x))

    def bc(m, i, j):
        return T.app("tbchain", [m, T.const(i), T.const(j)] + es)

    def gap(m, j):
        s = ch(m, j, x1) - ch(m, j, x0)
        for l in range(3):
            s = s - bc(m, j, l) * qs[l]
        return s

    def prop(k):
        return c.and_(*[c.core.SBool(T.eq(gap(P(k), j), T.ZERO)) for j in range(3)])

    def step(k):
        k = P(k)
        k1 = k + T.ONE
        for j in range(3):
            parts = []
            for x, sg in ((x1, 1), (x0, -1)):
                y = [ch(k, i, x) for i in range(3)]
                t = tmap(T, k, T.const(j), y)
                d = T.app("tb", [k, T.const(j)])
                for i in range(3):
                    d = d + A(k, T.const(j), T.const(i)) * y[i]
                parts += [(N(T.const(sg)), N(ch(k1, j, x) - t)), (N(T.const(sg)), N(t - d))]
            eb = [bc(k, a, b) for a in range(3) for b in range(3)]
            for l in range(3):
                t = T.app("tbase", [k, T.const(j), T.const(l)] + eb)
                d = T.ZERO
                for i in range(3):
                    d = d + A(k, T.const(j), T.const(i)) * bc(k, i, l)
                parts += [(N(-qs[l]), N(bc(k1, j, l) - t)), (N(-qs[l]), N(t - d))]
            for i in range(3):
                parts.append((N(A(k, T.const(j), T.const(i))), N(gap(k, i))))
            c.lincomb("affine maps keep lattice coordinates", N(gap(k1, j)), parts)
    c.induction("images of lattice sites", n, prop, step)
    return prop


class Seq:
    """list, after(m, p): the image of p under the first m, in order"""


def transforms(c, name, n):
    s = Seq()
    if c.sym:
        T, P, A = c.T, c.core.poly, c.arr
        cls = abs_transform(c)

        def chain(m, j, x):
            return T.app("tchain", [m, j] + list(x))

        def facts(args):
            m, j, x = args[0], args[1], list(args[2:])
            me = T.app("tchain", args)
            sel = T.ite(T.eq(j, T.ZERO), x[0], T.ite(T.eq(j, T.ONE), x[1], x[2]))
            prev = [chain(m - T.ONE, T.const(i), x) for i in range(3)]
            return [T.implies(T.eq(m, T.ZERO), T.eq(me, sel)), T.implies(T.lt0(-m), T.eq(me, tmap(T, m - T.ONE, j, prev)))]
        c.absfn.FACTS["tchain"] = facts

        def bchain(m, i, j, es):
            return T.app("tbchain", [m, i, j] + es)

        def bfacts(args):
            m, i, j, es = args[0], args[1], args[2], list(args[3:])
            me = T.app("tbchain", args)
            sel = T.ZERO
            for a in range(3):
                for b in range(3):
                    sel = T.ite(T.and_(T.eq(i, T.const(a)), T.eq(j, T.const(b))), es[3 * a + b], sel)
            prev = [bchain(m - T.ONE, T.const(a), T.const(b), es) for a in range(3) for b in range(3)]
            return [T.implies(T.eq(m, T.ZERO), T.eq(me, sel)),
                    T.implies(T.lt0(-m), T.eq(me, T.app("tbase", [m - T.ONE, i, j] + prev)))]
        c.absfn.FACTS["tbchain"] = bfacts
        from vc import rt

        def carry(v):
            if not isinstance(v, A.SArr) or v.kind == "b":
                return None
            f = v.snap()
            if len(v.sh) == 2 and v.sh[1] == 3 and v.sh[0] == 3 and getattr(c, "carry_bases", False):
                es = [A.as_poly(x) for x in v.terms()]
                return lambda k: A.SArr((3, 3), "f", lambda idx: bchain(k, idx[0], idx[1], es))
            if len(v.sh) == 2 and v.sh[1] == 3:
                return lambda k: A.SArr(v.sh, "f", lambda idx: chain(k, idx[1], [A.as_poly(f((idx[0], T.const(j)))) for j in range(3)]))
            if v.sh == (3,):
                return lambda k: A.SArr(v.sh, "f", lambda idx: chain(k, idx[0], [A.as_poly(f((T.const(j),))) for j in range(3)]))
            return None
        rt.CARRY.append(carry)
        s.list = K.seq(c, n, lambda k: K.make(cls, k=k))
        def after(m, p):
            if isinstance(m, int):
                for k in range(m):
                    p = [c.core.SNum(tmap(T, T.const(k), T.const(j), [P(x) for x in p])) for j in range(3)]
                return p
            return chain_at(m, p)
        s.after = after
        chain_at = lambda m, p: [c.core.SNum(chain(P(m), T.const(j), [P(x) for x in p])) for j in range(3)]
        s.bafter = lambda m, M: [[c.core.SNum(bchain(P(m), T.const(i), T.const(j), [P(x) for r in M for x in r])) for j in range(3)] for i in range(3)]
        s.is_member = lambda t, k: c.eq(t.k, k)
        return s
    rng = K.sub_rng(c, name)
    tm, am = c.mod("czone.transform.transform"), c.mod("czone.volume.algebraic")
    data = [rand_transform(tm, am, rng) for _ in range(n)]
    s.list = [d[0] for d in data]

    def after(m, p):
        p = _np.array(p, dtype=float)
        for k in range(int(m)):
            p = data[k][1](p)
        return p.tolist()

    def bafter(m, M):
        M = _np.array(M, dtype=float)
        for k in range(int(m)):
            M = data[k][2] @ M
        return M.tolist()
    s.after, s.bafter = after, bafter
    ids = list(s.list)
    s.is_member = lambda t, k: t is ids[int(k)]
    s.data = data
    return s


def rand_orthogonal(rng, det=1):
    Q = _np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if rng.random() < 0.3:
        Q = _np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], size=3)
    if _np.linalg.det(Q) * det < 0:
        Q = Q * _np.array([1, 1, -1.0])
    return Q


def rand_transform(tm, am, rng, kinds=None, rigid=False, **kw):
    """(transform, reference map of one point, linear part)"""
    k = rng.choice(kinds or (["T", "R", "I", "F"] + ([] if rigid else ["M"])))
    o = rng.normal(size=3) * 2 if rng.random() < 0.6 else None
    oo = _np.zeros(3) if o is None else o.copy()
    if k == "T":
        d = rng.normal(size=3) * 2
        d0 = d.copy()
        return tm.Translation(d if rng.random() < 0.7 else list(d), **kw), (lambda p: p + d0), _np.eye(3)
    if k == "F":
        n = rng.normal(size=3)
        q = rng.normal(size=3)
        P = am.Plane(n, q)
        u = n / _np.linalg.norm(n)
        return tm.Reflection(P, **kw), (lambda p: p - 2 * _np.dot(p - q, u) * u), _np.eye(3) - 2 * _np.outer(u, u)
    if k == "I":
        return tm.Inversion(origin=o, **kw), (lambda p: 2 * oo - p), -_np.eye(3)
    if k == "R":
        M = rand_orthogonal(rng)
        M0 = M.copy()
        return tm.Rotation(M, origin=o, **kw), (lambda p: M0 @ (p - oo) + oo), M0
    while True:
        M = rng.normal(size=(3, 3))
        if abs(_np.linalg.det(M)) > 0.2:
            break
    M0 = M.copy()
    return tm.MatrixTransform(M, origin=o, **kw), (lambda p: M0 @ (p - oo) + oo), M0
