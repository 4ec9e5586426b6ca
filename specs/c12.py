"""C12 Surface alignment brings two surfaces face to face."""
from vc.spec import Registry
from specs import common as K
from specs import tf
import numpy as _np

R = Registry()
MODULES = ("czone.transform.transform",)
TR = "czone.transform.transform."
A = "czone.volume.algebraic."


def by_contract(c, Q, nM, nT):
    """rot_vtv replaced by its contract (C11): for two non-zero vectors a proper rotation taking the direction of the first
    onto that of the second.  Q is the arbitrary such rotation for the normals at hand."""
    T, P = c.T, c.core.poly

    def rot_vtv(v, vt):
        c.E.functions.add(TR + "rot_vtv")
        a = [P(x) for x in c.vals(c.arr.to_arr(v).reshape(-1))]
        b = [P(x) for x in c.vals(c.arr.to_arr(vt).reshape(-1))]
        for s in (1, -1):
            if all(x is P(y).scale(s) for x, y in zip(a, nM)) and all(x is P(y).scale(-s) for x, y in zip(b, nT)):
                return Q
        M = c.rotation("other%d" % T.fresh("o").single_atom().id)
        la, lb = T.sqrt(sum((x * x for x in a), T.ZERO)), T.sqrt(sum((x * x for x in b), T.ZERO))
        c.E.need_nonzero(la)
        c.E.need_nonzero(lb)
        m = c.rows(M)
        for i in range(3):
            c.E.assume(T.eq(sum((P(m[i][j]) * a[j] for j in range(3)), T.ZERO) * T.inv(la), b[i] * T.inv(lb)))
        return M
    c.mod("czone.transform.transform").rot_vtv = rot_vtv


def contract(c, modular):
    nT = c.unit("nT")
    if c.sym and modular:
        # any unit normal of the moving plane with any rotation that takes it to -nT
        Q = c.rotation("Q")
        nM = Q.T @ (nT * -1)
        by_contract(c, Q, c.vals(nM), c.vals(nT))
    else:
        nM = c.unit("nM")
        if not c.sym:
            rng = K.sub_rng(c, "nm")
            k = rng.integers(0, 6)
            if k == 0:
                nM = nT.copy()
            elif k == 1:
                nM = -nT
            elif k == 2:
                nM = nT + rng.normal(size=3) * 10.0 ** rng.uniform(-9, -3)
    p, q = c.vec("p"), c.vec("q")
    M = c.cls(A + "Plane")(nM, p)
    T = c.cls(A + "Plane")(nT, q)
    nM = c.vals(M.normal)
    nT, p0, q0 = c.vals(nT), c.vals(p), c.vals(q)
    a, b = c.vec("a"), c.vec("b")
    a0, b0 = c.vals(a), c.vals(b)
    if not c.sym:
        k = K.sub_rng(c, "shape").integers(0, 3)
        a = a if k == 0 else a.reshape(1, 3) if k == 1 else a.tolist()
        b = b if k == 0 else b.tolist() if k == 1 else b.reshape(1, 3)
    t = c.call(TR + "s2s_alignment")(M, T, a, b)
    c.cover("aligned")
    f = lambda x: c.vals(t.applyTransformation(c.np.array(x)))
    # rigid: the linear part is a proper rotation
    z = f([0.0, 0.0, 0.0])
    L = c.transpose([c.vsub(f(e), z) for e in c.eye()])
    c.ensure("the linear part is orthogonal", c.meq(c.mulmm(L, c.transpose(L)), c.eye()))
    c.ensure("the linear part keeps the handedness", c.eq(c.det3(L), 1))
    x = c.vals(c.vec("x"))
    c.ensure("every point moves by the same rigid map", c.veq(f(x), c.vadd(c.mulmv(L, x), z)))
    c.ensure("the moved normal is opposite to the target normal", c.veq(c.mulmv(L, nM), c.vscale(-1, nT)))
    # a point of the moving plane
    off = c.vdot(c.vsub(x, p0), nM)
    y = f(c.vsub(x, c.vscale(off, nM)))
    c.ensure("the moved surface lies on the target surface", c.eq(c.vdot(c.vsub(y, q0), nT), 0))
    c.ensure("the moved reference point lies on the line through the target reference point along the normal",
             c.veq(c.vcross(c.vsub(f(a0), b0), nT), [0, 0, 0]))
    c.ensure("the surfaces are unchanged", c.and_(c.veq(c.vals(M.normal), nM), c.veq(c.vals(M.point), p0),
                                                 c.veq(c.vals(T.normal), nT), c.veq(c.vals(T.point), q0)))
    c.ensure("the points are unchanged", c.and_(c.veq(c.vals(c.np.array(a)), a0), c.veq(c.vals(c.np.array(b)), b0)))
    # the plane moved by the transformation itself
    M2 = t.applyTransformation_alg(M.from_alg_object())
    c.ensure("the moved plane faces the target", c.veq(c.vals(M2.normal), c.vscale(-1, nT)))
    c.ensure("the moved plane is the target plane", c.eq(c.vdot(c.vsub(c.vals(M2.point), q0), nT), 0))


R.proof("alignment of two surfaces", [TR + "s2s_alignment"], con=200)(lambda c: contract(c, True))
