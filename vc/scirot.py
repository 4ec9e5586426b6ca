"""Assumed contracts of scipy.spatial.transform.Rotation (and of sine and cosine)."""
from . import terms as T
from .terms import Unsupported
from .core import E, SNum, SBool, poly, is_scalar
from .arr import SArr, to_arr, as_poly, dp
from . import absfn, so3

ALIGN = []            # rotations (3x3 lists of terms) the spec knows about: see align_vectors


def sin_cos(t):
    """sine and cosine terms of an angle with sin^2 = 1 - cos^2"""
    t = as_poly(t)
    if t is T.ZERO:
        return T.ZERO, T.ONE
    s, c = T.app("sin", (t,)), T.app("cos", (t,))
    a = s.single_atom()
    if a not in T.RULES:
        T.add_rule(((a, 2),), T.ONE - c * c)
    return s, c


def sinc_cosc(q):
    """sin(t)/t and (1 - cos t)/t^2 as functions of q = t^2 (1 and 1/2 at 0), with sin^2 + cos^2 = 1"""
    s, c = T.app("sinc", (q,)), T.app("cosc", (q,))
    a = s.single_atom()
    if a not in T.RULES:
        T.add_rule(((a, 2),), c.scale(2) - q * c * c)
    return s, c


def hat(v):
    z = T.ZERO
    return [[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]]


def mmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(3)), T.ZERO) for j in range(3)] for i in range(3)]


def elementary(ax, t):
    s, c = sin_cos(t)
    o, z = T.ONE, T.ZERO
    return {"x": [[o, z, z], [z, c, -s], [z, s, c]], "y": [[c, z, s], [z, o, z], [-s, z, c]], "z": [[c, -s, z], [s, c, z], [z, z, o]]}[ax]


def eye():
    return [[T.ONE if i == j else T.ZERO for j in range(3)] for i in range(3)]


class Rotation:
    """one rotation, as its matrix"""

    def __init__(self, M):
        self.M = M

    def as_matrix(self):
        return SArr.from_terms((3, 3), "f", [x for r in self.M for x in r])

    def inv(self):
        return Rotation([[self.M[j][i] for j in range(3)] for i in range(3)])

    def apply(self, v):
        from . import npx
        return npx.NP.dot(to_arr(v), self.inv().as_matrix())

    def __mul__(self, o):
        return Rotation(mmul(self.M, o.M))

    @staticmethod
    def identity():
        return Rotation(eye())

    @staticmethod
    def from_rotvec(v, degrees=False):
        E.functions.add("scipy.spatial.transform.Rotation.from_rotvec")
        a = to_arr(v)
        if a.sh != (3,) or degrees is not False:
            raise Unsupported("from_rotvec of shape %r" % (a.sh,))
        v = [as_poly(x) for x in a.terms()]
        q = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        s, c = sinc_cosc(q)
        A = hat(v)
        A2 = mmul(A, A)
        I = eye()
        return Rotation([[I[i][j] + s * A[i][j] + c * A2[i][j] for j in range(3)] for i in range(3)])

    @staticmethod
    def from_euler(seq, angles, degrees=False):
        E.functions.add("scipy.spatial.transform.Rotation.from_euler")
        if not isinstance(seq, str) or degrees is not False or not seq or not (seq.isupper() or seq.islower()):
            raise Unsupported("from_euler(%r)" % (seq,))
        ang = [as_poly(x) for x in to_arr(angles).reshape(-1).terms()]
        if len(ang) != len(seq):
            raise ValueError("Expected `angles` to have as many values as axes")
        R = eye()
        for ax, t in zip(seq.lower(), ang):
            # capital letters: about the moving axes; small letters: about the fixed axes
            R = mmul(R, elementary(ax, t)) if seq.isupper() else mmul(elementary(ax, t), R)
        return Rotation(R)

    @staticmethod
    def from_matrix(m):
        a = to_arr(m)
        if a.sh != (3, 3):
            raise Unsupported("from_matrix")
        t = [as_poly(x) for x in a.terms()]
        return Rotation([t[0:3], t[3:6], t[6:9]])

    @staticmethod
    def align_vectors(a, b, weights=None, return_sensitivity=False):
        """contract: a rotation C that minimises the sum of |a_i - C b_i|^2; so if some rotation Q takes every b_i to a_i, so
        does C.  The implication is instantiated at the rotations in ALIGN."""
        E.functions.add("scipy.spatial.transform.Rotation.align_vectors")
        if weights is not None or return_sensitivity:
            raise Unsupported("align_vectors with weights")
        A, B = to_arr(a), to_arr(b)
        if len(A.sh) != 2 or len(B.sh) != 2:
            raise Unsupported("align_vectors of single vectors")
        if dp(A.sh[0]) is not dp(B.sh[0]):
            if not E.branch(T.eq(dp(A.sh[0]), dp(B.sh[0]))):
                raise ValueError("Expected inputs `a` and `b` to have same shapes")
        n = dp(A.sh[0])
        M = so3.matrix("aligned%d" % next(_n), 1)
        fa, fb = A.snap(), B.snap()

        def maps(Q, i):
            bi = [as_poly(fb((i, T.const(j)))) for j in range(3)]
            return T.and_(*[T.eq(sum((Q[r][j] * bi[j] for j in range(3)), T.ZERO), as_poly(fa((i, T.const(r))))) for r in range(3)])
        i = T.fresh("i", True)
        j = T.fresh("i", True)
        for Q in ALIGN:
            h = T.forall([i], T.implies(absfn.rng(i, n), maps(Q, i)))
            g = T.forall([j], T.implies(absfn.rng(j, n), maps(M, j)))
            from . import prove
            if h is T.TRUE or prove.prove(list(E.pc), h, 8.0).status == "proved":
                E.oblige("align_vectors: the target vectors are the images of the others", h, kind="pre")
                E.assume(g)
        return Rotation(M), SNum(T.fresh("rssd"))


import itertools
_n = itertools.count()
