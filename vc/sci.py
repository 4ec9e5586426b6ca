"""Assumed contracts of scipy.spatial: convex hulls as predicates over the point set."""
from . import terms as T
from .terms import Unsupported
from .core import E, SNum, SBool, poly, here
from .arr import SArr, dp, to_arr
from . import absfn


class QhullError(RuntimeError):
    pass


def conv_pred(P):
    """the predicate 'lies in the convex hull of the rows of P' as a function of three coordinates"""
    f = P.snap()
    n = dp(P.sh[0])
    k = T.var("_ck", True)
    ts = [f((k, T.const(c))) for c in range(3)]
    if n.is_const and P.concrete:
        # rows of a fixed number of points: the identity is the tuple of the coordinates
        ts = list(P.terms())
        key, params, cts, cb, cps = absfn.canon(ts, [])
        name = "conv%d#%s" % (int(n.const), key)
    else:
        key, params, cts, cb, cps = absfn.canon(ts + [n], [k])
        name = "conv#" + key
    return lambda x: T.bapp(name, list(params) + list(x))


class ConvexHull:
    """contract: points are those given (and added); vertices index a subset with the same convex hull"""
    made = []

    def __init__(self, points, incremental=False, **k):
        P = to_arr(points)
        E.functions.add("scipy.spatial.ConvexHull")
        self.P = P.fresh_copy()
        ConvexHull.made.append(self)
        self._vert()

    def _vert(self):
        f = self.P.snap()
        n = dp(self.P.sh[0])
        k = T.var("_ck", True)
        key, params, cts, cb, cps = absfn.canon([f((k, T.const(c))) for c in range(3)] + [n], [k])
        name, cname = "hullv#" + key, "hulln#" + key
        npar = len(params)
        nt = cts[-1]

        def facts(args):
            ps, i = list(args[:npar]), args[npar]
            return [T.implies(absfn.rng(i, T.app(cname, ps, True)), absfn.rng(T.app(name, list(ps) + [i], True), absfn.inst(nt, cps, ps, [], [])))]
        absfn.FACTS[name] = facts
        absfn.FACTS[cname] = lambda args: [T.le0(-T.app(cname, args, True))]
        self.vname = name
        self.vertices = SArr((T.app(cname, params, True),), "i", lambda idx: T.app(name, list(params) + list(idx), True))

    @property
    def points(self):
        return self.P

    def add_points(self, pts, restart=False):
        from . import npx
        self.P = npx.f_concat([self.P, to_arr(pts)], axis=0)
        self._vert()

    def __deepcopy__(self, memo):
        return self


class Delaunay:
    """contract: find_simplex is not negative exactly for the points of the convex hull (the tolerance pads it)"""

    def __init__(self, points, **k):
        P = to_arr(points)
        E.functions.add("scipy.spatial.Delaunay")
        self.P = P.fresh_copy()
        pred = None
        # contract of ConvexHull.vertices: their convex hull is that of all points
        kk = T.fresh("k", True)
        for h in reversed(ConvexHull.made):
            v = h.vertices
            if dp(P.sh[0]) is dp(v.sh[0]):
                idx = v.get((kk,))
                if all(P.get((kk, T.const(c))) is h.P.get((idx, T.const(c))) for c in range(3)):
                    pred = conv_pred(h.P)
                    break
        self.pred = pred or conv_pred(self.P)
        self.tols = []

    @property
    def points(self):
        return self.P

    def find_simplex(self, xi, bruteforce=False, tol=None):
        X = to_arr(xi)
        f = X.snap()
        self.tols.append(tol)
        pred = self.pred
        key = str(pred([T.var("_cx%d" % i) for i in range(3)]).id)
        name = "simplex#" + key

        def val(x):
            return T.ite(pred(x), T.app(name, x, True), T.const(-1))
        absfn.FACTS[name] = lambda args: [T.le0(-T.app(name, args, True))]
        sh = X.sh[:-1]
        return SArr(sh, "i", lambda idx: val([f(tuple(idx) + (T.const(c),)) for c in range(3)]))

    def __deepcopy__(self, memo):
        return self
