"""Arbitrary orthogonal 3x3 matrices: rewriting by a Groebner basis (graded reverse lexicographic, r8 > ... > r0) of the
ideal of R R^T = R^T R = I and adj(R) = det R^T; so an identity between polynomials in the entries of rotations holds
exactly when its normal form is zero.  Each line: leading monomial = right-hand side; linear terms carry det."""
from . import terms as T

BASIS = """
8 8 = 0 0 + 1 1 + 3 3 + 4 4 - 1
7 8 = - 1 2 - 4 5
7 7 = 1 - 1 1 - 4 4
6 8 = - 0 2 - 3 5
6 7 = - 0 1 - 3 4
6 6 = 1 - 0 0 - 3 3
5 8 = - 3 6 - 4 7
5 7 = 4 8 - d0
5 6 = 3 8 + d1
5 5 = 1 - 3 3 - 4 4
4 6 = 3 7 - d2
2 8 = - 0 6 - 1 7
2 7 = 1 8 + d3
2 6 = 0 8 - d4
2 5 = - 0 3 - 1 4
2 4 = 1 5 - d6
2 3 = 0 5 + d7
2 2 = 1 - 0 0 - 1 1
1 6 = 0 7 + d5
1 3 = 0 4 - d8
"""


def matrix(name, det=1):
    ps = [T.var("%s_%d_%d" % (name, i, j)) for i in range(3) for j in range(3)]
    if ps[8].single_atom() in T.RULES:
        return [ps[0:3], ps[3:6], ps[6:9]]
    for line in BASIS.strip().split("\n"):
        l, r = line.split("=")
        a, b = [int(x) for x in l.split()]
        toks = r.split()
        rhs = T.ZERO
        i, s = 0, 1
        while i < len(toks):
            if toks[i] in "+-":
                s = 1 if toks[i] == "+" else -1
                i += 1
                continue
            if toks[i].startswith("d"):
                t = ps[int(toks[i][1:])].scale(s * det)
                i += 1
            elif toks[i] == "1" and (i + 1 == len(toks) or toks[i + 1] in "+-"):
                t = T.const(s)
                i += 1
            else:
                t = (ps[int(toks[i])] * ps[int(toks[i + 1])]).scale(s)
                i += 2
            rhs = rhs + t
            s = 1
        lhs = ((ps[a].single_atom(), 2),) if a == b else ((ps[a].single_atom(), 1), (ps[b].single_atom(), 1))
        T.add_rule(lhs, rhs)
    return [ps[0:3], ps[3:6], ps[6:9]]
