"""Shared contract vocabulary of the optimisers (C12-C14): N = 10 coefficients, 5 derivatives per vertex."""
from ..spec import *
N, H = 10, 5
PO = 'PolynomialOptimization<10>'
SQ = ('eig', 'r', N, N)
SPARSE = ('opaque', 'sparse')
TUS = ['polynomial', 'segment', 'vertex', 'linopt']
MIN_T = Fraction(1, 2 ** 52)


def basis(k, i, t):
    """k-th derivative of t^i"""
    return mul(Fraction(ff(i, k)), power(t, i - k)) if i >= k else Fraction(0)


def mapping(T):
    """A: coefficients -> derivatives 0..4 at the start, then at the end"""
    return [[basis(k, i, Fraction(0)) for i in range(N)] for k in range(H)] + [[basis(k, i, T) for i in range(N)] for k in range(H)]


def rat_inverse(B):
    """exact inverse of a rational matrix"""
    n = len(B)
    A = [list(map(Fraction, row)) + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(B)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return [row[n:] for row in A]


def fold(xs):
    t = Fraction(0)
    for x in xs:
        t = add(t, x)
    return t


def scale(x, T, e):
    """x T^e"""
    return mul(x, power(T, e)) if e >= 0 else rdiv(x, power(T, -e))


def mapping_inverse(T):
    """the inverse of mapping(T): upper half 1/k!, lower half by solving the 5x5 end block"""
    D = [[Fraction(ff(j, k)) for j in range(H, N)] for k in range(H)]
    C = [[Fraction(ff(j, k)) if j >= k else Fraction(0) for j in range(H)] for k in range(H)]
    Di = rat_inverse(D)
    out = []
    for i in range(H):
        out.append([Fraction(1, ff(i, i)) if i == j else Fraction(0) for j in range(N)])
    for i in range(H):
        row = []
        for j in range(H):                  # -(D^-1 C A^-1)_ij T^(j - i - 5)
            x = -sum(Di[i][k] * C[k][j] for k in range(H)) / ff(j, j)
            row.append(scale(x, T, j - i - H) if x else Fraction(0))
        for j in range(H):                  # (D^-1)_ij T^(j - i - 5)
            row.append(scale(Di[i][j], T, j - i - H) if Di[i][j] else Fraction(0))
        out.append(row)
    return out


def hessian(r, T):
    """2 * integral of the squared r-th derivative as a quadratic form of the coefficients"""
    return [[mul(Fraction(2 * ff(i, r) * ff(j, r), i + j - 2 * r + 1), power(T, i + j - 2 * r + 1)) if i >= r and j >= r else Fraction(0) for j in range(N)] for i in range(N)]


def rows(M):
    return [[M.at(i, j) for j in range(M.c)] for i in range(M.r)]


def mat(M):
    return Mat(len(M), len(M[0]), [x for row in M for x in row])


def same(it, nm, A, B):
    for i in range(len(A)):
        for j in range(len(A[0])):
            it.oblige(nm, cmp('==', A[i][j], B[i][j]))


# ---------------------------------------------------------------- the optimiser object
VX, SG, EVT, MATS = ('class', VERT), ('class', SEG), ('eig', 'r', -1, 1), ('seq', SQ, 'vector')
CON = ('class', NS + 'Constraint')
S64 = ('int', False, 64)
POC = ('class', PO)


def z3int(x):
    return iv(x)


def arbitrary(it, **kw):
    """an optimiser object with arbitrary content"""
    o = it.fresh_named(POC, 'opt')
    for k in ('dimension_', 'n_vertices_', 'n_segments_', 'n_all_constraints_', 'n_fixed_constraints_', 'n_free_constraints_'):
        it.assume(z3.And(iv(o.f[k]) >= 0, iv(o.f[k]) < 2 ** 30))
    for k, v in kw.items():
        o = o.with_(k, v)
    return o


def every(vs, body, pats):
    try:
        return z3.ForAll(vs, body, patterns=pats)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
