"""Exact (rational) reference for interval linear systems.

Intervals are pairs (lo, hi) of Fractions; a matrix is a list of rows of pairs.
Everything is decided by finite enumeration in exact arithmetic:
  united set  = union over orthants of polyhedra {A_lo|.. x <= b_hi, -.. <= -b_lo}
  tolerable   = { x : A x subset of b }
both handled by enumerating the basic points of their linear description.
"""
import functools
import itertools
import math
from fractions import Fraction as F


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    if n == 3:
        return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
                - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
                + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def solve(M, v):
    """Exact solution of a square system, None if singular."""
    n = len(M)
    if n == 1:
        return [v[0] / M[0][0]] if M[0][0] else None
    if n == 2:
        (a, b), (c, d) = M
        D = a * d - b * c
        if not D:
            return None
        return [(v[0] * d - b * v[1]) / D, (a * v[1] - v[0] * c) / D]
    T = [list(map(F, r)) + [F(v[i])] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if T[r][c] != 0), None)
        if p is None:
            return None
        T[c], T[p] = T[p], T[c]
        for r in range(n):
            if r != c and T[r][c] != 0:
                k = T[r][c] / T[c][c]
                T[r] = [x - k * y for x, y in zip(T[r], T[c])]
    return [T[i][n] / T[i][i] for i in range(n)]


def parts(A):
    """The independent parts of a matrix: (rows, columns) of the connected components
    of its nonzero pattern."""
    n, m = len(A), len(A[0])
    left, out = set(range(n)), []
    cols = set(range(m))
    while left or cols:
        R, C = ({min(left)}, set()) if left else (set(), {min(cols)})
        while True:
            C2 = C | {j for j in range(m) for i in R if A[i][j] != (0, 0)}
            R2 = R | {i for i in range(n) for j in C2 if A[i][j] != (0, 0)}
            if (R2, C2) == (R, C):
                break
            R, C = R2, C2
        left -= R
        cols -= C
        out.append((sorted(R), sorted(C)))
    return out


def regular(A):
    """Every point matrix in A non-singular: part by part."""
    P = parts(A)
    return all(len(R) == len(C) for R, C in P) and \
        all(regular_part(tuple(tuple(A[i][j] for j in C) for i in R)) for R, C in P)


@functools.lru_cache(maxsize=4096)
def regular_part(A):
    """Every point matrix in A non-singular (exact: determinant signs at the vertices;
    det is affine in each entry, so constant strict sign on vertices <=> on the box)."""
    n = len(A)
    d = 1
    for r in A:
        for e in r:
            for v in e:
                d = d * v.denominator // math.gcd(d, v.denominator)
    A = [[(int(e[0] * d), int(e[1] * d)) for e in r] for r in A]
    cells = [(i, j) for i in range(n) for j in range(n)]
    wide = [(i, j) for (i, j) in cells if A[i][j][0] != A[i][j][1]]
    sign = None
    M = [[A[i][j][0] for j in range(n)] for i in range(n)]
    for pick in itertools.product((0, 1), repeat=len(wide)):
        for (i, j), k in zip(wide, pick):
            M[i][j] = A[i][j][k]
        d = det(M)
        if d == 0:
            return False
        if sign is None:
            sign = d > 0
        elif sign != (d > 0):
            return False
    return True


def halfspaces_united(A, b, s):
    """{x : exists A', b' : A'x = b'} in the orthant s as G x <= h."""
    m = len(A[0])
    G, h = [], []
    for row, (bl, bu) in zip(A, b):
        G.append([row[j][0] if s[j] > 0 else row[j][1] for j in range(m)])
        h.append(bu)
        G.append([-(row[j][1] if s[j] > 0 else row[j][0]) for j in range(m)])
        h.append(-bl)
    for j in range(m):
        G.append([F(-s[j]) if i == j else F(0) for i in range(m)])
        h.append(F(0))
    return G, h


def halfspaces_tol(A, b, s):
    m = len(A[0])
    G, h = [], []
    for row, (bl, bu) in zip(A, b):
        G.append([row[j][1] if s[j] > 0 else row[j][0] for j in range(m)])
        h.append(bu)
        G.append([-(row[j][0] if s[j] > 0 else row[j][1]) for j in range(m)])
        h.append(-bl)
    for j in range(m):
        G.append([F(-s[j]) if i == j else F(0) for i in range(m)])
        h.append(F(0))
    return G, h


def scaled(G, h):
    """The inequalities with integer coefficients."""
    R = []
    for g, c in zip(G, h):
        d = 1
        for v in list(g) + [c]:
            d = d * v.denominator // math.gcd(d, v.denominator)
        R.append(tuple(int(v * d) for v in g) + (int(c * d),))
    return list(dict.fromkeys(R))


def cramer(rows, m):
    """(determinant, numerators) of the square integer system, determinant made positive."""
    if m == 1:
        (a, c), = rows
        D, N = a, (c,)
    elif m == 2:
        (a, b, p), (c, d, q) = rows
        D = a * d - b * c
        N = (p * d - b * q, a * q - p * c)
    elif m == 3:
        (a, b, c, p), (d, e, f, q), (g, k, i, r) = rows
        ei, fg, dk = e * i - f * k, f * g - d * i, d * k - e * g
        D = a * ei + b * fg + c * dk
        if D:
            N = (p * ei + b * (f * r - q * i) + c * (q * k - e * r),
                 a * (q * i - f * r) + p * fg + c * (d * r - q * g),
                 a * (e * r - q * k) + b * (q * g - d * r) + p * dk)
    else:
        x = solve([r[:-1] for r in rows], [r[-1] for r in rows])
        if x is None:
            return 0, None
        D = 1
        for v in x:
            D = D * v.denominator // math.gcd(D, v.denominator)
        return D, tuple(int(v * D) for v in x)
    if D == 0:
        return 0, None
    return (D, N) if D > 0 else (-D, tuple(-v for v in N))


def vertices(G, h):
    """All vertices of {Gx <= h} (exact)."""
    m = len(G[0])
    R = scaled(G, h)
    out = set()
    for rows in itertools.combinations(R, m):
        D, N = cramer(rows, m)
        if not D:
            continue
        for r in R:
            s = -r[m] * D
            for k in range(m):
                s += r[k] * N[k]
            if s > 0:
                break
        else:
            out.add(tuple(F(v, D) for v in N))
    return out


def united_vertices(A, b):
    m = len(A[0])
    out = set()
    for s in itertools.product((1, -1), repeat=m):
        out |= vertices(*halfspaces_united(A, b, s))
    return out


def tol_vertices(A, b):
    m = len(A[0])
    out = set()
    for s in itertools.product((1, -1), repeat=m):
        out |= vertices(*halfspaces_tol(A, b, s))
    return out


def hull(points):
    points = list(points)
    if not points:
        return None
    return [(min(p[j] for p in points), max(p[j] for p in points)) for j in range(len(points[0]))]


def in_united(A, b, x):
    """Oettli-Prager / Beeck: A x and b intersect in every row (exact)."""
    for row, (bl, bu) in zip(A, b):
        lo = sum(min(l * xi, u * xi) for (l, u), xi in zip(row, x))
        hi = sum(max(l * xi, u * xi) for (l, u), xi in zip(row, x))
        if lo > bu or hi < bl:
            return False
    return True


def in_tol(A, b, x):
    for row, (bl, bu) in zip(A, b):
        lo = sum(min(l * xi, u * xi) for (l, u), xi in zip(row, x))
        hi = sum(max(l * xi, u * xi) for (l, u), xi in zip(row, x))
        if lo < bl or hi > bu:
            return False
    return True


def to_ip(ip, M):
    """Build the library's interval matrix / vector from pairs of numbers."""
    import numpy as np
    lo = np.array([[float(e[0]) for e in r] for r in M]) if isinstance(M[0][0], (tuple, list)) \
        else np.array([float(e[0]) for e in M])
    hi = np.array([[float(e[1]) for e in r] for r in M]) if isinstance(M[0][0], (tuple, list)) \
        else np.array([float(e[1]) for e in M])
    return ip.Interval(lo, hi, sortQ=False)


def by_parts(f, A, *v):
    """The boxes f(A part, right-hand side part, ...) put together; None as soon as one is.
    v: the right-hand side, then vectors of the unknowns."""
    out = [None] * len(A[0])
    for R, C in parts(A):
        if not C:
            if not all(v[0][i][0] <= 0 <= v[0][i][1] for i in R):
                return None
            continue
        if not R:
            # nothing restricts this unknown: 0 is the only vertex, or the start box
            for j in C:
                out[j] = v[1][j] if len(v) > 1 else (F(0), F(0))
            continue
        Y = cached(f, tuple(tuple(A[i][j] for j in C) for i in R), tuple(v[0][i] for i in R),
                   *[tuple(w[j] for j in C) for w in v[1:]])
        if Y is None:
            return None
        for j, y in zip(C, Y):
            out[j] = y
    return out


@functools.lru_cache(maxsize=4096)
def cached(f, *args):
    return f(*args)


def united_hull(A, b):
    """The interval hull of the united solution set (its vertices), None if it is empty."""
    return by_parts(united_part, A, b)


def united_part(A, b):
    return hull(united_vertices(A, b))


def tol_hull(A, b):
    return by_parts(tol_part, A, b)


def tol_part(A, b):
    return hull(tol_vertices(A, b))
