"""Finite families of interval linear systems (exact rational entries) and common judgements."""
import itertools
from fractions import Fraction as F

from .exactlin import *

H = F(1, 2)


def fl(x):
    return F(float(x))


OFF = [(F(-1), F(1)), (F(0), F(1)), (F(0), F(0)), (F(-1), -H), (F(1), F(2)), (fl(0.1), fl(0.3))]
DIAG = [(F(2), F(4)), (F(3), F(3)), (F(-4), F(-3)), (F(1), F(2)), (fl(1.7), fl(2.3))]
RHS = [(F(-2), F(2)), (F(1), F(2)), (F(3), F(3)), (F(-3), F(1)), (F(0), F(0)), (fl(-0.7), fl(0.1))]


def sys1():
    for d in DIAG + [(F(-1), H), (F(0), F(1))]:
        for b in RHS:
            yield [[d]], [b]


def sys2(nd=None, no=None, nb=None):
    """All 2x2 systems over the alphabets (also with the large entries off the diagonal)."""
    for d1, d2 in itertools.product(DIAG[:nd], repeat=2):
        for o1, o2 in itertools.product(OFF[:no], repeat=2):
            for b1, b2 in itertools.product(RHS[:nb], RHS[:nb]):
                yield [[d1, o1], [o2, d2]], [b1, b2]
                if (b1, o1) < (b2, o2):
                    yield [[o1, d1], [d2, o2]], [b1, b2]


D3 = [(F(4), F(5)), (F(3), F(3)), (F(-6), F(-5)), (fl(3.3), fl(4.1))]
O3 = [(F(-1), F(1)), (F(0), F(1)), (F(0), F(0)), (F(-1), -H), (H, F(2))]
B3 = [(F(-2), F(2)), (F(1), F(2)), (F(-3), F(1)), (F(3), F(3))]


def sys3(k=1, rot=True):
    """3x3 systems: every placement of the entries of a few patterns, every k-th."""
    i = 0
    for d in itertools.product(D3, repeat=3):
        for o in itertools.product(O3, repeat=3):
            for b in itertools.product(B3, repeat=3):
                i += 1
                if i % k:
                    continue
                # off-diagonal: two cyclic patterns of the chosen triple
                A = [[d[0], o[0], o[1]], [o[2], d[1], o[0]], [o[1], o[2], d[2]]]
                p = i // k % 3 if rot else 0
                if p == 1:
                    A = [A[1], A[2], A[0]]
                elif p == 2:
                    A = [A[2], A[0], A[1]]
                yield A, list(b)


def chain4():
    """4x4 banded systems."""
    for d in ((F(4), F(5)), (F(-5), F(-4)), (F(3), F(7, 2))):
        for o in OFF[:5]:
            for u in OFF[:5]:
                for b in (RHS[0], RHS[1]):
                    Z = (F(0), F(0))
                    A = [[d, o, Z, Z], [u, d, o, Z], [Z, u, d, o], [Z, Z, u, d]]
                    yield A, [b, RHS[2], RHS[3], b]


def point(A, b):
    return [[(l, l) for l, u in r] for r in A], [(l, l) for l, u in b]


def dominant(A):
    """Strict row diagonal dominance of the interval matrix (after no permutation)."""
    n = len(A)
    for i in range(n):
        l, u = A[i][i]
        mig = F(0) if l <= 0 <= u else min(abs(l), abs(u))
        if mig <= sum(max(abs(A[i][j][0]), abs(A[i][j][1])) for j in range(n) if j != i):
            return False
    return True


def col_dominant(A):
    n = len(A)
    return dominant([[A[j][i] for j in range(n)] for i in range(n)])


def text(A, b):
    g = lambda e: '[%g, %g]' % (float(e[0]), float(e[1]))
    return 'A = [%s], b = [%s]' % ('; '.join(' '.join(map(g, r)) for r in A), ' '.join(map(g, b)))


def code(A, b, call):
    f = lambda e: (float(e[0]), float(e[1]))
    return ('A = np.array(%r)\nb = np.array(%r)\nA, b = Interval(A[..., 0], A[..., 1], sortQ=False), Interval(b[..., 0], b[..., 1], sortQ=False)\nprint(%s)'
            % ([[f(e) for e in r] for r in A], [f(e) for e in b], call))


def val(x):
    """Exact value of a library number."""
    import math
    x = float(x)
    return None if math.isnan(x) else (F(10) ** 400 if x == math.inf else -F(10) ** 400 if x == -math.inf else F(x))


def box_of(ip, r, m):
    """Exact endpoints of a library interval vector, or None."""
    if not isinstance(r, ip.ArrayInterval) or tuple(r.shape) != (m,):
        return None
    B = [(val(x.a), val(x.b)) for x in r.data]
    return None if any(l is None or u is None for l, u in B) else B


def norm(Hl):
    return 1 + max(max(abs(l), abs(u)) for l, u in Hl)


def encl(B, Hl, slack=F(0)):
    s = slack and slack * norm(Hl)
    return all(l - s <= h0 and h1 <= u + s for (l, u), (h0, h1) in zip(B, Hl))


def same(B, Hl, tol):
    t = tol * norm(Hl)
    return all(abs(l - h0) <= t and abs(u - h1) <= t for (l, u), (h0, h1) in zip(B, Hl))


def show(B):
    g = lambda v: '%.12g' % float(v) if abs(v) < 10 ** 300 else 'inf' if v > 0 else '-inf'
    return ' '.join('[%s, %s]' % (g(l), g(u)) for l, u in B)


OV_A = [(F(1), F(2)), (F(-1), F(1)), (F(-3), F(-2)), (F(1), F(1)), (F(0), F(1)), (F(2), F(5, 2)), (fl(0.2), fl(0.4))]
OV_B = [(F(1), F(3)), (F(-2), F(2)), (F(0), F(1)), (F(-3), F(-1)), (fl(0.3), fl(1.9))]


def over(n, m, k):
    """n x m systems (n > m): every k-th of the full product."""
    i = 0
    for e in itertools.product(OV_A, repeat=n * m):
        i += 1
        if i % k:
            continue
        A = [list(e[r * m:r * m + m]) for r in range(n)]
        for b in itertools.product(OV_B, repeat=n):
            j = sum((p + 1) * OV_B.index(x) for p, x in enumerate(b))
            if (i // k + j) % 5:
                continue
            yield A, list(b)


def data(m, k):
    """Systems of fitting problems: narrow interval rows around a line or plane."""
    i = 0
    xs = [F(-2), F(-1), F(0), F(1), F(2), F(3)]
    for truth in ((F(1), F(2)), (F(-1), H), (F(3), F(0)), (H, F(-2))):
        for rad in (F(0), F(1, 8), F(1, 4)):
            for eps in itertools.product((F(-1, 4), F(0), F(1, 4)), repeat=4):
                for n in (3, 4):
                    i += 1
                    if i % k:
                        continue
                    A, b = [], []
                    for q in range(n):
                        x = xs[(q * 2 + i) % 6]
                        row = [(F(1), F(1)), (x - rad, x + rad)]
                        if m == 3:
                            row.append((x * x - rad, x * x + rad))
                        y = truth[0] + truth[1] * x + eps[q]
                        A.append(row)
                        b.append((y - H, y + H))
                    yield A, b


SCALES = [(1, 17), (12, 0), (-8, 8), (0, -20), (3, 30)]


def scaled(S):
    """Systems with the matrix and the right-hand side multiplied by powers of two."""
    for i, (A, b) in enumerate(S):
        p, q = SCALES[i % len(SCALES)]
        p, q = F(2) ** p, F(2) ** q
        yield [[(l * p, u * p) for l, u in r] for r in A], [(l * q, u * q) for l, u in b]


def mirror(S):
    """Systems with some unknowns replaced by their opposites: entries [0, 1] become [-1, 0]."""
    for i, (A, b) in enumerate(S):
        m = len(A[0])
        s = 1 + i % (2 ** m - 1)
        yield [[(-u, -l) if s >> j & 1 else (l, u) for j, (l, u) in enumerate(r)] for r in A], b


def together(*S, p=1, q=1):
    """One system out of independent ones, its rows and columns moved around
    (row i goes to p*i, column j to q*j, modulo their numbers; p = q keeps dominance)."""
    n, m = sum(len(A) for A, b in S), sum(len(A[0]) for A, b in S)
    Z = (F(0), F(0))
    M, v = [[Z] * m for i in range(n)], [Z] * n
    i0 = j0 = 0
    for A, b in S:
        for i, r in enumerate(A):
            for j, e in enumerate(r):
                M[(p * (i0 + i)) % n][(q * (j0 + j)) % m] = e
            v[(p * (i0 + i)) % n] = b[i]
        i0, j0 = i0 + len(A), j0 + len(A[0])
    return M, v


def blocks(two, three, k=1):
    """Systems of 4 to 6 unknowns made of smaller ones, the parts interleaved."""
    two, three = list(two), list(three)
    for i in range(0, max(len(two), len(three)), k):
        T = [two[(i * c + c) % len(two)] for c in (1, 3, 7)]
        U = [three[(i * c + c) % len(three)] for c in (1, 5)]
        w = i // k % 5
        if w == 0:
            yield together(T[0], T[1], p=3, q=3)                # 4
        elif w == 1:
            yield together(T[0], U[0], p=2, q=2)                # 5
        elif w == 2:
            yield together(U[0], T[0], p=3, q=2)                # 5
        elif w == 3:
            yield together(T[0], T[1], T[2], p=5, q=5)          # 6
        else:
            yield together(U[0], U[1], p=5, q=1)                # 6


def with_zero_row(S, m):
    """Systems with a row of zeros, which every point or no point satisfies."""
    Z = [(F(0), F(0))] * m
    out = []
    for i, (A, b) in enumerate(S):
        p = i % (len(A) + 1)
        out.append((A[:p] + [Z] + A[p:], b[:p] + [((F(-1), F(1)), (F(1), F(2)), (F(0), F(0)), (F(-2), F(-1)))[i % 4]] + b[p:]))
    return out
