"""C37: an answer depends on the numbers given, not on how they are represented.

State = (call, representation of every argument).  The reference is the same call with float
endpoints in freshly built arrays and float NumPy vectors.
"""
import copy
import itertools
import warnings
from fractions import Fraction
from mpmath import mpf
from mc import boot

ip = boot.load()
import numpy as np
import pandas as pd
warnings.simplefilter('ignore')
ID = 'C37'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic


def objects(P, make):
    """An object array of intervals made from the pairs in the nested list P."""
    a = np.array(P, dtype=object)
    o = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = make(a[i][0], a[i][1])
    return o


def lo(P):
    return np.array(P, dtype=float)[..., 0]


def hi(P):
    return np.array(P, dtype=float)[..., 1]


def assigned(P):
    o = ip.zeros(np.array(P).shape[:-1])
    for i in np.ndindex(*o.shape):
        o[i] = ip.Interval(float(lo(P)[i]), float(hi(P)[i]))
    return o


def whole(x):
    """An integer where the number is one."""
    return int(x) if x == int(x) else float(x)


def scalar(x):
    return np.float16(x) if x != int(x) else np.uint8(x) if x >= 0 else np.int8(x)


def assigned_to_int(P):
    """An array of integers, the elements that are not are assigned afterwards."""
    o = ip.Interval(np.floor(lo(P)).astype(int).tolist(), np.floor(hi(P)).astype(int).tolist())
    for i in np.ndindex(*o.shape):
        a, b = float(lo(P)[i]), float(hi(P)[i])
        if a != int(a) or b != int(b):
            o[i] = ip.Interval(whole(a), whole(b))
    return o


def part(P):
    """A part of a larger array, taken out with slices and a reversal."""
    o = objects(P, lambda a, b: C(float(a), float(b)))
    w = np.empty(tuple(2 * s + 1 for s in o.shape), dtype=object)
    for i in np.ndindex(*w.shape):
        w[i] = C(-99.0, 99.0)
    w[tuple(slice(1, None, 2) for _ in o.shape)] = o[::-1]
    return ip.ArrayInterval(w)[tuple(slice(1, None, 2) for _ in o.shape)][::-1]


def turned(P):
    o = objects(P, lambda a, b: C(float(a), float(b)))
    return ip.ArrayInterval(np.array(o.T, order='C')).T


def nested(P):
    if np.ndim(P) == 2:
        return [C(float(a), float(b)) for a, b in P]
    return [nested(r) for r in P]


# intervals: name -> builder from nested pairs of integers
IVS = {
    'float': lambda P: ip.Interval(lo(P), hi(P)),
    'int': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(int(a), int(b)))),
    'mixed': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(whole(a), float(b)))),
    'whole': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(whole(a), whole(b)))),
    'assigned to int': assigned_to_int,
    'kaucher': lambda P: ip.ArrayInterval(objects(P, lambda a, b: K(float(a), float(b)))),
    'kaucher int': lambda P: ip.ArrayInterval(objects(P, lambda a, b: K(int(a), int(b)))),
    'pairs of int': lambda P: ip.Interval(np.array(P).astype(int).tolist()),
    'ends swapped': lambda P: ip.Interval(hi(P).tolist(), lo(P).tolist()),
    'Fraction': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(Fraction(a), Fraction(b)))),
    'mpf': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(mpf(a), mpf(b)))),
    'NumPy scalars': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(scalar(a), scalar(b)))),
    'uint8': lambda P: ip.Interval(lo(P).astype(np.uint8), hi(P).astype(np.uint8)),
    'float32': lambda P: ip.Interval(lo(P).astype(np.float32), hi(P).astype(np.float32)),
    'int8': lambda P: ip.Interval(lo(P).astype(np.int8), hi(P).astype(np.int8)),
    'midpoint and radius': lambda P: ip.Interval((lo(P) + hi(P)) / 2, (hi(P) - lo(P)) / 2, midRadQ=True),
    'assigned': assigned,
    'part': part,
    'turned': turned,
    'flat': lambda P: ip.ArrayInterval(objects(P, lambda a, b: C(float(a), float(b))).ravel()).reshape(np.array(P).shape[:-1]),
    'asinterval': lambda P: ip.asinterval(nested(P)),
    'copy': lambda P: copy.deepcopy(ip.Interval(lo(P), hi(P))).copy(),
    'computed': lambda P: ip.Interval(lo(P), hi(P)) + ip.Interval(lo(P) * 0, hi(P) * 0),
    'dual twice': lambda P: ip.Interval(lo(P), hi(P)).dual.dual,
    'opposite twice': lambda P: -(-ip.Interval(lo(P), hi(P))),
}
# numeric vectors and matrices
NUM = {
    'float': lambda v: np.array(v, dtype=float),
    'int': lambda v: np.array(v, dtype=int),
    'float32': lambda v: np.array(v, dtype=np.float32),
    'int8': lambda v: np.array(v, dtype=np.int8),
    'uint8': lambda v: np.array(v, dtype=np.uint8),
    'Fortran': lambda v: np.asfortranarray(np.array(v, dtype=float)),
    'every second': lambda v: np.repeat(np.array(v, dtype=float), 2, axis=0)[::2],
    'backwards': lambda v: np.array(v, dtype=float)[::-1].copy()[::-1],
    'read only': lambda v: frozen(v),
    'list': lambda v: np.array(v, dtype=float).tolist(),
    'list of int': lambda v: np.array(v, dtype=int).tolist(),
    'tuple': lambda v: tuple(np.array(v, dtype=float).tolist()),
}
# unsigned integers represent only numbers >= 0
UNSIGNED = 'uint8'
INTEGERS = {'int', 'kaucher int', 'int8', 'uint8', 'pairs of int', 'list of int'}
# containers the documentation does not name (it says np.array): refused or the same
LOOSE = {'list', 'list of int', 'tuple'}
# documented as array_like: answered
ARRAY_LIKE = {'lineqs', 'lineqs/b', 'lineqs3D', 'lineqs3D/b', 'Tol.maximize/C', 'Tol.maximize/ub', 'Tol.maximize/lb', 'WILS/C'}


def frozen(v):
    a = np.array(v, dtype=float)
    a.setflags(write=False)
    return a


def boxes(r):
    """The numbers of an answer."""
    if r is None:
        return ['none']
    if isinstance(r, (C, K)):
        return [float(r.a), float(r.b)]
    if isinstance(r, ip.ArrayInterval):
        return [float(v) for x in r.data.flat for v in (x.a, x.b)]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return [v for x in r.ravel() for v in boxes(x)]
    if isinstance(r, (pd.DataFrame, pd.Series)):
        return boxes(r.to_numpy())
    if isinstance(r, (tuple, list)):
        return ['('] + [v for x in r for v in boxes(x)] + [')']
    return [float(v) for v in np.asarray(r).ravel()]


def same(p, q, tol):
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (x == y or (x != x and y != y) or abs(x - y) <= tol * (1 + abs(x))):
            return False
    return True


S2 = [[[2, 4], [-2, 1]], [[-1, 2], [3, 4]]], [[-2, 2], [1, 4]]
D2 = [[[4, 5], [-1, 1]], [[0, 1], [-6, -5]]], [[3, 3], [-3, 1]]
S3 = [[[5, 6], [-1, 1], [0, 1]], [[-1, 0], [-7, -6], [1, 2]], [[0, 0], [-1, 1], [4, 4]]], [[-2, 2], [1, 2], [-3, 8]]
P2 = [[[4, 4], [1, 1]], [[1, 1], [-6, -6]]], [[3, 3], [2, 2]]
S1 = [[[2, 4]]], [[-2, 6]]
T32 = [[[1, 2], [0, 1]], [[-1, 0], [2, 3]], [[1, 1], [1, 2]]], [[-4, 6], [-5, 8], [-3, 9]]
T43 = [[[1, 2], [0, 1], [0, 0]], [[-1, 0], [2, 3], [1, 1]], [[1, 1], [1, 2], [2, 4]], [[1, 1], [0, 0], [-2, -1]]], [[-4, 6], [-5, 8], [-3, 9], [-8, 8]]
H2 = [[[2, 4.5], [-2, 1]], [[-1, 2], [3.25, 4]]], [[-2, 2], [1.5, 4]]
H3 = [[[5, 6.5], [-1, 1], [0, 0.75]], [[-1, 0], [-7.5, -6], [1, 2]], [[0, 0], [-1.25, 1], [4, 4]]], [[-2, 2], [1.5, 2.5], [-3, 8]]
SQ = [S1, S2, D2, S3, P2, H2, H3]
H43 = [[[1, 2], [0, 1.5], [0, 0]], [[-1.25, 0], [2, 3], [1, 1]], [[1, 1], [1.5, 2], [2, 4.25]], [[1, 1], [0, 0], [-2.5, -1]]], [[-4, 6], [-5.5, 8], [-3, 9.75], [-8, 8]]
# all lower ends are whole numbers, the upper ones are not
L2 = [[[2, 4.5], [-2, 1.25]], [[-1, 2.5], [3, 4.75]]], [[-2, 2.5], [1, 4.25]]
ALL = SQ + [T32, T43, H43, L2]


def fit(model, *a, **k):
    model.fit(*a, maxiter=60 if isinstance(model, ip.WILS) else 10, **k)
    return model


def quality(model, X):
    """The optimum (the optimal point need not be unique) and the predictions at the optimal point."""
    P = boxes(model.predict(X))
    return [model.estimator['fr'], len(P), all(v == v for v in P)]


def frame(A, names=('u', 'v', 'w')):
    return pd.DataFrame({names[j]: [A[i, j] for i in range(A.shape[0])] for j in range(A.shape[1])})


def seeded(f):
    np.random.seed(5)
    return f()


def poly(x):
    y = x[0] * x[0] + x[1] - 3
    return [y, x[1] * 2 - x[0]]


def intervals_(f):
    return lambda x: ip.asinterval(f(x))


# name -> (call with interval arguments A, b and numeric ones v, w; systems; which numeric arguments; tolerance)
CALLS = {
    'Gauss': (lambda A, b: ip.Gauss(A, b), SQ, None, 1e-9),
    'HBR': (lambda A, b: ip.HBR(A, b), SQ, None, 1e-9),
    'Gauss_Seidel': (lambda A, b: ip.Gauss_Seidel(A, b), SQ, None, 1e-9),
    'Gauss_Seidel/C': (lambda A, b, v: ip.Gauss_Seidel(A, b, C=v), SQ, lambda A: np.eye(len(A)), 1e-9),
    'Rohn': (lambda A, b: ip.Rohn(A, b), ALL, None, 1e-6),
    'Rohn/tol': (lambda A, b: ip.Rohn(A, b, consistency='tol'), ALL, None, 1e-6),
    'PSS': (lambda A, b: ip.PSS(A, b, maxiter=200), ALL, None, 1e-6),
    'PPS': (lambda A, b: ip.PPS(A, b, maxiter=200), SQ, None, 1e-6),
    'Subdiff': (lambda A, b: ip.Subdiff(A, b), SQ, None, 1e-6),
    'Neumaier': (lambda A, b, v: ip.Neumaier(A, b, v), ALL, lambda A: [0] * len(A[0]), 1e-9),
    'Neumaier/w': (lambda A, b, v: ip.Neumaier(A, b, np.zeros(len(v)), v), ALL, lambda A: [1, 3, 2][:len(A[0])], 1e-9),
    'Neumaier/y, w': (lambda A, b, v: ip.Neumaier(A, b, v, np.array([0.5, 1.25, 2.5])[:len(v)]), ALL, lambda A: [0] * len(A[0]), 1e-9),
    'ive': (lambda A, b: seeded(lambda: ip.ive(A, b, N=5)), ALL, None, 1e-5),
    'Tol.value': (lambda A, b, v: ip.Tol.value(A, b, v), ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-9),
    'Uni.value': (lambda A, b, v: ip.Uni.value(A, b, v), ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-9),
    'Uss.value': (lambda A, b, v: ip.Uss.value(A, b, v), ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-9),
    'ChebNorm.value': (lambda A, b, v: ip.ChebNorm.value(A, b, v), ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-9),
    'Tol.constituent/weight': (lambda A, b, v: ip.Tol.constituent(A, b, np.ones(A.shape[1]), weight=v), ALL, lambda A: [2, 1, 3, 1][:len(A)], 1e-9),
    'Uni.constituent/weight': (lambda A, b, v: ip.Uni.constituent(A, b, np.ones(A.shape[1]), weight=v), ALL, lambda A: [2, 1, 3, 1][:len(A)], 1e-9),
    'Uss.constituent/weight': (lambda A, b, v: ip.Uss.constituent(A, b, np.ones(A.shape[1]), weight=v), ALL, lambda A: [2, 1, 3, 1][:len(A)], 1e-9),
    'ChebNorm.constituent/weight': (lambda A, b, v: ip.ChebNorm.constituent(A, b, np.ones(A.shape[1]), weight=v), ALL, lambda A: [2, 1, 3, 1][:len(A)], 1e-9),
    'Tol.maximize/x0': (lambda A, b, v: ip.Tol.maximize(A, b, x0=v)[1], ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-5),
    'Tol.maximize/weight': (lambda A, b, v: ip.Tol.maximize(A, b, weight=v)[1], ALL, lambda A: [2, 1, 3, 1][:len(A)], 1e-5),
    'Tol.maximize/C': (lambda A, b, v: ip.Tol.maximize(A, b, linear_constraint=ip.LinearConstraint(v, lb=np.full(1, 4.), ub=np.full(1, 5.)))[1], ALL, lambda A: [[2, 1, 3, 1][:len(A[0])]], 1e-5),
    'Tol.maximize/ub': (lambda A, b, v: ip.Tol.maximize(A, b, linear_constraint=ip.LinearConstraint(np.eye(A.shape[1]), lb=-np.ones(A.shape[1]), ub=v))[1], ALL, lambda A: [2, 1, 3, 1][:len(A[0])], 1e-5),
    'Tol.maximize/lb': (lambda A, b, v: ip.Tol.maximize(A, b, linear_constraint=ip.LinearConstraint(np.eye(A.shape[1]), lb=v))[1], ALL, lambda A: [2, 1, 3, 1][:len(A[0])], 1e-5),
    'ChebNorm.minimize/x0': (lambda A, b, v: ip.ChebNorm.minimize(A, b, x0=v)[1], ALL, lambda A: [1, -1, 2][:len(A[0])], 1e-5),
    'lineqs': (lambda A, b, v: ip.lineqs(v, b.a, show=False), [T32], lambda A: [[1, 0], [-1, -1], [0, 1]], 1e-9),
    'lineqs/large': (lambda A, b, v: ip.lineqs(v[:4], v[4:, 0], show=False), [T32], lambda A: [[100, 1], [-90, -100], [0, 127], [1, 1], [-100, 0], [-127, 0], [-90, 0], [-128, 0]], 1e-9),
    'lineqs/positive': (lambda A, b, v: ip.lineqs(v[:4], v[4:, 0], show=False, bounds=((-9, -9), (9, 9))), [T32], lambda A: [[100, 1], [90, 100], [0, 127], [1, 1], [100, 0], [127, 0], [90, 0], [1, 0]], 1e-9),
    'lineqs/b': (lambda A, b, v: ip.lineqs(np.array([[1., 0], [0, 1], [-1, -1]]), v, show=False), [T32], lambda A: [-1, -2, -7], 1e-9),
    'lineqs3D/large': (lambda A, b, v: ip.lineqs3D(v[:4], v[4:, 0], show=False), [T43], lambda A: [[100, 0, 0], [0, 90, 0], [0, 1, 127], [-100, -100, -90], [-100, 0, 0], [-50, 0, 0], [-90, 0, 0], [-128, 0, 0]], 1e-9),
    'lineqs3D/positive': (lambda A, b, v: ip.lineqs3D(v[:4], v[4:, 0], show=False, bounds=((-9, -9, -9), (9, 9, 9))), [T43], lambda A: [[100, 0, 0], [0, 90, 0], [0, 1, 127], [100, 100, 90], [100, 0, 0], [50, 0, 0], [90, 0, 0], [120, 0, 0]], 1e-9),
    'lineqs3D': (lambda A, b, v: ip.lineqs3D(v, b.a[:4], show=False), [T43], lambda A: [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1]], 1e-9),
    'lineqs3D/b': (lambda A, b, v: ip.lineqs3D(np.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1]]), v, show=False), [T43], lambda A: [-1, -2, 0, -7], 1e-9),
    'IntLinIncR2': (lambda A, b: ip.IntLinIncR2(A, b, show=False), [S2, D2, H2, T32], None, 1e-9),
    'IntLinIncR2/tol': (lambda A, b: ip.IntLinIncR2(A, b, consistency='tol', show=False), [S2, T32], None, 1e-9),
    'IntLinIncR3': (lambda A, b: ip.IntLinIncR3(A, b, show=False), [S3, H3, T43], None, 1e-9),
    'IntLinIncR3/tol': (lambda A, b: ip.IntLinIncR3(A, b, consistency='tol', show=False), [S3, H3, T43], None, 1e-9),
    'WILS': (lambda A, b: quality(fit(ip.WILS(), A, b), A), [T32, H43, S2], None, 1e-5),
    'WILS/Uni': (lambda A, b: fit(ip.WILS(), A, b, objective='Uni').predict(A), [T32], None, 1e-5),
    'WILS/weight': (lambda A, b, v: quality(fit(ip.WILS(), A, b, weight=v), A), [T32, T43], lambda A: [2, 1, 3, 1][:len(A)], 1e-5),
    'WILS/x0': (lambda A, b, v: quality(fit(ip.WILS(), A, b, x0=v), A), [T32, T43], lambda A: [1, -1, 2][:len(A[0])], 1e-5),
    'WILS/C': (lambda A, b, v: quality(fit(ip.WILS(), A, b, constraint=ip.LinearConstraint(v, lb=np.full(1, 4.), ub=np.full(1, 5.))), A), [T32, T43], lambda A: [[2, 1, 3, 1][:len(A[0])]], 1e-5),
    'ISPAE': (lambda A, b: quality(fit(ip.ISPAE(), frame(A), b, order=2), frame(A)), [T32, H43], None, 1e-5),
    'ISPAE/array': (lambda A, b: quality(fit(ip.ISPAE(), A.data, b, order=2), A.data), [T32, T43], None, 1e-5),
    'ISPAE/Uni': (lambda A, b: fit(ip.ISPAE(), frame(A), b, order=1, objective='Uni').predict(frame(A)), [T32], None, 1e-5),
    'ISPAE/order': (lambda A, b, v: quality(fit(ip.ISPAE(), frame(A), b, order=v), frame(A)), [T32, T43], lambda A: [1, 2, 1][:len(A[0])], 1e-5),
    'ISPAE/weight': (lambda A, b, v: quality(fit(ip.ISPAE(), frame(A), b, order=1, weight=v), frame(A)), [T32, T43], lambda A: [2, 1, 3, 1][:len(A)], 1e-5),
    'ISPAE/x0': (lambda A, b, v: quality(fit(ip.ISPAE(), frame(A), b, order=1, x0=v), frame(A)), [T32, T43], lambda A: [1, -1, 2, 0][:len(A[0]) + 1], 1e-5),
    'HansenSengupta': (lambda A, b: ip.HansenSengupta(lambda x: A @ x - b, lambda x: A, ip.Interval(*[np.full(len(b), s * 50.) for s in (-1, 1)])), SQ[1:], None, 1e-6),
    'HansenSengupta/x0': (lambda A, b: ip.HansenSengupta(intervals_(poly), lambda x: ip.asinterval([[2 * x[0], 1 + 0 * x[0]], [-1 + 0 * x[0], 2 + 0 * x[0]]]), b), [(S2[0], [[1, 3], [0, 2]]), (S2[0], [[1, 3], [0.5, 1.75]])], None, 1e-6),
    'Krawczyk/x0': (lambda A, b: ip.Krawczyk(intervals_(poly), lambda x: ip.asinterval([[2 * x[0], 1 + 0 * x[0]], [-1 + 0 * x[0], 2 + 0 * x[0]]]), b), [(S2[0], [[1, 3], [0, 2]]), (S2[0], [[1, 3], [0.5, 1.75]])], None, 1e-6),
    'globopt/x0': (lambda A, b: ip.globopt(lambda x: x[0] ** 2 + x[1] * x[1] + x[0], b, tol=1e-3), [S2, D2], None, 1e-9),
    'diag': (lambda A, b: [ip.diag(A), ip.diag(b), ip.diag(A, k=-1), ip.compmat(A)], [S2, D2, S3, P2], None, 0),
    'characteristics': (lambda A, b: [f(x) for f in (ip.wid, ip.mid, ip.rad, ip.inf, ip.sup, ip.mag) for x in (A, b)] + [A.mig, b.mig, A.vertex if A.shape == (2, 2) else 0, b.vertex], ALL, None, 0),
    'relations': (lambda A, b: [f(A, A * 2 - A) for f in (ip.subset, ip.superset, ip.proper_subset, ip.contain, ip.supercontain)] + [ip.dist(b, b[::-1]), ip.dist(A, -A, order=2), ip.isnan(A), ip.intersection(A, A * 2 - A), A == A, A < A, A <= A + 1, 1 in b], ALL, None, 1e-12),
    'matmul': (lambda A, b, v: [v @ A, A.T @ b, (A.T @ A) @ v if len(A) == len(A.T) else 0], SQ, lambda A: [2, -1, 3, 1][:len(A)], 1e-12),
    'array op number array': (lambda A, b, v: [b + v, v + b, b - v, v - b, b * v, v * b, b / v, np.multiply(v, b)], ALL, lambda A: [2, -1, 3, 1][:len(A)], 1e-12),
    'array op large numbers': (lambda A, b, v: [b + v, v + b, b - v, v - b, b * v, v * b, b / v, v @ A, v @ b], ALL, lambda A: [127, 100, 90, 64][:len(A)], 1e-12),
    'functions': (lambda A, b: [ip.exp(b), ip.sin(b), ip.cos(A), ip.sqrt(b ** 2), ip.log(b ** 2 + 1), b ** 3, A ** 2, abs(A), -A, np.exp(b), np.sin(A)], ALL, None, 1e-12),
}

# nonnegative points too: unsigned numbers represent only these
for NAME, (CALL, SYSTEMS, NUMBERS, TOL) in list(CALLS.items()):
    if NUMBERS and NAME.split('/')[0] in ('Tol.value', 'Uni.value', 'Uss.value', 'ChebNorm.value') or NAME.endswith('/x0') and NUMBERS:
        CALLS[NAME + ', nonnegative'] = (CALL, SYSTEMS[:3], lambda A, f=NUMBERS: np.abs(f(A)).tolist(), TOL)


def representable(v, r):
    v = np.array(v, dtype=float)
    return (r != UNSIGNED or v.min() >= 0) and ((v == np.floor(v)).all() or r not in INTEGERS)


def outcome(f):
    try:
        return 'ok', boxes(f())
    except Exception as e:
        return 'refused', '%s: %s' % (type(e).__name__, str(e)[:100])


SLOW = ('ISPAE', 'IntLinIncR3', 'PPS', 'PSS', 'Tol.maximize', 'ChebNorm.minimize')
# orders are whole numbers
ONLY = {'ISPAE/order': ('int', 'int8', 'uint8', 'list of int')}
REF = {}


def reference(name, i):
    if (name, i) not in REF:
        call, systems, num, tol = CALLS[name]
        A, b = systems[i]
        args = [IVS['float'](A), IVS['float'](b)] + ([NUM['int' if name in ONLY else 'float'](num(A))] if num else [])
        REF[name, i] = outcome(lambda: call(*args))
    return REF[name, i]


def text(x):
    return repr(x) if isinstance(x, ip.ArrayInterval) else '%s %r' % (type(x).__name__, x)


def run(rec, items):
    for name, i, ra, rb, rv in items:
        call, systems, num, tol = CALLS[name]
        A, b = systems[i]
        rec.state()
        rec.edge()
        t = '%s with A=%s as "%s", b=%s as "%s"%s' % (name, A, ra, b, rb, ', the vector %s as "%s"' % (np.array(num(A)).tolist(), rv) if num else '')
        c = 'from checks import c37\nc37.show(%r, %d, %r, %r, %r)' % (name, i, ra, rb, rv)
        with rec.case(name, t, c, cpu=60):
            want = reference(name, i)
            ia, ibb = IVS[ra](A), IVS[rb](b)
            args = [ia, ibb] + ([NUM[rv](num(A))] if num else [])
            before = [text(a) for a in args]
            got = outcome(lambda: call(*args))
            if want[0] == 'ok' and got[0] == 'refused':
                if rv in LOOSE and name not in ARRAY_LIKE:
                    rec.outcome('list refused')
                else:
                    rec.fail(name + '/refused', 'refused (%s), float arrays are answered: %s' % (got[1], t), c)
            elif want[0] == 'refused' and got[0] == 'ok':
                rec.fail(name + '/answered', 'answered with %s, float arrays are refused (%s): %s' % (got[1], want[1], t), c)
            elif want[0] == 'ok' and not same(want[1], got[1], tol):
                rec.fail(name, 'the answer is %s, for float arrays %s: %s' % (got[1], want[1], t), c)
            if before != [text(a) for a in args]:
                rec.fail(name + '/operands', 'the arguments change: %s' % t, c)
            rec.outcome('%s %s' % (got[0], 'intervals' if rv == 'float' else 'numbers'))
        rec.trace()
    rec.sample(t)


def show(name, i, ra, rb, rv):
    call, systems, num, tol = CALLS[name]
    A, b = systems[i]
    print('float arrays:', reference(name, i))
    print('here:', outcome(lambda: call(*([IVS[ra](A), IVS[rb](b)] + ([NUM[rv](num(A))] if num else [])))))


def explore(ctx):
    items = []
    for name, (call, systems, num, tol) in CALLS.items():
        for i in range(len(systems)):
            both = list(itertools.product(IVS, IVS))
            both = [(p, q) for p, q in both if representable(systems[i][0], p) and representable(systems[i][1], q)]
            if not ctx.thorough:
                # each representation alone, both alike, and every seventh of the other pairs
                both = [(p, q) for p, q in both if p == q or 'float' in (p, q) and name != 'ISPAE/Uni' or (list(IVS).index(p) + 2 * list(IVS).index(q) + i + len(name)) % 7 == 0 and name.split('/')[0] not in SLOW]
            for p, q in both:
                items.append((name, i, p, q, 'int' if name in ONLY else 'float'))
            if num:
                items += [(name, i, p, q, r) for r in ONLY.get(name, list(NUM)[1:]) if representable(num(systems[i][0]), r)
                          for p, q in (('float', 'float'), ('int', 'int'), ('kaucher', 'float'), ('float', 'kaucher int')) if representable(systems[i][0], p) and representable(systems[i][1], q)]
    ctx.run(run, items, chunk=8)
    ctx.bounds = {'calls': len(CALLS), 'interval_representations': len(IVS), 'numeric_representations': len(NUM), 'combinations': len(items)}
    ctx.assumptions = ['entries are small integers, exact in every representation; differences up to the accuracy of each method are ignored; lists and tuples in place of NumPy vectors may be refused']
