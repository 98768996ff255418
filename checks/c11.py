"""C11: arithmetic of interval arrays = element-wise exact arithmetic with NumPy broadcasting.

Enumerates every (operation, kind of the left operand, kind of the right operand, shapes,
filling) in the bounds; the model is exact Kaucher arithmetic on endpoint pairs broadcast by
NumPy itself, and the matrix product is the exact sum of products.
"""
import itertools
import math
from mc import boot
from mc.kern import *

ip = boot.load()
import numpy as np
ID = 'C11'

POOL = [(1.0, 2.0), (-3.0, 0.5), (0.1, 0.3), (-2.0, -0.7), (4.0, 4.0), (-1.0, 6.0), (2.5, 3.5), (-0.25, 0.0), (0.0, 1.1), (7.0, 9.0),
        (5.0, 3.0), (1.0, -2.0), (-4.0, -5.0), (0.2, -0.1)]
PROPER = [p for p in POOL if p[0] <= p[1]]
NONZERO = [p for p in POOL if p[0] * p[1] > 0]
NUMS = [2.0, -3.0, 0.5, 0.1, -0.7, 4.0, 1.0, -8.0, 0.3, 6.0]
INTS = [2, -3, 1, 4, -1, 5, 3, -2, 7, 6]


# NumPy numbers of few bits: their negatives need not exist
SMALL = {'uint8': (np.uint8, [3, 200, 1, 255, 7]), 'int8': (np.int8, [-128, 5, -1, 127]), 'uint64': (np.uint64, [3, 2 ** 53, 1]),
         'float32': (np.float32, [float(np.float32(0.1)), -3.5, float(np.float32(1e30))])}


class P(tuple):
    pass


def arr(shape, pool, off, step):
    """An object array of exact pairs and the values it was built from."""
    n = int(np.prod(shape))
    m = np.empty(n, dtype=object)
    for i in range(n):
        v = pool[(off + i * step) % len(pool)]
        m[i] = P(v) if isinstance(v, tuple) else P((v, v))
    return m.reshape(shape)


def iv(p):
    return ip.Interval(p[0], p[1], sortQ=False)


def make(kind, shape, off, step, div):
    """(implementation operand, exact model operand, text)"""
    pool = NONZERO if div else POOL
    if kind == 'array':
        m = arr(shape, pool, off, step)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = iv(m[i])
        return ip.ArrayInterval(o), m
    if kind == 'parray':
        pool = [p for p in pool if p[0] <= p[1]]
        m = arr(shape, pool, off, step)
        lo = np.empty(shape)
        hi = np.empty(shape)
        for i in np.ndindex(*shape):
            lo[i], hi[i] = m[i]
        return ip.Interval(lo, hi), m
    if kind == 'ndarray':
        m = arr(shape, NUMS, off, step)
        return np.array([p[0] for p in m.flat]).reshape(shape), m
    if kind == 'intarray':
        m = arr(shape, INTS, off, step)
        return np.array([p[0] for p in m.flat]).reshape(shape), m
    if kind in SMALL:
        m = arr(shape, SMALL[kind][1], off, step)
        return np.array([p[0] for p in m.flat], dtype=SMALL[kind][0]).reshape(shape), m
    if kind == 'list':
        m = arr(shape, NUMS, off, step)
        return np.array([p[0] for p in m.flat]).reshape(shape).tolist(), m
    m = np.empty((), dtype=object)
    if kind in ('classical', 'kaucher'):
        c = ip.ClassicalArithmetic if kind == 'classical' else ip.KaucherArithmetic
        p = [q for q in pool if kind == 'kaucher' or q[0] <= q[1]]
        p = P(p[off % len(p)])
        m[()] = p
        return c(*p), m
    if kind[3:] in SMALL:
        dt, vals = SMALL[kind[3:]]
        v = dt(vals[off % len(vals)])
        m[()] = P((float(v), float(v)))
        return v, m
    v = {'float': lambda: NUMS[off % 10], 'int': lambda: INTS[off % 10], 'np.float64': lambda: np.float64(NUMS[off % 10]),
         'np.int64': lambda: np.int64(INTS[off % 10])}[kind]()
    m[()] = P((float(v), float(v)))
    return v, m


OPSM = {'+': k_add, '-': k_sub, '*': k_mul, '/': k_div}
FUN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
SHAPES = [(2,), (3,), (2, 2), (1, 2), (2, 1), (2, 3), (1,)]


def fr(p):
    return (F(p[0]), F(p[1]))


def content(r):
    """Implementation result as an object array of intervals."""
    if isinstance(r, ip.ArrayInterval):
        return r.data
    return None


def compare(r, want, k, objects=False):
    d = content(r)
    if d is None and objects and isinstance(r, np.ndarray) and r.dtype == object:
        d = r
    if d is None and objects and want.shape == ():
        d = np.empty((), dtype=object)
        d[()] = r
        r = d
    if d is None:
        return 'is %s, not an interval array' % type(r).__name__
    if tuple(r.shape) != want.shape or d.shape != want.shape:
        return 'has shape %r, expected %r' % (r.shape, want.shape)
    for i in np.ndindex(*want.shape):
        E, x = want[i], d[i]
        if not hasattr(x, 'a'):
            return 'element %r is %r' % (i, x)
        if isnan(x):
            return 'element %r is nan' % (i,)
        if not encloses(x, E):
            return 'element %r = %r does not enclose the exact [%r, %r]' % (i, x, float(E[0]), float(E[1]))
        if not tight(x, E, k):
            return 'element %r = %r is not the exact [%r, %r]' % (i, x, float(E[0]), float(E[1]))
    return None


def ewise(f, ma, mb):
    """NumPy broadcasts the exact pairs."""
    try:
        ia, ib = np.broadcast_arrays(ma, mb)
    except ValueError:
        return None
    out = np.empty(ia.shape, dtype=object)
    for i in np.ndindex(*ia.shape):
        out[i] = P(f(fr(ia[i]), fr(ib[i])))
    return out


KINDS = ['array', 'parray', 'ndarray', 'intarray', 'list', 'classical', 'kaucher', 'float', 'int', 'np.float64', 'np.int64'] + list(SMALL) + ['np.' + k for k in SMALL]


def elementwise(rec, items, fills):
    for op, ka, sa, kb, sb in items:
        rec.state()
        # proper operands only where an improper one is combined with zero-containing proper ones
        for off, step in fills:
            A, ma = make(ka, sa, off, step, False)
            B, mb = make(kb, sb, off + 3, step + 2, op == '/')
            want = ewise(OPSM[op], ma, mb)
            desc = '%s%r %s %s%r: %r %s %r' % (ka, sa, op, kb, sb, A, op, B)
            rec.edge()
            if want is None:
                try:
                    r = FUN[op](A, B)
                    rec.fail('broadcast', '%s: the shapes do not broadcast, got %r' % (desc, r))
                except ValueError:
                    rec.outcome('shape mismatch refused')
                except Exception as e:
                    rec.fail('broadcast', '%s: %r' % (desc, e))
                continue
            with rec.case('op' + op, desc):
                ba, bb = repr(A), repr(B)
                r = FUN[op](A, B)
                msg = compare(r, want, 4)
                if msg:
                    rec.fail('op%s/%s/%s' % (op, ka, kb), '%s %s' % (desc, msg))
                if (repr(A), repr(B)) != (ba, bb):
                    rec.fail('op%s/operands' % op, '%s changes an operand' % desc)
                rec.outcome('%s %s' % (op, r.ndim if hasattr(r, 'ndim') else 0))
            if ka in ('array', 'parray'):
                with rec.case('iop' + op, desc):
                    X = A
                    if op == '+':
                        X += B
                    elif op == '-':
                        X -= B
                    elif op == '*':
                        X *= B
                    else:
                        X /= B
                    rec.edge()
                    msg = compare(X, want, 4)
                    if msg:
                        rec.fail('iop%s/%s/%s' % (op, ka, kb), 'in place %s %s' % (desc, msg))
        rec.trace()
    rec.sample(desc)


UF = {'+': [np.add], '-': [np.subtract], '*': [np.multiply], '/': [np.divide, np.true_divide]}


def single(rec, items, fills):
    """A single interval with an array, list or number, by operators and by NumPy's functions."""
    for op, ka, kb, sb, swap in items:
        rec.state()
        for off, step in fills:
            X, mx = make(ka, (), off, step, op == '/' and swap)
            Y, my = make(kb, sb, off + 3, step + 2, op == '/')
            (A, ma), (B, mb) = ((Y, my), (X, mx)) if swap else ((X, mx), (Y, my))
            want = ewise(OPSM[op], ma, mb)
            desc = '%s %s %s: %r %s %r' % (kb if swap else ka, op, ka if swap else kb, A, op, B)
            before = repr(A), repr(B)
            for f, name in [(FUN[op], 'op' + op)] + [(u, 'np.' + u.__name__) for u in UF[op]]:
                rec.edge()
                with rec.case(name, desc):
                    msg = compare(f(A, B), want, 4, True)
                    if msg:
                        rec.fail('%s/%s/%s' % (name, ka, kb), '%s of %s %s' % (name, desc, msg))
                    if (repr(A), repr(B)) != before:
                        rec.fail(name + '/operands', '%s of %s changes an operand' % (name, desc))
                    rec.outcome('%s %d' % (name, want.ndim))
        rec.trace()


MM = [((2,), (2,)), ((3,), (3,)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 2)), ((2, 3), (3, 2)), ((1, 2), (2, 1)), ((2, 3), (3,)),
      ((3,), (3, 2)), ((3, 2), (2,)), ((3, 3), (3, 3)), ((1,), (1,)), ((3, 1), (1, 2)), ((1, 3), (3,)), ((2, 2, 2), (2, 2)), ((2, 2), (3,)), ((2, 3), (2, 2)), ((2,), (3,))]


def matmul_model(ma, mb):
    a, b = ma, mb
    try:
        shape = (np.zeros(a.shape) @ np.zeros(b.shape)).shape
    except ValueError:
        return None
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        if a.ndim == 1 and b.ndim == 1:
            terms = [(a[k], b[k]) for k in range(a.shape[0])]
        elif a.ndim == 1:
            terms = [(a[k], b[k, i[-1]]) for k in range(a.shape[0])]
        elif b.ndim == 1:
            terms = [(a[i + (k,)], b[k]) for k in range(a.shape[-1])]
        else:
            terms = [(a[i[:-1] + (k,)], b[k, i[-1]]) for k in range(a.shape[-1])]
        s = (F(0), F(0))
        m = F(0)
        for x, y in terms:
            pr = k_mul(fr(x), fr(y))
            s = k_add(s, pr)
            m += max(abs(pr[0]), abs(pr[1]))
        out[i] = (P(s), m)
    return out


def close(x, E, m, n):
    """Enclosure (of every proper result) with an excess of a few rounding errors."""
    tol = m * F(4 * n + 4, 2 ** 52)
    return E[0] - tol <= num(x.a) <= E[0] and E[1] <= num(x.b) <= E[1] + tol


def matrix(rec, items, fills):
    for ka, kb, sa, sb in items:
        rec.state()
        for off, step in fills:
            A, ma = make(ka, sa, off, step, False)
            B, mb = make(kb, sb, off + 5, step + 1, False)
            want = matmul_model(ma, mb)
            desc = '%s%r @ %s%r: %r @ %r' % (ka, sa, kb, sb, A, B)
            rec.edge()
            if want is None:
                try:
                    r = A @ B
                    rec.fail('matmul/shape', '%s: the shapes do not match, got %r' % (desc, r))
                except ValueError:
                    rec.outcome('matmul mismatch refused')
                except Exception as e:
                    rec.fail('matmul/shape', '%s: %r' % (desc, e))
                continue
            with rec.case('matmul', desc):
                r = A @ B
                n = ma.shape[-1]
                if want.shape == ():
                    if not hasattr(r, 'a') or hasattr(r, 'shape') and r.shape != ():
                        rec.fail('matmul', '%s is %r' % (desc, r))
                        continue
                    els = [(r, want[()])]
                else:
                    if not isinstance(r, ip.ArrayInterval) or tuple(r.shape) != want.shape:
                        rec.fail('matmul', '%s is %r, expected the shape %r' % (desc, r, want.shape))
                        continue
                    els = [(r.data[i], want[i]) for i in np.ndindex(*want.shape)]
                for x, (E, m) in els:
                    if isnan(x) or not close(x, E, m, n):
                        rec.fail('matmul/%s/%s' % (ka, kb), '%s: element %r, exactly [%r, %r]' % (desc, x, float(E[0]), float(E[1])))
                        break
                rec.outcome('@ %d' % len(want.shape))
        rec.trace()


UN = {'neg': lambda x: -x, 'abs': abs, '**2': lambda x: x ** 2, '**3': lambda x: x ** 3, '**1': lambda x: x ** 1, '**5': lambda x: x ** 5,
      'sqrt': lambda x: np.sqrt(x), 'exp': lambda x: np.exp(x), 'log': lambda x: np.log(x), 'sin': lambda x: np.sin(x), 'cos': lambda x: np.cos(x),
      'ip.sqrt': lambda x: ip.sqrt(x), 'ip.exp': lambda x: ip.exp(x), 'ip.log': lambda x: ip.log(x), 'ip.sin': lambda x: ip.sin(x), 'ip.cos': lambda x: ip.cos(x),
      'dual': lambda x: x.dual, 'pro': lambda x: x.pro, 'opp': lambda x: x.opp, 'inv': lambda x: x.inv}
ATTR = ['a', 'b', 'inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig']


def near(x, y):
    return abs(float(x) - float(y)) <= 4 * max(math.ulp(float(x)), math.ulp(float(y)))


def unary(rec, items, fills):
    """f(A) has the elements f(A[i]): the scalar functions themselves are C05's."""
    for name, shape in items:
        rec.state()
        for off, step in fills:
            pool = NONZERO if name == 'inv' else [p for p in PROPER if p[0] > 0] if name in ('sqrt', 'log', 'ip.sqrt', 'ip.log') else \
                PROPER if name in ('exp', 'sin', 'cos', 'ip.exp', 'ip.sin', 'ip.cos') else POOL
            m = arr(shape, pool, off, step)
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                o[i] = iv(m[i])
            A = ip.ArrayInterval(o)
            desc = '%s of %r' % (name, A)
            rec.edge()
            with rec.case(name, desc):
                if name in ATTR:
                    r = getattr(A, name)
                    if not isinstance(r, np.ndarray) or r.shape != shape or \
                            any(not near(r[i], getattr(iv(m[i]), name)) for i in np.ndindex(*shape)):
                        rec.fail(name, '%s is %r' % (desc, r))
                    if hasattr(ip, name):
                        g = getattr(ip, name)(A)
                        if np.shape(g) != shape or any(not near(g[i], r[i]) for i in np.ndindex(*shape)):
                            rec.fail(name, 'ip.%s is %r' % (desc, g))
                else:
                    r = UN[name](A)
                    bad = not isinstance(r, ip.ArrayInterval) or tuple(r.shape) != shape or r.data.shape != shape
                    if not bad:
                        for i in np.ndindex(*shape):
                            e = UN[name](iv(m[i]))
                            if not (near(r.data[i].a, e.a) and near(r.data[i].b, e.b)):
                                bad = True
                    if bad:
                        rec.fail(name, '%s is %r' % (desc, r))
                rec.outcome(name)
        rec.trace()


def explore(ctx):
    shapes = SHAPES + [(2, 1, 2), (3, 3)] if not ctx.thorough else SHAPES + [(2, 1, 2), (3, 3), (3, 1), (1, 1), (2, 2, 2), (4,)]
    fills = [(0, 1), (5, 3), (2, 5), (9, 1), (12, 3)] if not ctx.thorough else [(o, s) for o in range(0, 14, 2) for s in (1, 3, 5)]
    items = []
    scal = ('classical', 'kaucher', 'float', 'int', 'np.float64', 'np.int64') + tuple('np.' + k for k in SMALL)
    for op in '+-*/':
        for ka in ('array', 'parray'):
            for sa in shapes:
                for kb in KINDS:
                    for sb in (shapes if kb not in scal else [()]):
                        items.append((op, ka, sa, kb, sb))
                        if kb not in ('array', 'parray'):
                            items.append((op, kb, sb, ka, sa))
    ctx.run(elementwise, items, fills)
    one = [(op, ka, kb, sb, swap) for op in '+-*/' for ka in ('classical', 'kaucher') for kb in KINDS for sb in (shapes if kb not in scal else [()]) for swap in (False, True)]
    ctx.run(single, one, fills)
    mm = [(ka, kb, sa, sb) for sa, sb in MM for ka, kb in
          (('array', 'array'), ('array', 'parray'), ('parray', 'array'), ('parray', 'parray'), ('array', 'ndarray'), ('ndarray', 'array'), ('parray', 'intarray'), ('intarray', 'parray'),
           ('array', 'list'), ('list', 'array'))]
    ctx.run(matrix, mm, [(o, s) for o in range(0, 14, 1 if ctx.thorough else 3) for s in (1, 3)])
    ctx.run(unary, [(n, s) for n in list(UN) + ATTR for s in shapes], fills)
    ctx.bounds = {'single_interval_cases': len(one), 'shapes': [repr(s) for s in shapes], 'kinds': KINDS, 'fillings': len(fills), 'matrix_shapes': [repr(s) for s in MM]}
