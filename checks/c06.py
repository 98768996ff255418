"""C06: no operation leaves the processor's rounding mode changed.

State = (rounding mode on entry, history).  After every single operation - also one that
raises - the mode must be the one that was set before; checked for all four modes and for
histories in which failing and succeeding operations alternate.
"""
import ctypes
import itertools
import math
from mc import boot
from mc.kern import *

ip = boot.load()
import numpy as np
ID = 'C06'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic
libm = ctypes.CDLL('libm.so.6')
MODES = {'nearest': 0x000, 'down': 0x400, 'up': 0x800, 'zero': 0xc00}
NEAREST = 0


def get():
    return libm.fegetround()


def put(m):
    libm.fesetround(m)


class Bad:
    """An operand every operation chokes on."""
    def __float__(self):
        raise TypeError('bad')


def operations():
    I = lambda a, b: ip.Interval(a, b, sortQ=False)
    xs = {'P': I(0.1, 2.0), 'N': I(-3.0, -0.7), 'Z': I(-1.0, 2.0), 'imp': I(2.0, 1.0), 'dimp': I(1.0, -1.0),
          'int': C(1, 3), 'zero': C(0.0, 0.0), 'kz': K(0.0, 3.0), 'big': C(1e300, 1.7e308), 'tiny': C(5e-324, 1e-300)}
    ops = []
    for (n1, x), (n2, y) in itertools.product(xs.items(), xs.items()):
        for op in '+-*/':
            ops.append(('%s%s%s' % (n1, op, n2), lambda x=x, y=y, op=op: impl_op(op, x, y)))
    for n1, x in xs.items():
        for s in (3, 0, 0.1, -7.5, np.float64(0.1), np.int64(-3), 0.0, np.float32(0.1)):
            for op in '+-*/':
                ops.append(('%s%s%s' % (n1, op, lit(s)), lambda x=x, s=s, op=op: impl_op(op, x, s)))
                ops.append(('%s%s%s' % (lit(s), op, n1), lambda x=x, s=s, op=op: impl_op(op, s, x)))
        for nm, bad in (('str', 'a'), ('None', None), ('Bad', Bad()), ('hugeint', 10 ** 400), ('nan', math.nan), ('complex', 1j), ('list', [1, 2])):
            for op in '+-*/':
                ops.append(('%s%s%s' % (n1, op, nm), lambda x=x, s=bad, op=op: impl_op(op, x, s)))
                ops.append(('%s%s%s' % (nm, op, n1), lambda x=x, s=bad, op=op: impl_op(op, s, x)))
            ops.append(('%s**%s' % (n1, nm), lambda x=x, s=bad: x ** s))
        for p in (0, 1, 2, 3, 8, 64, 1000, -1, 0.5, -2.5, np.int64(3)):
            ops.append(('%s**%s' % (n1, lit(p)), lambda x=x, p=p: x ** p))
        for f in ('exp', 'log', 'sqrt', 'sin', 'cos', 'sign'):
            ops.append(('%s(%s)' % (f, n1), lambda x=x, f=f: getattr(ip, f)(x)))
        for f in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan'):
            ops.append(('np.%s(%s)' % (f, n1), lambda x=x, f=f: getattr(np, f)(x)))
        for f in ('inv', 'opp', 'dual', 'pro', 'mid', 'rad', 'wid', 'mag', 'mig', 'khi'):
            ops.append(('%s.%s' % (n1, f), lambda x=x, f=f: getattr(x, f)))
        ops.append(('-%s' % n1, lambda x=x: -x))
        ops.append(('abs(%s)' % n1, lambda x=x: abs(x)))
        ops.append(('exp(-inf..inf)', lambda: ip.exp(C(-math.inf, math.inf))))
        ops.append(('sin(inf)', lambda: ip.sin(C(0.0, math.inf))))
        ops.append(('cos(inf)', lambda: ip.cos(C(-math.inf, math.inf))))
        ops.append(('sin(nan)', lambda: ip.sin(C(math.nan, math.nan))))
    A = ip.Interval([[2, 0.1], [-1, 3]], [[4, 0.3], [1, 5]], sortQ=False)
    v = ip.Interval([-1, 0.5], [2, 1.5], sortQ=False)
    z = ip.Interval([-1, 0.5], [1, 1.5], sortQ=False)
    arr = {
        'A@v': lambda: A @ v, 'A@A': lambda: A @ A, 'v@v': lambda: v @ v, 'A*v': lambda: A * v, 'v/A': lambda: v / A,
        'A/z (zero)': lambda: A / z, '1/z': lambda: 1 / z, 'A-0.1': lambda: A - 0.1, 'np@A': lambda: np.array([[1., 2], [3, 4]]) @ A,
        'A@np': lambda: A @ np.array([0.1, 0.2]), 'exp A': lambda: ip.exp(A), 'log z': lambda: ip.log(z), 'A**2': lambda: A ** 2,
        'z**0.5': lambda: z ** 0.5, 'shape error': lambda: A @ ip.Interval([1, 2, 3], [1, 2, 3]), 'A+bad': lambda: A + 'x',
        'inv z': lambda: z.inv, 'A.inv': lambda: (A + 10).inv,
    }
    ops += list(arr.items())
    ops += [('Gauss', lambda: ip.linear.Gauss(A, v)), ('GS', lambda: ip.linear.Gauss_Seidel(A, v)),
            ('Gauss singular', lambda: ip.linear.Gauss(z_mat(), v)), ('HBR', lambda: ip.linear.HBR(A, v)),
            ('PSS', lambda: ip.linear.PSS(A, v)), ('PPS', lambda: ip.linear.PPS(A, v)), ('Rohn', lambda: ip.linear.Rohn(A, v)),
            ('Subdiff', lambda: ip.linear.Subdiff(A, v)), ('Tol', lambda: ip.Tol.maximize(A, v)),
            ('Tol.value', lambda: ip.Tol.value(A, v, np.array([0.1, 0.2])))]
    return ops


def z_mat():
    return ip.Interval([[-1, -1], [-1, -1]], [[1, 1], [1, 1]], sortQ=False)


OPS_ = operations()


def fire(i):
    name, f = OPS_[i]
    try:
        f()
        return 'ok'
    except Exception as e:
        return type(e).__name__


def single(rec, items):
    for mode, i in items:
        rec.state()
        rec.edge()
        put(MODES[mode])
        try:
            out = fire(i)
        finally:
            m = get()
            put(NEAREST)
        rec.outcome(out)
        if m != MODES[mode]:
            rec.fail('mode', 'rounding mode %s before, %#x after %s (%s)' % (mode, m, OPS_[i][0], out),
                     '# operation: ' + OPS_[i][0])
        rec.trace()


def pairs(rec, items, second):
    """Two operations in a row, the first of which may raise: same mode, same result as alone."""
    for i in items:
        rec.state()
        for j in second:
            rec.edge(2)
            fire(i)
            m1 = get()
            fire(j)
            m2 = get()
            put(NEAREST)
            if m1 != NEAREST or m2 != NEAREST:
                rec.fail('mode', 'after %s, %s the rounding mode is %#x' % (OPS_[i][0], OPS_[j][0], m2))
            rec.trace()


def nested(rec, items):
    """An operation inside another: numpy calls the kernel from callbacks."""
    for i in items:
        rec.edge()
        rec.state()
        try:
            np.vectorize(lambda k: OPS_[i][1]())(np.arange(2))
        except Exception as e:
            rec.outcome('nested ' + type(e).__name__)
        m = get()
        put(NEAREST)
        if m != NEAREST:
            rec.fail('mode', 'rounding mode %#x after a vectorized %s' % (m, OPS_[i][0]))
        rec.trace()


def explore(ctx):
    n = len(OPS_)
    solvers = {'Gauss', 'GS', 'Gauss singular', 'HBR', 'PSS', 'PPS', 'Rohn', 'Subdiff', 'Tol', 'Tol.value'}
    k = [i for i in range(n) if OPS_[i][0] not in solvers]
    ctx.run(single, [(m, i) for m in MODES for i in k] + [('nearest', i) for i in range(n)])
    ctx.run(pairs, k if ctx.thorough else k[::3], k[::11] if ctx.thorough else k[::37])
    ctx.run(nested, k)
    ctx.bounds = {'operations': n, 'modes': list(MODES), 'history': 2}
    ctx.assumptions = ['x86-64 glibc fegetround encodes the mode of SSE and x87 alike']
    ctx.rec.sample('operation %s under every mode' % OPS_[3][0])
    ctx.rec.sample('history %s ; %s' % (OPS_[10][0], OPS_[37][0]))
