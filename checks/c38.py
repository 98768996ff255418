"""C38: an operand of any type is either handled correctly or refused.

State = (operation, kind of the interval, other operand, side).  Every item runs in a child
process of its own, so that an operation which ends the process is a violation like any other
and not the end of the check.
"""
import ctypes
import datetime
import decimal
import itertools
import json
import math
import operator
import os
import signal
import warnings
from fractions import Fraction as F
from mc import boot
from mc.kern import k_add, k_sub, k_mul, k_div, zero_in, encloses, num

ip = boot.load()
import numpy as np
import pandas as pd
from mpmath import mpf, iv as mpiv
warnings.simplefilter('ignore')
ID = 'C38'
libm = ctypes.CDLL('libm.so.6')
INF, NAN = float('inf'), float('nan')


class Plain:
    def __repr__(self):
        return 'Plain()'


class Shy:
    """An object whose every attribute access is refused."""
    def __getattribute__(self, name):
        if name.startswith('__'):
            return object.__getattribute__(self, name)
        raise RuntimeError('no attribute')


class Exact:
    """An exact (Kaucher) interval with the operators NumPy applies to the elements of an object array."""
    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        return x.p if isinstance(x, Exact) else (F(x), F(x))

    def __add__(self, o):
        return Exact(k_add(self.p, Exact.of(o)))

    def __radd__(self, o):
        return Exact(k_add(Exact.of(o), self.p))

    def __sub__(self, o):
        return Exact(k_sub(self.p, Exact.of(o)))

    def __rsub__(self, o):
        return Exact(k_sub(Exact.of(o), self.p))

    def __mul__(self, o):
        return Exact(k_mul(self.p, Exact.of(o)))

    def __rmul__(self, o):
        return Exact(k_mul(Exact.of(o), self.p))

    def __truediv__(self, o):
        return Exact(k_div(self.p, Exact.of(o)))

    def __rtruediv__(self, o):
        return Exact(k_div(Exact.of(o), self.p))


# intervals: name -> (factory, model)
IVS = {
    'classical': (lambda: ip.Interval(1., 2.), (F(1), F(2))),
    'kaucher': (lambda: ip.KaucherArithmetic(2., 1.), (F(2), F(1))),
    'integers': (lambda: ip.Interval(1, 2), (F(1), F(2))),
    'array': (lambda: ip.Interval([1., -2], [2., -1]), [(F(1), F(2)), (F(-2), F(-1))]),
    'array object': (lambda: ip.ArrayInterval(np.array([ip.Interval(1., 2.), ip.KaucherArithmetic(4., 3.)], dtype=object)), [(F(1), F(2)), (F(4), F(3))]),
    'one element': (lambda: ip.Interval([1.], [2.]), [(F(1), F(2))]),
    'matrix': (lambda: ip.Interval([[1., -2], [3., 4.]], [[2., -1], [3., 5.]]), [[(F(1), F(2)), (F(-2), F(-1))], [(F(3), F(3)), (F(4), F(5))]]),
}
SCALAR = ('classical', 'kaucher', 'integers')


def pt(v):
    """The model of a nested list of numbers and pairs."""
    if isinstance(v, list):
        return [pt(x) for x in v]
    return v if isinstance(v, tuple) else (F(v), F(v))


# operands: name -> (factory, model: the nearest double of a number); the model NO is "not a number", FREE makes no claim on the value
NO, FREE = 'no', 'free'
OBJ = lambda *v: (lambda: np.array(list(v) + [None], dtype=object)[:-1])
OTHERS = {
    'None': (lambda: None, NO), "'a'": (lambda: 'a', NO), "'1'": (lambda: '1', NO), "''": (lambda: '', NO), "b'a'": (lambda: b'a', NO),
    '{}': (lambda: {}, NO), '{1: 2}': (lambda: {1: 2}, NO), 'set': (lambda: {1}, NO), 'frozenset': (lambda: frozenset([1]), NO), '1j': (lambda: 1j, NO),
    'object()': (object, NO), 'Plain()': (Plain, NO), 'Shy()': (Shy, NO), 'int': (lambda: int, NO), 'len': (lambda: len, NO), '...': (lambda: ..., NO), 'NotImplemented': (lambda: NotImplemented, NO),
    'Interval class': (lambda: ip.ClassicalArithmetic, NO), 'module': (lambda: os, NO), 'slice': (lambda: slice(1, 2), NO), 'bytearray': (lambda: bytearray(b'a'), FREE),
    'date': (lambda: datetime.date(2020, 1, 1), NO), 'timedelta': (lambda: datetime.timedelta(1), NO), 'exception': (lambda: ValueError('a'), NO),
    'datetime64': (lambda: np.datetime64('2020-01-01'), NO), 'Timestamp': (lambda: pd.Timestamp(0), NO), 'NaT': (lambda: pd.NaT, NO),
    'generator': (lambda: (q for q in (1, 2)), NO), 'np.complex128': (lambda: np.complex128(1j), FREE),
    'np.str_': (lambda: np.str_('a'), NO), 'dtype': (lambda: np.dtype(float), NO), 'bool': (lambda: True, F(1)), 'np.bool_': (lambda: np.bool_(True), F(1)),
    '3': (lambda: 3, F(3)), '-0.25': (lambda: -0.25, F(-1, 4)), '2**60+1': (lambda: 2 ** 60 + 1, F(2 ** 60)), '10**400': (lambda: 10 ** 400, F(10 ** 400)),
    'Fraction': (lambda: F(1, 3), F(1 / 3)), 'Decimal': (lambda: decimal.Decimal('0.1'), F(0.1)), 'mpf': (lambda: mpf(2), F(2)), 'mpi': (lambda: mpiv.mpf([1, 2]), FREE),
    'np.int8': (lambda: np.int8(-100), F(-100)), 'np.uint8': (lambda: np.uint8(200), F(200)), 'np.uint64': (lambda: np.uint64(2 ** 63 + 1), F(2 ** 63)), 'np.int64': (lambda: np.int64(7), F(7)),
    'np.float16': (lambda: np.float16(1.5), F(3, 2)), 'np.float32': (lambda: np.float32(0.1), F(float(np.float32(0.1)))), 'np.float64': (lambda: np.float64(-2.5), F(-5, 2)),
    'np.longdouble': (lambda: np.longdouble(1.5), F(3, 2)), 'nan': (lambda: NAN, FREE), 'inf': (lambda: INF, FREE), 'Decimal nan': (lambda: decimal.Decimal('NaN'), FREE),
    'array(2.)': (lambda: np.array(2.), F(2)), 'array(2)': (lambda: np.array(2), F(2)), 'array(interval)': (lambda: np.array(ip.Interval(1., 2.), dtype=object), (F(1), F(2))), 'array(None)': (lambda: np.array(None), NO),
    "array('a')": (lambda: np.array('a'), NO),
    '[1, 2]': (lambda: [1, 2], pt([1, 2])), '(1, 2)': (lambda: (1, 2), pt([1, 2])), 'range': (lambda: range(2, 4), pt([2, 3])), '[]': (lambda: [], FREE), '()': (lambda: (), FREE),
    "['a', 'b']": (lambda: ['a', 'b'], NO), '[None, 1]': (lambda: [None, 1], NO), '[1j, 1]': (lambda: [1j, 1], FREE), '[[1], [1, 2]]': (lambda: [[1], [1, 2]], NO), '[{}, {}]': (lambda: [{}, {}], NO),
    'array': (lambda: np.array([1., -2.]), pt([1, -2])), 'array one': (lambda: np.array([3.]), pt([3])), 'array int8': (lambda: np.array([-128, 3], dtype=np.int8), pt([-128, 3])), 'array bool': (lambda: np.array([True, True]), pt([1, 1])),
    'array empty': (lambda: np.array([]), FREE), 'array 3': (lambda: np.array([1., 2., 3.]), pt([1, 2, 3])), 'array 2d': (lambda: np.array([[1., 2.], [-3., 4.]]), pt([[1, 2], [-3, 4]])), 'matrix': (lambda: np.matrix([[1., 2.]]), FREE),
    'array str': (lambda: np.array(['a', 'b']), NO), "array '1'": (lambda: np.array(['1', '2']), NO), "['1', '2']": (lambda: ['1', '2'], NO), 'array None': (OBJ(None, 1), NO), 'array mixed': (OBJ(1.0, 'a'), NO), 'array complex': (lambda: np.array([1j, 1]), FREE), 'array float16': (lambda: np.array([1.5, 2], dtype=np.float16), pt([F(3, 2), 2])),
    'array Fraction': (OBJ(F(1, 3), F(2)), pt([F(1 / 3), 2])), 'array of intervals': (lambda: OBJ(ip.Interval(1., 2.), ip.Interval(3., 4.))(), [(F(1), F(2)), (F(3), F(4))]), 'list of intervals': (lambda: [ip.Interval(1., 2.), 3.0], [(F(1), F(2)), (F(3), F(3))]),
    'array interval and None': (lambda: OBJ(ip.Interval(1., 2.), None)(), NO), 'array datetime': (lambda: np.array(['2020-01-01', '2021-01-01'], dtype='datetime64[D]'), NO), 'record': (lambda: np.array([(1, 2.)], dtype=[('p', int), ('q', float)]), FREE),
    'masked': (lambda: np.ma.array([1., 2.], mask=[0, 1]), FREE), 'Series': (lambda: pd.Series([1., 2.]), FREE), 'Series of intervals': (lambda: pd.Series([ip.Interval(1., 2.)] * 2), FREE), 'DataFrame': (lambda: pd.DataFrame({'a': [1., 2.]}), FREE),
    'Index': (lambda: pd.Index([1., 2.]), FREE), 'pd.Interval': (lambda: pd.Interval(1, 2), NO),
}
OTHERS.update({'interval ' + n: (f, m) for n, (f, m) in IVS.items()})

ARITH = {'+': (operator.add, k_add), '-': (operator.sub, k_sub), '*': (operator.mul, k_mul), '/': (operator.truediv, k_div),
         '+=': (operator.iadd, k_add), '-=': (operator.isub, k_sub), '*=': (operator.imul, k_mul), '/=': (operator.itruediv, k_div),
         'np.add': (np.add, k_add), 'np.subtract': (np.subtract, k_sub), 'np.multiply': (np.multiply, k_mul), 'np.divide': (np.divide, k_div)}
# no interval semantics of their own with the operands here: refused for what is not a number, otherwise no claim on the value
LOOSE = {n: getattr(operator, m) for n, m in (('**', 'pow'), ('**=', 'ipow'), ('@', 'matmul'), ('@=', 'imatmul'), ('//', 'floordiv'), ('<<', 'lshift'), ('>>', 'rshift'), ('&', 'and_'), ('|', 'or_'), ('^', 'xor'))}
LOOSE['divmod'] = divmod
LOOSE.update({'np.' + n: getattr(np, n) for n in ('matmul', 'power', 'dot', 'maximum', 'floor_divide', 'hypot', 'arctan2')})
COMPARE = {n: getattr(operator, m) for n, m in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'))}
COMPARE.update({'np.' + n: getattr(np, n) for n in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')})
PAIR = {n: getattr(ip, n) for n in ('intersection', 'dist', 'subset', 'superset', 'proper_subset', 'contain', 'supercontain') if hasattr(ip, n)}
PAIR['in'] = lambda p, q: q in p


def setitem(p, q):
    p[(0,) * p.ndim] = q


def setlist(p, q):
    p[...] = [7, q]


def setlist_first(p, q):
    p[...] = [q, 7]


def setkey(p, q):
    p[q] = 1


def setkey_interval(p, q):
    p[q] = ip.Interval(5, 6)


def delitem(p, q):
    del p[q]


ITEMS = {'A[0] = x': setitem, 'A[...] = [7, x]': setlist, 'A[...] = [x, 7]': setlist_first, 'A[x] = 1': setkey, 'A[x] = interval': setkey_interval, 'del A[x]': delitem, 'A[x]': lambda p, q: p[q]}
UNARY = {n: getattr(ip, n) for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'asinterval')}
UNARY['Interval(x, 1)'] = lambda q: ip.Interval(q, 1)
UNARY['Interval(1, x)'] = lambda q: ip.Interval(1, q)
UNARY['Interval(x, x)'] = lambda q: ip.Interval(q, q)
UNARY['Interval([1, x], [2, x])'] = lambda q: ip.Interval([1, q], [2, q])
UNARY['ClassicalArithmetic'] = lambda q: ip.ClassicalArithmetic(q, q)
UNARY['KaucherArithmetic'] = lambda q: ip.KaucherArithmetic(q, q)
# NumPy functions that combine the elements by + - * / only
NUMPY = {n: (lambda p, q, n=n: getattr(np, n)(p)) for n in ('sum', 'mean', 'average', 'prod', 'cumsum', 'cumprod', 'trace', 'diff', 'diag', 'transpose', 'ravel', 'flip', 'squeeze', 'nanmean', 'tril', 'triu', 'hstack', 'vstack', 'stack', 'concatenate')}
NUMPY.update({n + '(x, y)': getattr(np, n) for n in ('dot', 'outer', 'cross', 'tensordot', 'convolve', 'polyval', 'matmul', 'add', 'multiply', 'subtract')})
NUMPY.update({'sum()': lambda p, q: sum(p), 'math.prod': lambda p, q: math.prod(p), 'mean(axis=0)': lambda p, q: np.mean(p, axis=0), 'sum(axis=0)': lambda p, q: np.sum(p, axis=0), 'cumsum(axis=0)': lambda p, q: np.cumsum(p, axis=0),
              'add.reduce': lambda p, q: np.add.reduce(p), 'add.accumulate': lambda p, q: np.add.accumulate(p), 'multiply.reduce': lambda p, q: np.multiply.reduce(p), 'add.outer': np.add.outer, 'subtract.outer': np.subtract.outer, 'divide.outer': np.divide.outer, 'add.reduceat': lambda p, q: np.add.reduceat(p, [0]), 'multiply.outer': np.multiply.outer, 'append': np.append, 'einsum': lambda p, q: np.einsum('i,i', p, q), 'interp': lambda p, q: np.interp(p, [0, 1], [0, 1]),
              'linalg.multi_dot': lambda p, q: np.linalg.multi_dot([p, q]), 'divide': np.divide})
NUMERIC = {'numbers': [2.0, -3.0], 'numbers 2d': [[1.0, -2.0], [0.5, 3.0]], 'integers 1d': [3, -1], 'one number': 2.0}
ALL = [(k, n) for k, d in (('arith', ARITH), ('loose', LOOSE), ('compare', COMPARE), ('pair', PAIR)) for n in d]
GROUPS = {'arith': ARITH, 'loose': LOOSE, 'compare': COMPARE, 'pair': PAIR, 'unary': UNARY, 'item': ITEMS}


def broadcast(f, X, Y):
    """The elementwise exact result as an object array (None: shapes do not fit)."""
    def arr(v):
        flat, shape, w = [], [], v
        while isinstance(w, list):
            shape.append(len(w))
            w = w[0]

        def walk(u):
            if isinstance(u, list):
                for t in u:
                    walk(t)
            else:
                flat.append(u)
        walk(v)
        a = np.empty(len(flat), dtype=object)
        for i, t in enumerate(flat):
            a[i] = t
        return a.reshape(shape)
    x, y = arr(X), arr(Y)
    try:
        s = np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        return None
    x, y = np.broadcast_to(x, s), np.broadcast_to(y, s)
    r = np.empty(s, dtype=object)
    for i in np.ndindex(*s):
        if f is k_div and zero_in(y[i]):
            return FREE
        r[i] = f(x[i], y[i])
    return r


def right(got, want):
    """Does the result have the shape of the exact one and enclose it element by element?"""
    if isinstance(got, ip.ArrayInterval):
        got = got.data
    if not isinstance(got, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = got
        got = a
    if got.shape != want.shape:
        return 'has shape %s instead of %s' % (got.shape, want.shape)
    for i in np.ndindex(*want.shape):
        g = got[i]
        if not isinstance(g, ip.ARITHMETICS if hasattr(ip, 'ARITHMETICS') else (ip.ClassicalArithmetic, ip.KaucherArithmetic)):
            return 'has the element %r' % (g,)
        if not encloses(g, want[i]):
            return 'does not enclose the exact result at %s' % (i,)
    return ''


def snap(x):
    """What must not change about an operand."""
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, [snap(v) for v in x.reshape(-1)]) if x.dtype == object else (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, (Shy, Plain)) or type(x).__name__ in ('object', 'generator'):
        return type(x).__name__
    try:
        return repr(x)
    except OverflowError:       # integers beyond the doubles have no text
        return type(x).__name__


def model(name, value):
    m = OTHERS[name][1] if name in OTHERS else value
    return (m, m) if isinstance(m, F) else m


def unequal(v, want):
    """Is v (a bool or an array of bools) everywhere `want`?"""
    try:
        a = np.asarray(v.data if isinstance(v, ip.ArrayInterval) else v, dtype=object).reshape(-1)
        return all(bool(x) == want for x in a)
    except Exception:
        return True


def judge(group, op, me, other, side):
    """The fault of one operation, or '' and what happened."""
    f = GROUPS[group][op]
    f, exact = f if group == 'arith' else (f, None)
    q, mq = OTHERS[other][0](), model(other, None)
    inplace = op.endswith('=') and op not in COMPARE or group == 'item' and op != 'A[x]'
    if group == 'unary':
        args = [q]
    else:
        p = IVS[me][0]()
        args = [p, q] if side == 0 else [q, p]
    before = [snap(a) for a in args]
    mode = libm.fegetround()
    err = None
    try:
        got = f(*args)
    except Exception as e:
        err = e
    # restored for what follows; the reading counts
    now, _ = libm.fegetround(), libm.fesetround(mode)
    if now != mode:
        return 'mode', 'leaves rounding mode %#x' % now, ''
    after = [snap(a) for a in args]
    if before[1:] != after[1:] or before[0] != after[0] and (not inplace or err is not None):
        return 'operands', 'changes an operand: %s -> %s' % (str(before)[:150], str(after)[:150]), ''
    if err is not None:
        # what is not shown in the documentation may be refused
        if group == 'arith' and (other in MUST or other.startswith('interval ')):
            want = broadcast(exact, *((IVS[me][1], mq) if side == 0 else (mq, IVS[me][1])))
            if want is not None and want is not FREE and not inplace:
                return 'refused', 'is refused: %s: %s' % (type(err).__name__, str(err)[:100]), ''
        return '', '', 'refused'
    if mq == NO:
        if group == 'arith' or group == 'loose' or group == 'unary':
            return 'answered', 'is answered with %s' % repr(got)[:150], ''
        if op.startswith('A[...]') or op == 'A[0] = x' and not isinstance(q, (list, tuple, np.ndarray, slice)) and q is not None:
            return 'stored', 'is answered: %s' % repr(args[0])[:150], ''
        if op in ('==', '!=', 'np.equal', 'np.not_equal') and not unequal(got, op in ('!=', 'np.not_equal')):
            return 'equal', 'is answered with %s' % repr(got)[:150], ''
        if op == 'in' and side == 0 and got and not isinstance(q, (list, tuple, np.ndarray)):
            return 'member', 'is answered with %r' % (got,), ''
        if group == 'pair' and op != 'in' and side in (0, 1):
            return 'answered', 'is answered with %s' % repr(got)[:150], ''
        return '', '', 'answered: unequal or false'
    if group == 'arith' and mq != FREE:
        mp = IVS[me][1]
        want = broadcast(exact, mp, mq) if side == 0 else broadcast(exact, mq, mp)
        if want is None:
            return 'shapes', 'is answered with %s' % repr(got)[:150], ''
        if want is not FREE and not isinstance(want, str):
            w = right(got, want)
            if w:
                return 'value', '= %s %s' % (repr(got)[:150], w), ''
            return '', '', 'right result'
    return '', '', 'no claim on the value'


# refusing these would break what the documentation shows
MUST = ('3', '-0.25', 'np.float64', 'np.int64')


def text(group, op, me, other, side):
    if group == 'unary':
        return '%s of %s' % (op, other)
    return '%s: %s, %s' % (op, *((me, other) if side == 0 else (other, me)))


def code(group, op, me, other, side):
    return 'from checks import c38\nprint(c38.judge(%r, %r, %r, %r, %r))' % (group, op, me, other, side)


def child(cases):
    """Run the cases (tag, function) in a child process; return its records and its status."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 120)
            for tag, f in cases:
                os.write(w, (json.dumps([tag]) + '\n').encode())
                try:
                    res = f()
                except Exception as e:
                    res = ('oracle', 'gives an object that cannot be read: %s: %s' % (type(e).__name__, str(e)[:200]), '')
                os.write(w, (json.dumps([tag, *res]) + '\n').encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    lines = [json.loads(l) for l in data.decode(errors='replace').splitlines() if l.startswith('[') and l.endswith(']')]
    return lines, status


def observe(rec, op, cases, say, src):
    """All cases of one operation in a child of their own; its end before the last one is a violation."""
    lines, status = child(cases)
    for l in lines:
        if len(l) != 4:
            continue
        tag, key, msg, out = l
        rec.state()
        rec.edge()
        rec.trace()
        if key:
            rec.fail('%s/%s' % (op, key), '%s %s' % (say(*tag), msg), src(*tag))
        else:
            rec.outcome(out)
    if status:
        # the other operands would only repeat it, slowly
        tag = lines[-1][0]
        rec.state()
        how = 'does not finish' if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM else 'ends the process (status %d)' % status
        rec.fail('%s/process' % op, '%s %s' % (say(*tag), how), src(*tag))


def run(rec, items):
    for group, op, me in items:
        sides = (0,) if group in ('unary', 'item') else (0, 1)
        cases = [((other, side), lambda o=other, d=side: judge(group, op, me, o, d)) for other in OTHERS for side in sides]
        observe(rec, op, cases, lambda o, d: text(group, op, me, o, d), lambda o, d: code(group, op, me, o, d))
    rec.sample('%s of %s with every operand, both sides' % (op, me))


def arrays(name):
    """The operand and its exact model (object arrays of Exact, or numbers)."""
    if name in NUMERIC:
        v = NUMERIC[name]
        ex = np.empty(np.shape(v), dtype=object)
        for i in np.ndindex(*np.shape(v)):
            ex[i] = F(np.array(v, dtype=object)[i])
        return (np.array(v) if np.ndim(v) else v), (ex if np.ndim(v) else F(v))
    f, m = IVS[name]
    x = f()
    shape = x.shape if isinstance(x, ip.ArrayInterval) else ()
    ex = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        t = m
        for j in i:
            t = t[j]
        ex[i] = Exact(t)
    return x, (ex if shape else ex[()])


def numpy_case(op, p, q):
    a, ea = arrays(p)
    b, eb = arrays(q)
    before = snap(a), snap(b)
    try:
        got = NUMPY[op](a, b)
    except Exception:
        got = None
    if (snap(a), snap(b)) != before:
        return 'operands', 'changes its arguments', ''
    if got is None:
        return '', '', 'NumPy function: refused'
    try:
        want = NUMPY[op](ea, eb)
    except Exception:
        return '', '', 'NumPy function: no claim on the value'
    g = np.asarray(got.data if isinstance(got, ip.ArrayInterval) else got, dtype=object)
    w = np.asarray(want, dtype=object)
    if g.shape != w.shape:
        return 'shape', '= %s has shape %s instead of %s' % (repr(got)[:150], g.shape, w.shape), ''
    for i in np.ndindex(*w.shape):
        x = g[i]
        lo, hi = (x.a, x.b) if hasattr(x, 'a') else (x, x)
        E = Exact.of(w[i])
        if not (F(float(lo)) <= E[0] and E[1] <= F(float(hi))):
            return 'value', '= %s does not enclose the exact result at %s' % (repr(got)[:150], i), ''
        # inwards of the exact ends by rounding only
        size = 1 + max(abs(E[0]), abs(E[1]))
        if E[0] - F(float(lo)) > size / 2 ** 40 or F(float(hi)) - E[1] > size / 2 ** 40:
            return 'wide', '= %s is too wide at %s' % (repr(got)[:150], i), ''
    return '', '', 'NumPy function: right result'


def run_numpy(rec, items):
    for op, p in items:
        cases = [((q,), lambda q=q: numpy_case(op, p, q)) for q in list(IVS) + list(NUMERIC) if p in IVS or q in IVS]
        observe(rec, 'np ' + op, cases, lambda q: '%s of %s, %s' % (op, p, q), lambda q: 'from checks import c38\nprint(c38.numpy_case(%r, %r, %r))' % (op, p, q))


def explore(ctx):
    ctx.run(run_numpy, [(n, p) for n in NUMPY for p in list(IVS) + list(NUMERIC)], chunk=8)
    items = [(g, n, me) for g, n in ALL for me in IVS] + [('unary', n, '') for n in UNARY] + [('item', n, me) for n in ITEMS for me in IVS if me not in SCALAR]
    ctx.run(run, items, chunk=4)
    ctx.bounds = {'operations': len(ALL) + len(UNARY) + len(ITEMS) + len(NUMPY), 'intervals': len(IVS), 'operands': len(OTHERS), 'sides': 2}
    ctx.assumptions = ['a refusal is any exception; NumPy complex scalars, masked and structured arrays and pandas objects only have to leave the process and the operands intact']
