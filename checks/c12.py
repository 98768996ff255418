"""C12: every public function is pure: same answer after any history, arguments untouched.

State = the hidden state of the library (module variables, rounding mode, random generator,
NumPy and pandas settings, values of arguments).  Transitions = calls of the public API.  The
sequences contain every ordered pair (thorough: every ordered triple) of calls, so a call whose
effect depends on, or leaks into, another one is met in both roles.
"""
import copy
import math
import os
import warnings
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
import pandas as pd
warnings.simplefilter('ignore')
ID = 'C12'
I = ip.Interval


# canonical form of values -------------------------------------------------------------------
def canon(x, depth=0):
    if depth > 8:
        return '...'
    if isinstance(x, ip.ArrayInterval):
        return ('AI', x.shape, tuple(canon(v, depth + 1) for v in np.ravel(x.data)))
    if isinstance(x, (ip.ClassicalArithmetic, ip.KaucherArithmetic)):
        return (type(x).__name__, number(x.a), number(x.b))
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, tuple(canon(v, depth + 1) for v in x.ravel().tolist()))
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(map(str, x.columns)), tuple(canon(x[c].to_numpy(), depth + 1) for c in x.columns))
    if isinstance(x, pd.Series):
        return ('sr', canon(x.to_numpy(), depth + 1))
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(canon(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, canon(v, depth + 1)) for k, v in sorted(x.items()))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return number(x)
    if isinstance(x, ip.LinearConstraint):
        return ('lc', canon(vars(x), depth + 1))
    if x is None or isinstance(x, str):
        return x
    return type(x).__name__


def number(x):
    x = float(x)
    return 'nan' if math.isnan(x) else x + 0.0


def same_canon(p, q, tol):
    if isinstance(p, tuple) and isinstance(q, tuple):
        return len(p) == len(q) and all(same_canon(a, b, tol) for a, b in zip(p, q))
    if isinstance(p, float) and isinstance(q, float):
        return p == q or (tol and math.isfinite(p) and math.isfinite(q) and abs(p - q) <= tol * (1 + abs(p) + abs(q)))
    return p == q


# the calls: name -> (arguments, function, tolerance) ------------------------------------------
def A2():
    return I([[2, -1], [-1, 2.5]], [[4, 1], [0.5, 3.25]])


def b2():
    return I([-2, 1], [2, 1.5])


def K2():
    return I([[2, 1], [-0.5, 3]], [[4, -1], [0.5, 2.5]], sortQ=False)


def A3():
    return I([[4, -1, 0], [0, 3, -1], [-1, 0, 5]], [[5, 1, 1], [1, 4, 0.5], [0, 0.5, 6]])


def b3():
    return I([-1, 0, 2], [1, 2, 3])


def A32():
    return I([[2, -1], [-1, 2.5], [0.5, 1]], [[4, 1], [0.5, 3.25], [1, 1.5]])


def bb():
    return I([-2, -1, -3], [2, 1.5, 4])


def fsq(x):
    return x ** 2 - 2


def f2(x):
    return ip.asinterval([x[0] ** 2 + x[1] ** 2 - 1, x[0] - x[1] ** 2])


def J2(x):
    return ip.asinterval([[2 * x[0], 2 * x[1]], [1, -2 * x[1]]])


def cons():
    return ip.LinearConstraint(np.array([[1.0, 1.0], [1.0, -2.0]]), lb=np.array([-np.inf, -0.5]), ub=np.array([0.125, np.inf]))


def wils(objective='Tol', norm='inf', **kw):
    def go(X, y, w, c=None):
        m = ip.WILS(alpha=0.25, beta=2)
        m.fit(X, y, weight=w, objective=objective, norm=norm, constraint=c, **kw)
        return dict(m.estimator), m.predict(X)
    return go


def ispae(basis='monom', **kw):
    def go(X, y, w):
        m = ip.ISPAE(alpha=0.25, beta=2, basis=basis)
        m.fit(X, y, order=2, weight=w, maxiter=40, **kw)
        return dict(m.estimator), m.predict(X)
    return go


def XD():
    return pd.DataFrame({'u': list(I([0.0, 1, 2, 3], [0.5, 1.5, 2.5, 3.5]).data)})


def y4():
    return I([0, 0.5, 3, 8], [1, 2, 6, 12])


def w3():
    return np.array([1.0, 2.0, 0.5])


def quad(x):
    return float(np.sum(abs(x - [1, 2]))), np.sign(x - [1, 2])


def inplace(op):
    def go(x, y):
        z = x.copy()
        if op == '+':
            z += y
        elif op == '-':
            z -= y
        elif op == '*':
            z *= y
        else:
            z /= y
        return z
    return go


def setter(x, v):
    z = x.copy()
    z[0, 1] = v
    z[1] = v
    return z, x


S = ip.Interval
CALLS = {
    'add': (lambda: [S(0.1, 0.3), S(-1, 2)], lambda x, y: x + y, 0),
    'sub': (lambda: [S(0.1, 0.3), 7], lambda x, y: x - y, 0),
    'mul': (lambda: [S(0.1, 0.3), S(-1.1, 2)], lambda x, y: x * y, 0),
    'div': (lambda: [S(0.1, 0.3), S(3, 7)], lambda x, y: x / y, 0),
    'kmul': (lambda: [S(0.3, 0.1, sortQ=False), S(-1.1, 2)], lambda x, y: x * y, 0),
    'kdiv': (lambda: [S(3, 1, sortQ=False), S(7, 3, sortQ=False)], lambda x, y: x / y, 0),
    'pow': (lambda: [S(-1.3, 0.7)], lambda x: (x ** 2, x ** 3, 2.5 * x, 1 - x), 0),
    'powneg': (lambda: [S(0.3, 0.7)], lambda x: (x ** -2, x ** 0.5), 0),
    'divzero': (lambda: [S(1, 2), S(-1, 1)], lambda x, y: x / y, 0),
    'order': (lambda: [S(1, 2), S(1, 3)], lambda x, y: (x < y, x == y, x <= y, 1.5 in x), 0),
    'kinds': (lambda: [S(3, 1, sortQ=False)], lambda x: (x.dual, x.pro, x.opp, x.inv, x.mid, x.rad, x.wid, x.mag, x.mig, x.khi), 0),
    'new': (lambda: [[[1, 2], [3, 5]]], lambda x: (S(x), S(3, 1), S(3, 1, sortQ=False)), 0),
    'newmid': (lambda: [np.array([1.0, 2.5]), np.array([0.25, 3.0])], lambda m, r: S(m, r, midRadQ=True), 0),
    'newlist': (lambda: [[1.0, 2.5], [0.25, 3.0]], lambda a, b: (S(a, b), S(a, b, sortQ=False)), 0),
    'arradd': (lambda: [A2(), b2()], lambda x, y: (x + y, x - y, x * y, 3 * x), 0),
    'arrdiv': (lambda: [A2(), S([3.0, 0.7], [4.0, 7.3])], lambda x, y: (x / y, 1 / y), 0),
    'matmul': (lambda: [A2(), b2(), np.array([[1.0, 0.3], [-1, 0.7]])], lambda x, y, p: (x @ y, p @ x, x @ p, x @ K2()), 0),
    'iadd': (lambda: [A2(), b2()], inplace('+'), 0),
    'isub': (lambda: [A2(), 0.1], inplace('-'), 0),
    'imul': (lambda: [A2(), K2()], inplace('*'), 0),
    'idiv': (lambda: [A2(), S(3, 7)], inplace('/'), 0),
    'setitem': (lambda: [A2(), S(5, 9)], setter, 0),
    'views': (lambda: [A2()], lambda x: (x.T, x.reshape((4,)), x[0], x[:, 1:], x.copy(), x.dual, x.mid, x.a, x.b), 0),
    'vertex': (lambda: [I([1, 2], [3, 4])], lambda x: x.vertex, 0),
    'elem': (lambda: [S(0.1, 0.3)], lambda x: (np.sin(x), np.cos(x), np.exp(x), np.log(x), np.sqrt(x)), 0),
    'arrelem': (lambda: [I([0.5, 1], [2, 7])], lambda x: (ip.sqrt(x), ip.exp(x), ip.log(x), ip.sin(x), ip.cos(x), abs(x)), 0),
    'zeros': (lambda: [(2, 2)], lambda s: (ip.zeros(s), ip.full(s, 1, 2), ip.eye(2), ip.eye(2, 3, 1)), 0),
    'systems': (lambda: [3], lambda n: (ip.Neumaier_system(n, 3.5), ip.Shary_system(n), ip.Toft_system(n, 0.1, 0.2)), 0),
    'intersection': (lambda: [A2(), K2()], ip.intersection, 0),
    'asinterval': (lambda: [[[1, S(2, 3)], [S(0, 1), 4.5]]], ip.asinterval, 0),
    'dist': (lambda: [A2(), K2()], lambda x, y: (ip.dist(x, y), ip.dist(x, y, order=2)), 1e-12),
    'diag': (lambda: [A2(), b2()], lambda x, y: (ip.diag(x), ip.diag(y), ip.compmat(x), ip.isnan(x)), 0),
    'chars': (lambda: [A2()], lambda x: (ip.wid(x), ip.mid(x), ip.rad(x), ip.inf(x), ip.sup(x), ip.mag(x)), 0),
    'subset': (lambda: [A2(), K2()], lambda x, y: (ip.subset(x, y), ip.superset(x, y), ip.proper_subset(x, y), ip.contain(x, y)), 0),
    'Gauss': (lambda: [A2(), b2()], ip.Gauss, 1e-9),
    'Gauss3': (lambda: [A3(), b3()], ip.Gauss, 1e-9),
    'Gauss_Seidel': (lambda: [A2(), b2()], ip.Gauss_Seidel, 1e-9),
    'Gauss_Seidel x0': (lambda: [A2(), b2(), I([-1, -1], [2, 2]), np.eye(2)], lambda A, b, x, C: ip.Gauss_Seidel(A, b, x0=x, C=C, maxiter=3), 1e-9),
    'Gauss_Seidel empty': (lambda: [A2(), b2(), I([50, 50], [60, 60])], lambda A, b, x: ip.Gauss_Seidel(A, b, x0=x), 1e-9),
    'HBR': (lambda: [A2(), b2()], ip.HBR, 1e-9),
    'HBR3': (lambda: [A3(), b3()], ip.HBR, 1e-9),
    'Rohn': (lambda: [A32(), bb()], ip.Rohn, 1e-7),
    'Rohn tol': (lambda: [A2(), I([-5, -5], [5, 5])], lambda A, b: ip.Rohn(A, b, consistency='tol'), 1e-7),
    'PSS': (lambda: [A2(), b2()], ip.PSS, 1e-7),
    'PSS over': (lambda: [A32(), bb(), np.array([1])], lambda A, b, nu: ip.PSS(A, b, nu=nu, maxiter=9), 1e-7),
    'PPS': (lambda: [A2(), b2()], ip.PPS, 1e-7),
    'Subdiff': (lambda: [A2(), b2()], ip.Subdiff, 1e-9),
    'Tol': (lambda: [A32(), bb(), np.array([0.1, 0.2]), w3()], lambda A, b, x, w: (ip.Tol.value(A, b, x, weight=w), ip.Tol.constituent(A, b, x), ip.Tol.maximize(A, b, x0=x, weight=w)), 1e-7),
    'Uni': (lambda: [A32(), bb(), np.array([0.1, 0.2]), w3()], lambda A, b, x, w: (ip.Uni.value(A, b, x, weight=w), ip.Uni.maximize(A, b, x0=x, weight=w)), 1e-7),
    'Uss': (lambda: [A32(), bb(), np.array([0.1, 0.2]), w3()], lambda A, b, x, w: (ip.Uss.value(A, b, x, weight=w), ip.Uss.maximize(A, b, x0=x, weight=w)), 1e-7),
    'Tol constrained': (lambda: [A32(), bb(), cons()], lambda A, b, c: ip.Tol.maximize(A, b, linear_constraint=c), 1e-7),
    'Uss constrained': (lambda: [8 * A32(), bb(), cons()], lambda A, b, c: ip.Uss.maximize(A, b, linear_constraint=c), 1e-7),
    'ChebNorm': (lambda: [A32(), bb(), np.array([0.1, 0.2]), w3()], lambda A, b, x, w: (ip.ChebNorm.value(A, b, x, weight=w), ip.ChebNorm.minimize(A, b, x0=x, weight=w)), 1e-7),
    'ChebNorm constrained': (lambda: [A32(), bb(), cons()], lambda A, b, c: ip.ChebNorm.minimize(A, b, linear_constraint=c), 1e-7),
    'LinearConstraint': (lambda: [np.array([[1.0, 1.0], [0, 0]]), np.array([0.0, 1.0]), np.array([np.inf, 2.0])], lambda C, l, u: vars(ip.LinearConstraint(C, lb=l, ub=u)), 0),
    'Neumaier': (lambda: [A2(), I([-5, -5], [5, 5]), np.array([0.1, -0.1]), np.array([1.0, 2.0])], lambda A, b, c, w: ip.Neumaier(A, b, c, w), 1e-9),
    'ralgb5': (lambda: [np.array([5.0, -3.0])], lambda x: ip.ralgb5(quad, x), 1e-7),
    'lineqs': (lambda: [np.array([[1.0, 0], [0, 1], [-1, -1]]), np.array([0.0, 0, -1])], lambda A, b: ip.lineqs(A, b, show=False), 1e-7),
    'lineqs unbounded': (lambda: [np.array([[1.0, 0], [0, 1]]), np.array([30.0, -70])], lambda A, b: ip.lineqs(A, b, show=False), 1e-7),
    'lineqs bounds': (lambda: [np.array([[1.0, 2.0]]), np.array([1.0]), ((-3, -4), (5, 6))], lambda A, b, B: ip.lineqs(A, b, show=False, bounds=B), 1e-7),
    'lineqs empty': (lambda: [np.array([[1.0, 0], [-1, 0]]), np.array([1.0, 1.0])], lambda A, b: ip.lineqs(A, b, show=False), 1e-7),
    'IntLinIncR2': (lambda: [A2(), b2()], lambda A, b: ip.IntLinIncR2(A, b, show=False), 1e-7),
    'IntLinIncR2 tol': (lambda: [A32(), bb()], lambda A, b: ip.IntLinIncR2(A, b, show=False, consistency='tol'), 1e-7),
    'IntLinIncR2 unbounded': (lambda: [I([[-1, 1]], [[1, 2]]), I([3], [4])], lambda A, b: ip.IntLinIncR2(A, b, show=False), 1e-7),
    'lineqs3D': (lambda: [np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1]]), np.array([0.0, 0, 0, -1])], lambda A, b: ip.lineqs3D(A, b, show=False), 1e-7),
    'IntLinIncR3': (lambda: [A3(), b3()], lambda A, b: ip.IntLinIncR3(A, b, show=False), 1e-7),
    'rows': (lambda: [np.array([[1.0, 0], [0, 0], [1, 0]]), np.array([1.0, -1, 1])], lambda a, b: (ip.unique(a), ip.non_repeat(a, b), ip.clear_zero_rows(a, b)), 0),
    'HansenSengupta': (lambda: [S(1, 2)], lambda x: ip.HansenSengupta(fsq, lambda t: 2 * t, x), 1e-9),
    'HansenSengupta2': (lambda: [I([0.5, 0.5], [1, 1])], lambda x: ip.HansenSengupta(f2, J2, x), 1e-9),
    'Krawczyk': (lambda: [S(1, 2)], lambda x: ip.Krawczyk(fsq, lambda t: 2 * t, x), 1e-9),
    'Krawczyk2': (lambda: [I([0.5, 0.5], [1, 1])], lambda x: ip.Krawczyk(f2, J2, x, maxiter=4), 1e-9),
    'no root': (lambda: [S(3, 4)], lambda x: ip.Krawczyk(fsq, lambda t: 2 * t, x), 1e-9),
    'globopt': (lambda: [I([-1, -2], [2, 1])], lambda x: ip.globopt(lambda t: t[0] ** 2 + t[1] - t[0] * t[1], x, maxiter=25), 1e-9),
    'WILS': (lambda: [A32(), bb(), w3(), cons()], wils(), 1e-6),
    'WILS l1': (lambda: [A32(), bb(), w3()], wils('Uss', 'l1'), 1e-6),
    'ISPAE': (lambda: [XD(), y4(), np.array([1.0, 2, 1, 3])], ispae(), 1e-6),
    'ISPAE laguerre': (lambda: [XD(), y4(), np.array([1.0, 2, 1, 3])], ispae('laguerre', objective='Uni', norm='l1', bias=False), 1e-6),
    'ISPAE hermite': (lambda: [XD(), y4(), np.array([1.0, 2, 1, 3])], ispae('hermite', norm='l1'), 1e-6),
    'repr': (lambda: [A2(), S(1 / 3, 2 / 3)], lambda x, y: (repr(x), str(y)), 0),
}
# a random search by design: only its arguments and its side effects are judged
RANDOM = {'ive': (lambda: [A2(), b2()], lambda A, b: ip.ive(A, b, N=3), 0)}
CALLS.update(RANDOM)
NAMES = sorted(CALLS)
SLOW = {'ISPAE', 'ISPAE laguerre', 'ISPAE hermite', 'IntLinIncR3', 'PPS', 'Uss constrained', 'PSS', 'PSS over'}


def environment():
    """Hidden state that a call could leave behind."""
    return (1.0 + 2.0 ** -53 == 1.0, -1.0 - 2.0 ** -53 == -1.0, 1.0 / 3.0, -1.0 / 3.0, 0.1 + 0.2, 5e-324 * 1.0,
            tuple(sorted(np.geterr().items())), os.getcwd(), tuple(np.get_printoptions().items()).__repr__(),
            len(warnings.filters), pd.options.display.precision)


def random_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def call(name):
    """(result or refusal, arguments before, arguments after, the objects)"""
    make, f, tol = CALLS[name]
    args = make()
    before = canon(args)
    try:
        r = f(*args)
        out = canon(r)
    except Exception as e:
        r, out = None, ('raises', type(e).__name__)
    return out, before, canon(args), r, args


def judge(rec, prev, name, base, env, rnd):
    rec.state()
    rec.edge()
    t = '%s%s' % (name, ' after %s' % (prev,) if prev else '')
    cpu = 60
    with rec.case('call', 'the call %s' % t, cpu=cpu):
        out, before, after, r, args = call(name)
        if before != after:
            rec.fail('operands/%s' % name, 'the call %r changes its arguments: %s -> %s' % (name, before, after))
        if name not in RANDOM:
            if not same_canon(out, base[name], CALLS[name][2]):
                rec.fail('history/%s' % name, 'the call %s gives %s, alone it gives %s' % (t, out, base[name]))
            if random_state() != rnd:
                rec.fail('random/%s' % name, 'the call %r changes the state of numpy.random' % name)
        e = environment()
        if e != env:
            rec.fail('environment/%s' % name, 'the call %s leaves %s, it was %s' % (t, e, env))
        return r, args
    return None, None


def sequences(rec, items, base, env):
    for seq in items:
        prev = ()
        for name in seq:
            rnd = random_state()
            judge(rec, prev, name, base, env, rnd)
            prev = (prev + (name,))[-3:]
        rec.outcome('sequence')
        rec.trace()
    rec.sample(' -> '.join(seq[:6]))


def baseline(rec, items):
    """Every call alone, in a process of its own that has called nothing else."""
    for name in items:
        pid_r, pid_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = call(name)[0]
                os.write(pid_w, repr(out).encode())
            finally:
                os._exit(0)
        os.close(pid_w)
        data = b''
        while True:
            d = os.read(pid_r, 1 << 16)
            if not d:
                break
            data += d
        os.close(pid_r)
        os.waitpid(pid, 0)
        rec.succ[name] = data.decode()
        rec.state()
        rec.edge()


# calls whose result is computed anew: changing it in place must not reach the arguments
NEW = [n for n in NAMES if n not in ('views', 'setitem')]


def scribble(x, depth=0):
    """Overwrite everything writable in a result."""
    if depth > 6:
        return
    if isinstance(x, ip.ArrayInterval):
        for k in np.ndindex(*x.shape):
            x[k] = I(77, 78)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 77
        elif x.dtype == object:
            for v in x.ravel().tolist():
                scribble(v, depth + 1)
    elif isinstance(x, pd.Series):
        x[:] = 77
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, depth + 1)


def results(rec, items, base, env):
    for name in items:
        rec.state(2)
        rec.edge(2)
        with rec.case('result', 'overwriting the result of %s' % name, cpu=60):
            out, before, after, r, args = call(name)
            scribble(r)
            if canon(args) != before:
                rec.fail('aliased/%s' % name, 'overwriting the result of %r changes its arguments: %s -> %s' % (name, before, canon(args)))
            if name not in RANDOM:
                again = call(name)[0]
                if not same_canon(again, base[name], CALLS[name][2]):
                    rec.fail('aliased/%s' % name, 'after overwriting the result of %r the same call gives %s instead of %s' % (name, again, base[name]))
                # the same argument objects a second time
                make, f, tol = CALLS[name]
                args = make()
                try:
                    f(*args)
                    second = canon(f(*args))
                except Exception as e:
                    second = ('raises', type(e).__name__)
                if not same_canon(second, base[name], tol):
                    rec.fail('twice/%s' % name, 'the same objects passed to %r again give %s instead of %s' % (name, second, base[name]))
        rec.outcome('result')
        rec.trace()


def pairs_cover(names):
    """A cyclic sequence in which every ordered pair of names is adjacent (Euler tour)."""
    n = len(names)
    nxt = {a: list(range(n)) for a in range(n)}
    stack, tour = [0], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            tour.append(stack.pop())
    return [names[i] for i in reversed(tour)]


def explore(ctx):
    th = ctx.thorough
    env = environment()
    base = {}
    for r in ctx.run(baseline, NAMES, chunk=1, collect=True):
        base.update(r.succ)
    base = {k: eval(v, {'nan': float('nan'), 'inf': float('inf')}) for k, v in base.items()}
    for n in NAMES:
        if n not in base:
            ctx.rec.fail('alone/%s' % n, 'the call %r alone gives no answer' % n)
            return
    fast = [n for n in NAMES if n not in SLOW]
    tour = pairs_cover(fast)
    slow = sorted(SLOW)
    if th:
        tour = pairs_cover(NAMES)
        extra = []
    else:
        # the slow calls: every pair with every other call in one direction per sequence
        extra = [[a, s] for s in slow for a in NAMES[(len(s)) % 5::5]]
    cut = max(40, len(tour) // 64)
    seqs = [tour[max(0, i - 1):i + cut] for i in range(0, len(tour), cut)]
    group = [extra[i::16] for i in range(16)] if extra else []
    seqs += [[n for p in g for n in p] for g in group if g]
    ctx.run(sequences, seqs, base, env, chunk=1)
    ctx.run(results, NEW, base, env, chunk=1)
    if th:
        core = [n for n in fast if CALLS[n][2] == 0 or n.startswith(('lineqs', 'IntLinIncR2 u', 'Tol con', 'Neumaier', 'Gauss', 'HBR', 'WILS'))][::2]
        ctx.run(sequences, [list(t) for t in itertools.product(core, repeat=3)], base, env)
    ctx.bounds = {'calls': len(NAMES), 'ordered_pairs': len(fast) ** 2, 'depth': 3 if th else 2}
    ctx.assumptions = ['kernel results are compared exactly, results of solvers and optimizers up to 1e-9 and 1e-6', 'ive is a random search: only arguments and side effects are judged']
