"""C36: inconsistent sizes and unknown options are refused, consistent ones are answered.

State = (function, sizes of every argument).  The model is the table of size rules; every
combination of sizes up to the bound is executed on the library.
"""
import warnings
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
import pandas as pd
warnings.simplefilter('ignore')
ID = 'C36'


def mat(n, m, shift=0):
    c = np.array([[4. + i if i == (j + shift) % m else .25 * (i - j) for j in range(m)] for i in range(n)])
    return ip.Interval(c - .125, c + .125)


def vec(k):
    """A right-hand side that makes the systems above solvable (0 inside)."""
    return ip.Interval(-8. - np.arange(k), 7. + np.arange(k))


def box(k):
    return ip.Interval([-20.] * k, [30.] * k)


def arr(*s):
    return ip.Interval(-1. - np.arange(int(np.prod(s)) + 0.).reshape(s), 2. + np.zeros(s))


def frame(n, m):
    return pd.DataFrame({'x%d' % j: [ip.Interval(i + j * j - .125, i * (j + 1) + j * j + .125) for i in range(n)] for j in range(m)})


def free(k, n):
    """Sizes of weights nobody documents: one number in an array for several rows."""
    return k == 1 and n > 1


SQ = lambda n, m, l: n == m == l
# name -> (call with sizes (n, m, l, k), are the sizes consistent (None: no claim), length of the answer or None)
TABLE = {
    'Gauss': (lambda n, m, l, k: ip.Gauss(mat(n, m), vec(l)), lambda n, m, l, k: SQ(n, m, l), lambda n, m: m),
    'HBR': (lambda n, m, l, k: ip.HBR(mat(n, m), vec(l)), lambda n, m, l, k: SQ(n, m, l), lambda n, m: m),
    'Gauss_Seidel': (lambda n, m, l, k: ip.Gauss_Seidel(mat(n, m), vec(l), x0=box(k)), lambda n, m, l, k: SQ(n, m, l) and k == n, lambda n, m: m),
    'Gauss_Seidel/C': (lambda n, m, l, k: ip.Gauss_Seidel(mat(n, m), vec(l), C=np.eye(k)), lambda n, m, l, k: SQ(n, m, l) and k == n, lambda n, m: m),
    'Rohn': (lambda n, m, l, k: ip.Rohn(mat(n, m), vec(l)), lambda n, m, l, k: None if m > n else n == l, lambda n, m: m),
    'Rohn/tol': (lambda n, m, l, k: ip.Rohn(mat(n, m), vec(l), consistency='tol'), lambda n, m, l, k: None if m > n and n == l else n == l, lambda n, m: m),
    'PSS': (lambda n, m, l, k: ip.PSS(mat(n, m), vec(l), maxiter=30), lambda n, m, l, k: None if m > n and n == l else n == l, lambda n, m: m),
    'PSS/x0': (lambda n, m, l, k: ip.PSS(mat(n, m), vec(l), x0=box(k), maxiter=30), lambda n, m, l, k: None if m > n and n == l and k == m else n == l and k == m, lambda n, m: m),
    'PPS': (lambda n, m, l, k: ip.PPS(mat(n, m), vec(l), maxiter=30), lambda n, m, l, k: SQ(n, m, l), lambda n, m: m),
    'Subdiff': (lambda n, m, l, k: ip.Subdiff(mat(n, m), vec(l)), lambda n, m, l, k: SQ(n, m, l), lambda n, m: m),
    'Neumaier': (lambda n, m, l, k: ip.Neumaier(mat(n, m), vec(l), np.zeros(k)), lambda n, m, l, k: n == l and k == m, lambda n, m: m),
    'Neumaier/w': (lambda n, m, l, k: ip.Neumaier(mat(n, m), vec(l), np.zeros(m), np.ones(k)), lambda n, m, l, k: n == l and k == m, lambda n, m: m),
    'ive': (lambda n, m, l, k: ip.ive(mat(n, m), vec(l), N=3), lambda n, m, l, k: None if m > n and n == l else n == l, None),
    'lineqs': (lambda n, m, l, k: ip.lineqs(mat(n, m).mid, vec(l).a, show=False), lambda n, m, l, k: n == l and m == 2, None),
    'IntLinIncR2/uni': (lambda n, m, l, k: ip.IntLinIncR2(mat(n, m), vec(l), show=False), lambda n, m, l, k: n == l and m == 2, None),
    'IntLinIncR2/tol': (lambda n, m, l, k: ip.IntLinIncR2(mat(n, m), vec(l), consistency='tol', show=False), lambda n, m, l, k: n == l and m == 2, None),
    'lineqs3D': (lambda n, m, l, k: ip.lineqs3D(mat(n, m).mid, vec(l).a, show=False), lambda n, m, l, k: n == l and m == 3, None),
    'IntLinIncR3/uni': (lambda n, m, l, k: ip.IntLinIncR3(mat(n, m), vec(l), show=False), lambda n, m, l, k: n == l and m == 3, None),
    'IntLinIncR3/tol': (lambda n, m, l, k: ip.IntLinIncR3(mat(n, m), vec(l), consistency='tol', show=False), lambda n, m, l, k: n == l and m == 3, None),
    'WILS': (lambda n, m, l, k: fitted(ip.WILS(), mat(n, m), vec(l), maxiter=5), lambda n, m, l, k: n == l, None),
    'WILS/weight': (lambda n, m, l, k: fitted(ip.WILS(), mat(n, m), vec(l), weight=np.ones(k), maxiter=5), lambda n, m, l, k: n == l == k, None),
    'WILS/x0': (lambda n, m, l, k: fitted(ip.WILS(), mat(n, m), vec(l), x0=np.ones(k), maxiter=5), lambda n, m, l, k: n == l and m == k, None),
    'ISPAE': (lambda n, m, l, k: fitted(ip.ISPAE(), frame(n, m), vec(l), order=1, maxiter=5), lambda n, m, l, k: n == l, None),
    'ISPAE/weight': (lambda n, m, l, k: fitted(ip.ISPAE(), frame(n, m), vec(l), order=1, weight=np.ones(k), maxiter=5), lambda n, m, l, k: n == l == k, None),
    'ISPAE/x0': (lambda n, m, l, k: fitted(ip.ISPAE(), frame(n, m), vec(l), order=1, x0=np.ones(k), maxiter=5), lambda n, m, l, k: n == l and m + 1 == k, None),
    'ISPAE/order': (lambda n, m, l, k: fitted(ip.ISPAE(), frame(n, m), vec(l), order=[1] * k, maxiter=5), lambda n, m, l, k: n == l and m == k, None),
    'LinearConstraint/lb': (lambda n, m, l, k: ip.LinearConstraint(np.ones((n, m)), lb=np.zeros(l)), lambda n, m, l, k: n == l, None),
    'LinearConstraint/ub': (lambda n, m, l, k: ip.LinearConstraint(np.ones((n, m)), ub=np.zeros(l)), lambda n, m, l, k: n == l, None),
    'LinearConstraint/both': (lambda n, m, l, k: ip.LinearConstraint(np.ones((n, m)), lb=np.zeros(l), ub=np.ones(k)), lambda n, m, l, k: n == l == k, None),
    'WILS/constraint': (lambda n, m, l, k: fitted(ip.WILS(), mat(n, m), vec(l), constraint=ip.LinearConstraint(np.ones((1, k)), ub=np.ones(1)), maxiter=5), lambda n, m, l, k: n == l and m == k, None),
}
for NAME in ('Tol', 'Uni', 'Uss', 'ChebNorm'):
    def add(name, cl):
        optimize = cl.minimize if name == 'ChebNorm' else cl.maximize
        TABLE[name + '.value'] = (lambda n, m, l, k: cl.value(mat(n, m), vec(l), np.ones(k)), lambda n, m, l, k: n == l and m == k, None)
        TABLE[name + '.constituent'] = (lambda n, m, l, k: cl.constituent(mat(n, m), vec(l), np.ones(k)), lambda n, m, l, k: n == l and m == k, lambda n, m: n)
        TABLE[name + '.value/weight'] = (lambda n, m, l, k: cl.value(mat(n, m), vec(l), np.ones(m), weight=np.ones(k)), lambda n, m, l, k: False if n != l else None if free(k, n) else n == k, None)
        TABLE[name + '.constituent/weight'] = (lambda n, m, l, k: cl.constituent(mat(n, m), vec(l), np.ones(m), weight=np.ones(k)), lambda n, m, l, k: False if n != l else None if free(k, n) else n == k, lambda n, m: n)
        TABLE[name + '.maximize'] = (lambda n, m, l, k: optimize(mat(n, m), vec(l), maxiter=5)[0], lambda n, m, l, k: n == l, lambda n, m: m)
        TABLE[name + '.maximize/x0'] = (lambda n, m, l, k: optimize(mat(n, m), vec(l), x0=np.ones(k), maxiter=5)[0], lambda n, m, l, k: n == l and m == k, lambda n, m: m)
        TABLE[name + '.maximize/weight'] = (lambda n, m, l, k: optimize(mat(n, m), vec(l), weight=np.ones(k), maxiter=5)[0], lambda n, m, l, k: False if n != l else None if free(k, n) else n == k, lambda n, m: m)
        TABLE[name + '.maximize/constraint'] = (lambda n, m, l, k: optimize(mat(n, m), vec(l), linear_constraint=ip.LinearConstraint(np.ones((1, k)), ub=np.ones(1)), maxiter=5)[0], lambda n, m, l, k: n == l and m == k, lambda n, m: m)
    add(NAME, getattr(ip, NAME))
ONLY3 = {'Gauss', 'HBR', 'Rohn', 'Rohn/tol', 'PSS', 'PPS', 'Subdiff', 'ive', 'lineqs', 'lineqs3D', 'IntLinIncR2/uni', 'IntLinIncR2/tol', 'IntLinIncR3/uni', 'IntLinIncR3/tol',
         'WILS', 'ISPAE', 'LinearConstraint/lb', 'LinearConstraint/ub'} | {n + '.maximize' for n in ('Tol', 'Uni', 'Uss', 'ChebNorm')}


def fitted(model, X, y, **kw):
    model.fit(X, y, **kw)


def sizes(rec, items):
    for name, n, m, l, k in items:
        call, rule, length = TABLE[name]
        rec.state()
        want = rule(n, m, l, k)
        if want is None:
            rec.outcome('no claim')
            continue
        rec.edge()
        t = '%s with a %dx%d matrix, a right-hand side of %d%s' % (name, n, m, l, '' if name in ONLY3 else ', another argument of size %d' % k)
        c = 'from checks import c36\nprint(c36.TABLE[%r][0](%d, %d, %d, %d))' % (name, n, m, l, k)
        with rec.case(name, t, c, cpu=40):
            try:
                r = call(n, m, l, k)
            except Exception as e:
                rec.outcome('refused')
                if want:
                    rec.fail(name + '/answer', 'consistent sizes are refused (%r): %s' % (e, t), c)
                continue
            if not want:
                rec.fail(name + '/refuse', 'inconsistent sizes are answered with %s: %s' % (repr(r)[:120], t), c)
            elif length is not None and len(r) != length(n, m):
                rec.fail(name + '/length', 'the answer %r has %d elements instead of %d: %s' % (r, len(r), length(n, m), t), c)
            rec.outcome('answered')
        rec.trace()
    rec.sample(str(items[0]))


SHAPES = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 2, 2), (2, 2, 2)]


def shapes(rec, items):
    """Endpoint arrays, pairs, intersections and matrix products of every pair of shapes."""
    for kind, s, q in items:
        rec.state()
        rec.edge()
        t = '%s of shapes %s and %s' % (kind, s, q)
        c = ''
        with rec.case(kind, t, c, cpu=10):
            if kind == 'Interval':
                want = s if s == q else None
                call = lambda: ip.Interval(-np.ones(s), np.ones(q))
            elif kind == 'pairs':
                # one array whose last axis holds the endpoints
                k = q[0]
                want = None if k != 2 else s
                call = lambda: ip.Interval(np.ones(s + (k,)) * np.arange(1, k + 1))
            elif kind == 'list':
                k = q[0]
                want = None if k != 2 else s
                call = lambda: ip.Interval((np.ones(s + (k,)) * np.arange(1, k + 1)).tolist())
            elif kind == 'intersection':
                want = s if s == q else None
                call = lambda: ip.intersection(arr(*s), arr(*q))
            else:
                try:
                    want = (np.ones(s) @ np.ones(q)).shape
                except ValueError:
                    want = None
                call = {'matmul': lambda: arr(*s) @ arr(*q), 'numeric @': lambda: np.ones(s) @ arr(*q), '@ numeric': lambda: arr(*s) @ np.ones(q)}[kind]
            try:
                r = call()
            except Exception as e:
                rec.outcome('shape refused')
                if want is not None:
                    rec.fail(kind + '/answer', 'refused (%r): %s' % (e, t), c)
                continue
            if want is None:
                rec.fail(kind + '/refuse', 'shapes that do not fit give %r: %s' % (r, t), c)
            elif tuple(getattr(r, 'shape', ())) != want:
                rec.fail(kind + '/shape', 'the result has the shape %s instead of %s: %s' % (getattr(r, 'shape', ()), want, t), c)
            rec.outcome('shape answered')
        rec.trace()
    rec.sample(str(items[0]))


OPTIONS = {
    'Rohn': (lambda o: ip.Rohn(mat(2, 2), vec(2), consistency=o), ('uni', 'tol')),
    'IntLinIncR2': (lambda o: ip.IntLinIncR2(mat(2, 2), vec(2), consistency=o, show=False), ('uni', 'tol')),
    'IntLinIncR3': (lambda o: ip.IntLinIncR3(mat(3, 3), vec(3), consistency=o, show=False), ('uni', 'tol')),
    'WILS/objective': (lambda o: fitted(ip.WILS(), mat(3, 2), vec(3), objective=o, maxiter=5), ('Tol', 'Uni', 'Uss')),
    'WILS/norm': (lambda o: fitted(ip.WILS(), mat(3, 2), vec(3), norm=o, maxiter=5), ('inf', 'l1')),
    'ISPAE/objective': (lambda o: fitted(ip.ISPAE(), frame(3, 1), vec(3), objective=o, order=1, maxiter=5), ('Tol', 'Uni')),
}
NAMES = ['uni', 'tol', 'Tol', 'Uni', 'Uss', 'inf', 'l1', 'TOL', 'UNI', 'strong', 'weak', 'l2', '', 'Tol ', None, 1]


def options(rec, items):
    for name, o in items:
        call, known = OPTIONS[name]
        rec.state()
        rec.edge()
        t = '%s with the option %r' % (name, o)
        c = 'from checks import c36\nprint(c36.OPTIONS[%r][0](%r))' % (name, o)
        with rec.case('option', t, c, cpu=20):
            try:
                r = call(o)
            except Exception as e:
                rec.outcome('option refused')
                if o in known:
                    rec.fail('option/answer', 'a documented option is refused (%r): %s' % (e, t), c)
                continue
            if o not in known:
                rec.fail('option/refuse', 'an unknown option is answered with %s: %s' % (repr(r)[:120], t), c)
            rec.outcome('option answered')
        rec.trace()


def explore(ctx):
    N = 6 if ctx.thorough else 5
    S = [(name, n, m, l, k) for name in TABLE for n, m, l in itertools.product(range(1, N + 1), repeat=3)
         for k in ([1] if name in ONLY3 else range(1, N + 2)) if max(n, m, l, k) <= 3 or name in ONLY3 or (n + m * 2 + l * 3 + k) % (1 if ctx.thorough else 3) == 0]
    ctx.run(sizes, S, chunk=8)
    P = [(kind, s, q) for kind in ('Interval', 'intersection', 'matmul', 'numeric @', '@ numeric') for s in SHAPES for q in SHAPES]
    P += [(kind, s, (k,)) for kind in ('pairs', 'list') for s in [()] + SHAPES for k in (1, 2, 3, 4)]
    ctx.run(shapes, [p for p in P if p[:2] != ('pairs', ())])
    O = [(name, o) for name in OPTIONS for o in NAMES]
    ctx.run(options, O)
    ctx.bounds = {'size_combinations': len(S), 'largest_size': N, 'functions': len(TABLE), 'shape_pairs': len(P), 'options': len(O)}
    ctx.assumptions = ['a refusal is any exception; one weight in an array for several rows, and more unknowns than equations where the documentation is silent, are not judged']
