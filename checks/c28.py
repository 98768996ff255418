"""C28: global optimization: the lower end never exceeds the minimum, at any budget.

State = (function with an exactly known minimum, start box, tolerance, iteration budget).
"""
import warnings
from mc import boot
from mc.lsys import *
from checks.c27 import evaluate, power, mul, ptext

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C28'
LONG = (0, 7, 60, 200, 700)
BUD = (0, 1, 2, 3, 5, 8, 13, 30)


def at(p, z):
    r = F(0)
    for e, c in p.items():
        t = c[0]
        for v, k in zip(z, e):
            t *= v ** k
        r += t
    return r


EXTRA = ['', ' + x[0] - x[0]', ' + 10 * (x[0] * x[1] - x[0] * x[1])']


class Counted:
    """The function of the user: records how often it is evaluated and on which boxes."""

    def __init__(self, p, form):
        self.p, self.form, self.n = p, form, 0

    def __call__(self, x):
        self.n += 1
        if self.form == 1:      # a centred reformulation: more overestimation
            return evaluate(self.p, x) + x[0] - x[0]
        if self.form == 2:      # many boxes have to be kept until the overestimation is gone
            return evaluate(self.p, x) + 10 * (x[0] * x[1] - x[0] * x[1])
        return evaluate(self.p, x)


def run(rec, items):
    for p, X, M, form in items:
        m = len(X)
        t0 = '%s%s on %s' % (ptext([p]), EXTRA[form], ['[%g, %g]' % (float(l), float(u)) for l, u in X])
        last = None
        plan = [(F(0), b) for b in BUD] + [(F(1, 4), 400), (F(1, 64), 1500)][:2 if form == 0 else 1]
        if form == 2:
            plan = [(F(0), b) for b in LONG] + [(F(1, 4), LONG[-1])]
        for tol, q in plan:
            rec.state()
            rec.edge()
            t = 'globopt(tol=%g, maxiter=%d) of %s' % (float(tol), q, t0)
            c = 'f = lambda x: %s%s\nprint(globopt(f, Interval(%r, %r), tol=%r, maxiter=%d))' % (
                ptext([p]), EXTRA[form], [float(l) for l, u in X], [float(u) for l, u in X], float(tol), q)
            with rec.case('globopt', t, c, cpu=30):
                x0 = ip.Interval([float(l) for l, u in X], [float(u) for l, u in X])
                before = repr(x0)
                f = Counted(p, form)
                r = ip.globopt(f, x0, tol=float(tol), maxiter=q)
                calls = f.n
                if repr(x0) != before:
                    rec.fail('x0', 'globopt changes the start box to %r: %s' % (x0, t), c)
                try:
                    Y, v = r
                    B = box_of(ip, Y, m)
                    v = val(v.a), val(v.b)
                except Exception:
                    rec.fail('shape', 'globopt returns %r: %s' % (r, t), c)
                    continue
                if B is None or None in v:
                    rec.fail('shape', 'globopt returns %r: %s' % (r, t), c)
                    continue
                if any(l < x or u > y or l > u for (l, u), (x, y) in zip(B, X)):
                    rec.fail('outside', 'the box %s is not part of the start box: %s' % (show(B), t), c)
                if v[0] > M:
                    rec.fail('lower', 'globopt returns %s, the minimum is %s: %s' % (tuple(map(float, v)), float(M), t), c)
                if v[1] < M:
                    rec.fail('upper', 'globopt returns %s, the minimum is %s: %s' % (tuple(map(float, v)), float(M), t), c)
                w = f(Y)
                if (val(w.a), val(w.b)) != v:
                    rec.fail('value', 'globopt returns the value %s, the function gives %r on the box %s: %s' % (tuple(map(float, v)), w, show(B), t), c)
                # the minimum over the start box is enclosed to tol, or the budget is used up
                if v[1] - v[0] >= tol and calls < q and not all(l == u for l, u in B):
                    rec.fail('early', 'globopt stops after %d evaluations with the value %s: %s' % (calls, tuple(map(float, v)), t), c)
                if v[1] - v[0] < tol:
                    bad = [z for z in itertools.product(*B) if at(p, z) > M + tol]
                    if bad:
                        rec.fail('point', '%s is in the returned box, its value is %s, the minimum %s: %s' % (list(map(float, bad[0])), float(at(p, bad[0])), float(M), t), c)
                    rec.outcome('converged')
                else:
                    rec.outcome('budget')
                    if tol != 0 and form == 0 and all(sum(1 for e in p if e[j]) <= 1 for j in range(m)):
                        rec.fail('convergence', 'globopt does not reach the tolerance although every variable occurs once: %s: %s' % (tuple(map(float, v)), t), c)
                if tol == 0:
                    if last is not None and v[0] < last:
                        rec.fail('worse', 'the lower end is %s, with fewer iterations it was %s: %s' % (float(v[0]), float(last), t), c)
                    last = v[0]
        rec.trace()
    rec.sample(t)


# one-dimensional terms with rational critical points
TERMS = [({1: 1}, []), ({1: -2}, []), ({2: 1}, [0]), ({2: -1}, [0]), ({2: 1, 1: -1}, [H]), ({4: 1, 2: -2}, [-1, 0, 1]), ({3: 1, 1: -3}, [-1, 1]), ({4: 3, 3: -4, 2: -12}, [-1, 0, 2]), ({}, [])]
RANGES = [(F(-1), F(1)), (F(0), F(2)), (F(-3, 2), H), (F(-2), F(2)), (F(1, 4), F(3)), (F(-1, 3 * 0 + 8), F(1, 8)), (F(1), F(1)), (F(-4), F(5))]


def separable(k):
    i = 0
    for m in (1, 2, 3):
        for T in itertools.product(range(len(TERMS)), repeat=m):
            for R in itertools.product(RANGES, repeat=m):
                i += 1
                if i % k[m]:
                    continue
                p, M = {}, F(0)
                for j, (a, (lo, hi)) in enumerate(zip(T, R)):
                    co, cr = TERMS[a]
                    for e, c in co.items():
                        p[tuple(e if s == j else 0 for s in range(m))] = (F(c), F(c))
                    M += min(sum(F(c) * z ** e for e, c in co.items()) for z in [lo, hi] + [F(z) for z in cr if lo <= z <= hi])
                if all(l == u for l, u in R):
                    continue
                yield p, list(R), M, (i // k[m]) % 2


MULTI = [{(1, 1): 1}, {(1, 1): -2, (1, 0): 1}, {(1, 1): 1, (1, 0): -1, (0, 1): 3}, {(1, 1): F(1, 2), (0, 0): -1}]
MULTI3 = [{(1, 1, 1): 1}, {(1, 1, 0): 1, (0, 1, 1): -2, (1, 0, 0): 1}]


def multilinear(k):
    """Linear in every variable: the minimum is at a corner."""
    i = 0
    for m, L in ((2, MULTI), (3, MULTI3)):
        for g in L:
            for R in itertools.product(RANGES, repeat=m):
                i += 1
                if i % k[m] or all(l == u for l, u in R):
                    continue
                p = {e: (F(c), F(c)) for e, c in g.items()}
                yield p, list(R), min(at(p, z) for z in itertools.product(*R)), (i // k[m]) % 2


def overestimated(n):
    """Functions on rectangles whose natural extension needs many boxes."""
    R = [(F(0), F(8)), (F(0), F(1)), (F(-2), F(3)), (F(-4), F(1, 2))]
    i = 0
    for g in MULTI + [{(1, 0): 1}, {(1, 0): -1, (0, 1): 2}]:
        for X in itertools.product(R, repeat=2):
            i += 1
            if i % n == 0:
                p = {e: (F(c), F(c)) for e, c in g.items()}
                yield p, list(X), min(at(p, z) for z in itertools.product(*X)), 2


def explore(ctx):
    th = ctx.thorough
    S = list(separable({1: 1, 2: 7 if th else 23, 3: 997 if th else 4001}))
    Q = list(multilinear({2: 1 if th else 3, 3: 5 if th else 23}))
    O = list(overestimated(1 if th else 4))
    ctx.run(run, O, chunk=1)
    ctx.run(run, S + Q, chunk=2)
    ctx.bounds = {'functions_with_overestimation': len(O), 'their_budgets': list(LONG), 'separable_functions_on_boxes': len(S), 'multilinear_functions_on_boxes': len(Q), 'budgets': list(BUD)}
    ctx.assumptions = ['func is inclusion isotonic and encloses the values (natural interval extension)']
