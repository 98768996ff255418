"""C26: the contract of the subgradient method ralgb5.

State = (convex piecewise linear function with an exact minimum, start point, parameters,
iteration budget).  Every evaluation is recorded, so the reported point, value and counts are
compared with the complete history of the run.
"""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C26'


def minimum(rows):
    """Exact minimum of max_i (a_i x + c_i), None when unbounded below."""
    m = len(rows[0][0])
    # x, t with a_i x - t <= -c_i: the minimum of t is a vertex if the a_i span the space
    G = [list(a) + [F(-1)] for a, c in rows]
    h = [-c for a, c in rows]
    # 0 in the convex hull of the gradients <=> bounded below: no direction with all a_i d < 0
    E = [[F(1) if i == j else F(0) for i in range(m + 1)] for j in range(m)]
    D = vertices([list(a) + [F(1)] for a, c in rows] + E + [[-v for v in e] for e in E] + [[F(0)] * m + [F(1)]], [F(0)] * len(rows) + [F(1)] * 2 * m + [F(1)])
    if any(v[m] > 0 for v in D):
        return None
    B = E + [[-v for v in e] for e in E]
    V = vertices(G + B, h + [F(50)] * 2 * m)
    return min(v[m] for v in V)


class Recorded:
    def __init__(self, fg):
        self.fg = fg
        self.f = []
        self.x = []
        self.g = []

    def __call__(self, x):
        f, g = self.fg(x)
        self.f.append(float(f))
        self.x.append(np.array(x, dtype=float))
        self.g.append(np.array(g, dtype=float))
        return f, g


def piecewise(rows):
    A = np.array([[float(v) for v in a] for a, c in rows])
    C = np.array([float(c) for a, c in rows])

    def fg(x):
        v = A @ x + C
        i = int(np.argmax(v))
        return v[i], A[i]
    return fg


def quadratic(d, s):
    d, s = np.array(d, dtype=float), np.array(s, dtype=float)
    return lambda x: (float(np.sum(d * (x - s) ** 2)), 2 * d * (x - s))


def judge(rec, key, fg, x0, par, t, best=None, must=True):
    rec.state()
    rec.edge()
    R = Recorded(fg)
    with rec.case(key, 'ralgb5 of %s' % t, cpu=20):
        start = x0.copy()
        xr, fr, nit, ncalls, ccode = ip.ralgb5(R, x0, **par)
        if not np.array_equal(x0, start):
            rec.fail(key + '/x0', 'ralgb5 changes the start point %s: %s' % (start, t))
        if len(R.f) != ncalls:
            rec.fail(key + '/ncalls', 'ralgb5 reports %d calls, %d were made: %s' % (ncalls, len(R.f), t))
        if not np.array_equal(R.x[0], start):
            rec.fail(key + '/start', 'ralgb5 starts at %s: %s' % (R.x[0], t))
        if float(fr) != min(R.f):
            rec.fail(key + '/best', 'ralgb5 returns the value %r, it has seen %r: %s' % (fr, min(R.f), t))
        if not any(f == fr and np.array_equal(x, np.asarray(xr, dtype=float)) for f, x in zip(R.f, R.x)):
            rec.fail(key + '/point', 'the point %s does not belong to the value %r: %s' % (xr, fr, t))
        mi = par.get('maxiter', 2000)
        if not 0 <= nit <= mi + 1 or ccode not in (1, 2, 3, 4, 5) or (ccode == 4) != (nit > mi):
            rec.fail(key + '/code', 'ralgb5 stops with code %r after %r iterations, maxiter=%r: %s' % (ccode, nit, mi, t))
        if ccode == 2 and np.linalg.norm(R.g[-1]) >= par.get('tolg', 1e-12):
            rec.fail(key + '/tolg', 'code 2 although the last subgradient is %s: %s' % (R.g[-1], t))
        if ccode != 2 and np.linalg.norm(R.g[-1]) < par.get('tolg', 1e-12):
            rec.fail(key + '/tolg', 'the last subgradient is %s, but the code is %d: %s' % (R.g[-1], ccode, t))
        if best is not None and fr < float(best) - 1e-9 * (1 + abs(float(best))):
            rec.fail(key + '/below', 'the oracle is wrong or the value is not from the function: %r < %r: %s' % (fr, float(best), t))
        if best is not None and must and ccode in (2, 3, 5) and fr > float(best) + 1e-6 * (1 + abs(float(best))):
            rec.fail(key + '/minimum', 'ralgb5 stops with code %d at %r, the minimum is %r: %s' % (ccode, fr, float(best), t))
        if best is None and must and ccode != 5:
            rec.fail(key + '/unbounded', 'the function is unbounded below, the code is %d: %s' % (ccode, t))
        rec.outcome('code %d' % ccode)
        return float(fr)


SLOPES = {1: [(F(1),), (F(-2),), (F(1, 2),), (F(-1, 4),)],
          2: [(F(1), F(0)), (F(-1), F(1)), (F(-1), F(-2)), (F(0), F(3)), (F(2), F(-1)), (F(-1, 2), F(1, 4))],
          3: [(F(1), F(0), F(0)), (F(-1), F(1), F(0)), (F(0), F(-2), F(1)), (F(0), F(1), F(-1)), (F(-1), F(-1), F(-1)), (F(2), F(1), F(1, 2))]}
CONST = [F(0), F(1), F(-1, 2)]


def functions(k):
    i = 0
    for m in (1, 2, 3):
        for n in range(m + 1, m + 4):
            for S in itertools.combinations(SLOPES[m], min(n, len(SLOPES[m]))):
                for c in itertools.product(CONST, repeat=len(S)):
                    i += 1
                    if i % k == 0:
                        yield list(zip(S, c))


PARAMS = [{}, {'alpha': 1.5}, {'alpha': 4.0, 'h0': 0.25}, {'nsims': 5, 'tolf': 1e-9}, {'tolf': 0}, {'tolx': 1e-6}, {'nh': 1, 'q2': 1.3, 'q1': 0.8}, {'q1': 1.0}]
STRICT = (0, 4, 6)      # parameters for which the minimum is required


def bounded(rec, items):
    for rows in items:
        best = minimum(rows)
        m = len(rows[0][0])
        fg = piecewise(rows)
        t0 = 'max of %s' % '; '.join('%s x + %s' % (tuple(map(float, a)), float(c)) for a, c in rows)
        for k, par in enumerate(PARAMS):
            x0 = np.array([[0.0] * m, [2.0, -1.0, 3.0][:m], [-5.5, 7.25, 0.0][:m]][(k + len(t0)) % 3])
            if best is None and k not in (0, 4):
                continue
            must = (k in STRICT and best is not None) or (k in (0, 4) and best is None)
            judge(rec, 'ralgb5', fg, x0, par, '%s from %s with %s' % (t0, list(x0), par), best, must)
        last = None
        for q in (0, 1, 2, 3, 5, 10, 40, 200):
            x0 = np.array([1.0, -2.0, 0.5][:m])
            v = judge(rec, 'ralgb5/budget', fg, x0, {'maxiter': q}, '%s, maxiter=%d' % (t0, q), best, False)
            if v is None:
                continue
            if last is not None and v > last:
                rec.fail('ralgb5/budget/worse', 'the value is %r with maxiter=%d and %r with less: %s' % (v, q, last, t0))
            last = v
        rec.trace()
    rec.sample(t0)


def smooth(rec, items):
    for d, s in items:
        m = len(d)
        for k, par in enumerate(PARAMS):
            x0 = np.array([[1.0] * m, [0.0] * m, [-3.0, 2.0, 9.0][:m]][k % 3])
            judge(rec, 'ralgb5/smooth', quadratic(d, s), x0, par, 'sum d (x - s)^2, d=%s, s=%s from %s with %s' % (d, s, list(x0), par), 0.0, k in STRICT)
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    L = list(functions(1 if th else 13))
    ctx.run(bounded, L, chunk=8)
    Q = [(d, s) for m in (1, 2, 3) for d in itertools.product((1, 100, 0.01), repeat=m) for s in itertools.product((0, 1, -2.5), repeat=m)][::1 if th else 4]
    ctx.run(smooth, Q, chunk=8)
    ctx.bounds = {'piecewise_linear_functions': len(L), 'quadratics': len(Q), 'parameter_sets': len(PARAMS), 'budgets': 8}
    ctx.assumptions = ['maxiter + 1 iterations are accepted, as in the published algorithm', 'the minimum is required (1e-6) with default-like parameters for the stopping codes 2, 3, 5']
