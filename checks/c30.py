"""C30: interval polynomial models ISPAE: exact ranges, objective, optimum, prediction.

State = (data, basis, orders, bias, objective, norm, smoothing, weights).  The basis polynomials
are rational; their ranges are computed by recursive isolation of the critical points.  The exact
optimum is approached by an outer linearization whose cuts are exact points of the data.
"""
import warnings
from mc import boot
from mc.lsys import *
from checks.c29 import smooth, ALBE

ip = boot.load()
import numpy as np
import pandas as pd
from cvxopt import matrix, solvers
warnings.simplefilter('ignore')
solvers.options['show_progress'] = False
solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
ID = 'C30'
LIM = F(1, 10 ** 7)


# exact polynomials, coefficients in ascending order ------------------------------------------
def padd(p, q):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else F(0)) + (q[i] if i < len(q) else F(0)) for i in range(n)]


def pscale(c, p):
    return [c * v for v in p]


def shift(p):
    return [F(0)] + list(p)


def basis_poly(name, k):
    P = [[F(1)]]
    X = [F(0), F(1)]
    first = {'monom': X, 'chebyshev': X, 'legendre': X, 'hermite': [F(0), F(2)], 'laguerre': [F(1), F(-1)]}[name]
    P.append(first)
    for n in range(1, k):
        a, b = P[n], P[n - 1]
        if name == 'monom':
            q = shift(a)
        elif name == 'chebyshev':
            q = padd(pscale(F(2), shift(a)), pscale(F(-1), b))
        elif name == 'legendre':
            q = pscale(F(1, n + 1), padd(pscale(F(2 * n + 1), shift(a)), pscale(F(-n), b)))
        elif name == 'hermite':
            q = padd(pscale(F(2), shift(a)), pscale(F(-2 * n), b))
        else:
            q = pscale(F(1, n + 1), padd(padd(pscale(F(2 * n + 1), a), pscale(F(-1), shift(a))), pscale(F(-n), b)))
        P.append(q)
    return P[k]


def peval(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def roots(p, lo, hi):
    """Points of [lo, hi] within 2**-55 of every real root with a change of sign."""
    while p and p[-1] == 0:
        p = p[:-1]
    if len(p) < 2 or lo >= hi:
        return []
    if len(p) == 2:
        z = -p[0] / p[1]
        return [z] if lo <= z <= hi else []
    K = [lo] + [z for z in roots([c * k for k, c in enumerate(p)][1:], lo, hi)] + [hi]
    out = []
    for a, b in zip(K, K[1:]):
        fa, fb = peval(p, a), peval(p, b)
        if fa == 0:
            out.append(a)
        if fa * fb < 0:
            for _ in range(48):
                c = (a + b) / 2
                c = F(round(c * 2 ** 52), 2 ** 52)
                if not a < c < b:
                    break
                if fa * peval(p, c) <= 0:
                    b = c
                else:
                    a, fa = c, peval(p, c)
            out.append((a + b) / 2)
    if peval(p, hi) == 0:
        out.append(hi)
    return out


def extremes(p, lo, hi):
    """((min, argmin), (max, argmax)) over [lo, hi]."""
    c = [lo, hi] + roots([v * k for k, v in enumerate(p)][1:], lo, hi)
    v = [(peval(p, x), x) for x in c]
    return min(v), max(v)


def combine(beta, basis):
    p = [F(0)]
    for b, q in zip(beta, basis):
        p = padd(p, pscale(b, q))
    return p


BASES = ['monom', 'chebyshev', 'hermite', 'laguerre', 'legendre']


def close(p, q, size, tol=F(1, 10 ** 9)):
    return abs(p - q) <= tol * (1 + size)


# one column -----------------------------------------------------------------------------------
def column(rec, items):
    for name, beta, deg, xs in items:
        rec.state()
        rec.edge()
        basis = [basis_poly(name, d) for d in (deg or range(1, len(beta) + 1))]
        p = combine(beta, basis)
        want = [tuple(v[0] for v in extremes(p, l, u)) for l, u in xs]
        size = max([sum(abs(c) * max(abs(l), abs(u)) ** k for k, c in enumerate(q)) * abs(b) for (l, u) in xs for b, q in zip(beta, basis)])
        fb = [float(v) for v in beta]
        t = '%s, beta=%s, deg=%s, x=%s' % (name, fb, deg, ['[%g, %g]' % (float(l), float(u)) for l, u in xs])
        c = 'm = ISPAE(basis=%r)\nprint(m.value_of_one_col(%r, Interval(%r, %r, sortQ=False), deg=%r))' % (name, fb, [float(l) for l, u in xs], [float(u) for l, u in xs], deg)
        with rec.case('column', t, c, cpu=20):
            m = ip.ISPAE(basis=name)
            kinds = {'array': ip.Interval([float(l) for l, u in xs], [float(u) for l, u in xs], sortQ=False)}
            kinds['series'] = pd.Series(list(kinds['array'].data))
            kinds['single'] = kinds['array'][0]
            for kind, x in kinds.items():
                kw = {} if deg is None else {'deg': np.array(deg) if len(deg) > 1 else deg[0]}
                r = m.value_of_one_col(np.array(fb) if len(fb) > 1 else fb[0], x, **kw)
                B = [(val(v.a), val(v.b)) for v in np.ravel(r.data)]
                W = want[:1] if kind == 'single' else want
                if len(B) != len(W) or any(not close(l, p_, size) or not close(u, q_, size) for (l, u), (p_, q_) in zip(B, W)):
                    rec.fail('column', 'value_of_one_col(%s) gives %r, the exact ranges are %s: %s' % (kind, r, [(float(a), float(b)) for a, b in W], t), c)
            rec.outcome('column %s' % name)
        rec.trace()


# models -----------------------------------------------------------------------------------------
class Model:
    def __init__(self, X, y, w, name, orders, bias, objective, norm):
        """X: rows of intervals."""
        self.X, self.y, self.w = X, y, w
        self.orders, self.bias, self.objective, self.norm = orders, bias, objective, norm
        self.basis = [[basis_poly(name, d) for d in range(1, o + 1)] for o in orders]
        self.off = 1 if bias else 0
        self.K = sum(orders) + self.off

    def polys(self, beta):
        out, k = [], self.off
        for B in self.basis:
            out.append(combine(beta[k:k + len(B)], B))
            k += len(B)
        return out

    def range(self, beta, row):
        """Exact range of the model on one row with the points where the ends are attained."""
        lo = hi = beta[0] if self.bias else F(0)
        xl, xu = [], []
        for p, (l, u) in zip(self.polys(beta), row):
            (a, xa), (b, xb) = extremes(p, l, u)
            lo, hi = lo + a, hi + b
            xl.append(xa)
            xu.append(xb)
        return lo, hi, xl, xu

    def features(self, x):
        out = [F(1)] if self.bias else []
        for B, v in zip(self.basis, x):
            out += [peval(q, v) for q in B]
        return out

    def value(self, beta):
        c = []
        for row, (l, u), w in zip(self.X, self.y, self.w):
            lo, hi, _, _ = self.range(beta, row)
            a, b = (l + u) / 2 - hi, (l + u) / 2 - lo
            r = max(abs(a), abs(b)) if self.objective == 'Tol' else F(0) if a <= 0 <= b else min(abs(a), abs(b))
            c.append(w * ((u - l) / 2 - r))
        return min(c) if self.norm == 'inf' else sum(c)

    def optimum(self):
        """Maximum of Tol: cuts at exact points of the data until the linear program is tight.
        Returns (lower, upper) bounds."""
        n = len(self.X)
        nt = 1 if self.norm == 'inf' else n
        pts = [{tuple(z) for z in itertools.product(*[sorted({l, u, (l + u) / 2}) for l, u in row])} for row in self.X]
        best = None
        for _ in range(60):
            G, h = [], []
            for i, (row, (l, u), w) in enumerate(zip(self.X, self.y, self.w)):
                ym, yr = float(l + u) / 2, float(u - l) / 2
                t = [0.0] * nt
                t[0 if nt == 1 else i] = 1.0
                for x in pts[i]:
                    f = [float(w) * float(v) for v in self.features(x)]
                    G.append([-v for v in f] + t)
                    h.append(float(w) * (yr - ym))
                    G.append(f + t)
                    h.append(float(w) * (yr + ym))
            s = solvers.lp(matrix([0.0] * self.K + [-1.0] * nt), matrix(np.array(G)), matrix(h), solver='glpk')
            if s['status'] != 'optimal':
                return best, None
            beta = [F(float(v)) for v in s['x'][:self.K]]
            beta = [F(round(v * 10 ** 12), 10 ** 12) for v in beta]
            up = F(float(-s['primal objective']))
            v = self.value(beta)
            best = v if best is None else max(best, v)
            if up - best < F(1, 10 ** 7) * (1 + abs(best)):
                return best, up
            for i, row in enumerate(self.X):
                _, _, xl, xu = self.range(beta, row)
                pts[i] |= {tuple(xl), tuple(xu)}
        return best, up


def frame(X, kind):
    A = to_ip(ip, X)
    if kind == 'frame':
        return pd.DataFrame({'c%d' % j: list(A[:, j].data) for j in range(len(X[0]))})
    return A


def fits(rec, items):
    for X, y, k in items:
        n, m = len(X), len(X[0])
        point = all(l == u for r in X for l, u in r)
        A, b = to_ip(ip, X), to_ip(ip, y)
        for j in range(4):
            name = BASES[(k + j) % 5]
            order = [1, 2, 3, 2][(k // 2 + j) % 4]
            orders = [order] * m if (k + j) % 3 else [1 + (i + j) % 3 for i in range(m)]
            bias = (k + j) % 4 != 3
            if sum(orders) + bias > n + 1:
                continue
            objective, norm = [('Tol', 'inf'), ('Tol', 'l1'), ('Uni', 'inf'), ('Tol', 'l1')][(k + j) % 4]
            alpha, beta = ALBE[(k // 4 + j) % 4]
            w = [None, [F(1 + i % 3, 2) for i in range(n)]][(k // 3 + j) % 2]
            M = Model(X, y, smooth(w or [F(1)] * n, alpha, beta), name, orders, bias, objective, norm)
            start = None if (k + j) % 5 else [F(1 - 2 * (i % 2), 2) for i in range(M.K)]
            kind = 'frame' if (k + j) % 2 else 'array'
            t = '%s, basis=%s, order=%s, bias=%s, %s/%s, alpha=%s, beta=%s, weight=%s, x0=%s, %s' % (
                text(X, y), name, orders, bias, objective, norm, alpha, beta, w and list(map(float, w)), start and list(map(float, start)), kind)
            c = code(X, y, '0') + '\nm = ISPAE(alpha=%r, beta=%r, basis=%r)\nm.fit(A, b, order=%r, bias=%r, objective=%r, norm=%r%s%s)\nprint(m.estimator, m.predict(A))' % (
                float(alpha), float(beta), name, orders, bias, objective, norm, '' if w is None else ', weight=%r' % list(map(float, w)), '' if start is None else ', x0=%r' % list(map(float, start)))
            key = '%s/%s' % (objective, norm)
            rec.state()
            rec.edge()
            with rec.case(key, 'ISPAE ' + t, c, cpu=60):
                D = frame(X, kind)
                before = repr(D) + repr(list(getattr(D, 'columns', []))) + repr(b)
                wf = None if w is None else np.array([float(v) for v in w])
                sf = None if start is None else np.array([float(v) for v in start])
                model = ip.ISPAE(alpha=float(alpha), beta=float(beta), basis=name)
                if k % 3 == 0:      # a model that has already been fitted to other data
                    model.fit(to_ip(ip, [r[:1] for r in X]), b, order=2, maxiter=3, norm='l1', bias=not bias)
                kw = dict(order=orders if len(set(orders)) > 1 else orders[0], x0=sf, weight=wf, objective=objective, norm=norm, bias=bias)
                model.fit(D, b, **kw)
                if model.estimator['ccode'] not in (2, 3):
                    model.fit(D, b, tolf=0, maxiter=700, **kw)
                est = model.estimator
                x = [val(v) for v in est['xr']]
                f = val(est['fr'])
                if len(x) != M.K or any(v is None for v in x) or f is None or est['ccode'] not in (1, 2, 3, 4, 5):
                    rec.fail(key + '/shape', 'ISPAE gives %r: %s' % (est, t), c)
                    continue
                v = M.value(x)
                size = sum(abs(z) for z in x) * 10
                if abs(v - f) > LIM * (1 + abs(v)) + size / 10 ** 11:
                    rec.fail(key + '/value', 'ISPAE reports %s at %s, the objective there is %s: %s' % (float(f), list(map(float, x)), float(v), t), c)
                if start is not None:
                    s = M.value(start)
                    if v < s - LIM * (1 + abs(s)) - size / 10 ** 11:
                        rec.fail(key + '/start', 'ISPAE returns the objective %s, at x0 it is %s: %s' % (float(v), float(s), t), c)
                if objective == 'Tol' or point:
                    M.objective = 'Tol'
                    best, up = M.optimum()
                    M.objective = objective
                    if best is not None and v < best - 100 * LIM * (1 + abs(best)):
                        rec.fail(key + '/optimum', 'ISPAE reaches the objective %s, there is a model with %s: %s' % (float(v), float(best), t), c)
                    if up is not None and v > up + 100 * LIM * (1 + abs(up)):
                        raise AssertionError('oracle %s < %s' % (up, v))
                # prediction
                for D2 in (D, frame(X, 'frame')[['c%d' % i for i in range(m)][::-1]]) if kind == 'frame' else (D,):
                    P = model.predict(D2)
                    P = list(P.data if isinstance(P, ip.ArrayInterval) else np.asarray(P))
                    B = [(val(z.a), val(z.b)) if hasattr(z, 'a') else (val(z), val(z)) for z in P]
                    ok = len(B) == n
                    for (l, u), row in zip(B, X):
                        lo, hi, _, _ = M.range(x, row)
                        nl = nh = x[0] if bias else F(0)
                        q, sz = 1 if bias else 0, abs(nl)
                        for Bs, (xl, xu) in zip(M.basis, row):
                            for p in Bs:
                                e = extremes(p, xl, xu)
                                a, z = x[q] * e[0][0], x[q] * e[1][0]
                                nl, nh = nl + min(a, z), nh + max(a, z)
                                sz += abs(x[q]) * (1 + max(abs(e[0][0]), abs(e[1][0])))
                                q += 1
                        tiny = F(1, 10 ** 9) * (1 + sz)
                        if l > lo + tiny or u < hi - tiny or l < nl - tiny or u > nh + tiny:
                            ok = False
                            rec.fail('predict', 'ISPAE.predict gives [%s, %s] for a row with the exact range [%s, %s], sum of terms [%s, %s]: %s' % tuple([float(z) for z in (l, u, lo, hi, nl, nh)] + [t]), c)
                            break
                    if not ok and len(B) != n:
                        rec.fail('predict', 'ISPAE.predict gives %r: %s' % (P, t), c)
                if repr(D) + repr(list(getattr(D, 'columns', []))) + repr(b) != before or (w is not None and list(wf) != [float(v) for v in w]) or (start is not None and list(sf) != [float(v) for v in start]):
                    rec.fail('operands', 'ISPAE.fit or predict changes its arguments: %s' % t, c)
                rec.outcome('%s %s order %s' % (key, name, max(orders)))
        rec.trace()
    rec.sample(text(X, y))


CELLS = [(F(-2), F(-1)), (F(-1), -H), (F(0), H), (H, F(2)), (F(-1, 4), F(1, 4)), (F(1), F(1)), (F(2), F(5, 2)), (F(-3, 2), F(3, 2))]
OBS = [(F(-1), F(1)), (F(0), F(2)), (F(1), F(4)), (F(-2), F(-1)), (F(3), F(3)), (H, F(3, 2))]


def datasets(k):
    i = 0
    for n in (3, 4, 5):
        for m in (1, 2):
            for c0 in range(0, 8 ** 2):
                for b0 in range(6 ** 2):
                    i += 1
                    if i % k:
                        continue
                    X = [[CELLS[(c0 + 3 * r + 5 * q + (c0 // 8) * r * (q + 1)) % 8] for q in range(m)] for r in range(n)]
                    y = [OBS[(b0 + r * (1 + b0 // 6)) % 6] for r in range(n)]
                    if (i // k) % 4 == 3:
                        X = [[((l + u) / 2 + F(r, 8),) * 2 for l, u in row] for r, row in enumerate(X)]
                    yield X, y, i // k


def columns(k):
    i = 0
    XS = [(F(-1), F(2)), (F(-2), F(-1)), (F(0), H), (F(1), F(1)), (-H, F(1, 4)), (F(-3), F(3))]
    for name in BASES:
        for n in (1, 2, 3, 4):
            for beta in itertools.product((F(-1), F(0), H, F(3)), repeat=n):
                i += 1
                if i % k == 0:
                    yield name, list(beta), None, XS[(i // k) % 6:] + XS[:(i // k) % 6]
        for deg in ([1], [2], [3], [5], [2, 4], [3, 1], [1, 6], [0, 2]):
            for beta in itertools.product((F(-2), F(1), H), repeat=len(deg)):
                yield name, list(beta), deg, XS


def explore(ctx):
    th = ctx.thorough
    Cs = list(columns(1 if th else 5))
    ctx.run(column, Cs)
    Ds = list(datasets(11 if th else 601))
    ctx.run(fits, Ds, chunk=1)
    ctx.bounds = {'columns': len(Cs), 'data_sets': len(Ds), 'models_per_data_set': 4}
    ctx.assumptions = ['ranges compared to 1e-9, objectives to 1e-7, optimum to 1e-5 relative', 'the optimum is required for Tol, and for Uni when X has no width',
                       'runs that do not stop with code 2 or 3 are repeated with tolf=0']
