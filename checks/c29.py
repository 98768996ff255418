"""C29: the weighted interval linear model WILS: exact objective, optimum, smoothing, prediction.

State = (data, objective, norm, smoothing, weights, constraint, budget, previous fit).
"""
import copy
import warnings
from mc import boot
from mc.lsys import *
from checks.c20 import FUN
from checks.c22 import snapshot, unchanged

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C29'
INF = float('inf')
LIM = F(1, 10 ** 7)


def smooth(w, alpha, beta):
    out = []
    for k, v in enumerate(w):
        out.append(beta * (v * (1 - alpha) + (alpha * out[-1] if k else 0)))
    return out


def objective(name, norm, A, b, x, w):
    c = [q * FUN[name][0](r, e, x) for q, r, e in zip(w, A, b)]
    return min(c) if norm == 'inf' else sum(c)


def solve(G, h):
    n = len(G)
    W = [list(g) + [e] for g, e in zip(G, h)]
    for i in range(n):
        k = next((k for k in range(i, n) if W[k][i] != 0), None)
        if k is None:
            return None
        W[i], W[k] = W[k], W[i]
        W[i] = [v / W[i][i] for v in W[i]]
        for r in range(n):
            if r != i and W[r][i]:
                W[r] = [p - W[r][i] * q for p, q in zip(W[r], W[i])]
    return [r[n] for r in W]


def l1_max(A, b, w, C, d):
    """Exact maximum of the sum over {C x <= d}: a concave function, linear between the
    hyperplanes x_j = 0 and mid b_i = mid A_i x, so it is attained where m of them (or of the
    borders) meet."""
    m = len(A[0])
    G = [[F(int(i == j)) for i in range(m)] for j in range(m)] + [[(l + u) / 2 for l, u in r] for r in A] + [list(c) for c in C]
    h = [F(0)] * m + [(l + u) / 2 for l, u in b] + list(d)
    best = None
    for S in itertools.combinations(range(len(G)), m):
        x = solve([G[i] for i in S], [h[i] for i in S])
        if x is None or any(sum(p * q for p, q in zip(g, x)) > e for g, e in zip(C, d)):
            continue
        v = objective('Tol', 'l1', A, b, x, w)
        best = v if best is None else max(best, v)
    return best


def optimum(A, b, norm, w, C=(), d=()):
    if norm == 'l1':
        return l1_max(A, b, w, C, d)
    from checks.c21 import tol_max
    return tol_max(A, b, w, C, d)


CONS = {1: [None, ([[1]], [None], [F(0)]), ([[-2]], [F(1)], [F(1)]), ([[1]], [F(-1, 2)], [F(1, 4)])],
        2: [None, ([[1, 1]], [None], [F(0)]), ([[1, -1]], [F(1)], [F(1)]), ([[1, 0], [0, 1]], [F(-1, 2), F(0)], [F(1, 4), None]), ([[2, -1]], [F(3)], [None])],
        3: [None, ([[1, 1, 1]], [None], [F(0)]), ([[1, -1, 0]], [F(1)], [F(1)])]}
ALBE = [(F(0), F(1)), (H, F(1)), (F(1, 4), F(2)), (F(3, 4), H)]


def halves(con):
    G, d = [], []
    for row, l, u in zip(*con):
        if u is not None:
            G.append([F(v) for v in row])
            d.append(u)
        if l is not None:
            G.append([-F(v) for v in row])
            d.append(-l)
    return G, d


def lc(con):
    C, lb, ub = con
    return ip.LinearConstraint(np.array([[float(v) for v in r] for r in C]),
                               lb=None if all(v is None for v in lb) else np.array([-INF if v is None else float(v) for v in lb]),
                               ub=None if all(v is None for v in ub) else np.array([INF if v is None else float(v) for v in ub]))


def rowmag(A, x):
    return max(sum(max(abs(l), abs(u)) * abs(v) for (l, u), v in zip(r, x)) for r in A)


def fits(rec, items):
    for (A, b), k in items:
        n, m = len(A), len(A[0])
        pointX = all(l == u for r in A for l, u in r)
        t0 = text(A, b)
        used = ip.WILS()            # a model that has already been fitted to other data
        used.fit(to_ip(ip, [[(F(1), F(2))], [(F(-1), F(3))]]), to_ip(ip, [(F(0), F(1)), (F(2), F(5))]), norm='l1', weight=np.array([3.0, 7.0]))
        for j, (name, norm) in enumerate(itertools.product(('Tol', 'Uni', 'Uss'), ('inf', 'l1'))):
            alpha, beta = ALBE[(k + j) % 4]
            w = [None, [F(1 + i % 3, 2) for i in range(n)], [F(3 * (n - i)) for i in range(n)]][(k + j // 2) % 3]
            con = CONS[m][(k + j) % len(CONS[m])] if (k + j) % 2 else None
            start = None if (k + j) % 3 else [F(1 - 2 * i, 2) for i in range(m)]
            old = (k + j) % 2
            we = smooth(w or [F(1)] * n, alpha, beta)
            G, d = halves(con) if con else ([], [])
            M = optimum(A, b, norm, we, G, d) if name == 'Tol' or pointX else None
            if con and (M is None and (name == 'Tol' or pointX)):
                rec.outcome('infeasible')
                continue
            rec.state()
            rec.edge()
            t = '%s, %s/%s, alpha=%s, beta=%s, weight=%s, x0=%s, constraint=%s%s' % (t0, name, norm, alpha, beta, w and list(map(float, w)), start and list(map(float, start)), con, ', second fit' if old else '')
            call = 'fit(A, b, objective=%r, norm=%r' % (name, norm)
            c = code(A, b, '0') + '\nm = WILS(alpha=%r, beta=%r)\nm.%s%s%s%s)\nprint(m.estimator)' % (
                float(alpha), float(beta), call, '' if w is None else ', weight=np.array(%r)' % list(map(float, w)),
                '' if start is None else ', x0=np.array(%r)' % list(map(float, start)), '' if con is None else ', constraint=LinearConstraint(...)  # %s\n' % (con,))
            key = '%s/%s' % (name, norm)
            with rec.case(key, 'WILS ' + t, c):
                X = np.array([[float(l) for l, u in r] for r in A]) if pointX and k % 2 else to_ip(ip, A)
                y = to_ip(ip, b)
                before = repr(X), repr(y)
                wf = None if w is None else np.array([float(v) for v in w])
                if w is not None and (k + j) % 2:
                    wf = [float(v) for v in w]
                sf = None if start is None else np.array([float(v) for v in start])
                con_ = lc(con) if con else None
                shot = snapshot(con_) if con else None
                model = used if old else ip.WILS(alpha=float(alpha), beta=float(beta))
                model.alpha, model.beta = float(alpha), float(beta)
                kw = dict(x0=sf, weight=wf, objective=name, norm=norm, constraint=con_)
                model.fit(X, y, **kw)
                if model.estimator['ccode'] == 1:
                    model.fit(X, y, tolf=0, **kw)
                est = model.estimator
                x = [val(v) for v in est['xr']]
                f = val(est['fr'])
                if len(x) != m or any(v is None for v in x) or f is None or est['ccode'] not in (1, 2, 3, 4, 5):
                    rec.fail(key + '/shape', 'WILS gives %r: %s' % (est, t), c)
                    continue
                v = objective(name, norm, A, b, x, we)
                size = max(we) * rowmag(A, x) * n / 10 ** 13
                over = max(sum(p * q for p, q in zip(g, x)) - e for g, e in zip(G, d)) if G else F(0)
                slack = LIM * (1 + abs(v)) + size
                if (not con or over <= 0) and abs(v - f) > slack:
                    rec.fail(key + '/value', 'WILS reports %s at %s, the objective there is %s: %s' % (float(f), list(map(float, x)), float(v), t), c)
                if start is not None and not con:
                    s = objective(name, norm, A, b, start, we)
                    if v < s - LIM * (1 + abs(s)) - size:
                        rec.fail(key + '/start', 'WILS returns %s with the objective %s, at x0 it is %s: %s' % (list(map(float, x)), float(v), float(s), t), c)
                if M is not None:
                    if con and over > 10 * LIM * (1 + max(abs(e) for e in d) + max(map(abs, x))):
                        rec.fail(key + '/constraint', 'WILS returns %s, the constraint is violated by %.3g: %s' % (list(map(float, x)), float(over), t), c)
                    if v < M - 100 * LIM * (1 + abs(M)) or abs(f - M) > 100 * LIM * (1 + abs(M)):
                        rec.fail(key + '/optimum', 'WILS reports %s and the objective is %s, the optimum is %s: %s' % (float(f), float(v), float(M), t), c)
                # prediction: X @ x for interval and point data
                P = model.predict(to_ip(ip, A))
                B = box_of(ip, P, n)
                want = [(sum(min(l * z, u * z) for (l, u), z in zip(r, x)), sum(max(l * z, u * z) for (l, u), z in zip(r, x))) for r in A]
                tiny = F(1, 10 ** 13) * (1 + rowmag(A, x))
                if B is None or any(l > p or u < q or p - l > tiny or u - q > tiny for (l, u), (p, q) in zip(B, want)):
                    rec.fail('predict', 'WILS.predict gives %r, the exact ranges are %s: %s' % (P, [(float(p), float(q)) for p, q in want], t), c)
                if (repr(X), repr(y)) != before or (w is not None and list(wf) != [float(v) for v in w]) or (start is not None and list(sf) != [float(v) for v in start]) or (con and not unchanged(shot, snapshot(con_))):
                    rec.fail('operands', 'WILS.fit changes its arguments: %s' % t, c)
                rec.outcome('%s %s%s' % (key, 'constrained' if con else 'free', ' optimal' if M is not None else ''))
                # the weights act on the rows: every budget reports the objective at its point
                if not con:
                    last = None
                    for q in (0, 2, 7, 40):
                        rec.state()
                        rec.edge()
                        mod = ip.WILS(alpha=float(alpha), beta=float(beta))
                        mod.fit(X, y, maxiter=q, **kw)
                        e = mod.estimator
                        z = [val(u) for u in e['xr']]
                        vq = objective(name, norm, A, b, z, we)
                        sl = LIM * (1 + abs(vq)) + max(we) * rowmag(A, z) * n / 10 ** 13
                        if abs(vq - val(e['fr'])) > sl:
                            rec.fail(key + '/budget', 'WILS with maxiter=%d reports %s, the objective is %s: %s' % (q, float(e['fr']), float(vq), t), c)
                        if last is not None and vq < last - sl:
                            rec.fail(key + '/budget/worse', 'WILS with maxiter=%d gives %s, with less %s: %s' % (q, float(vq), float(last), t), c)
                        last = vq
        rec.trace()
    rec.sample(t)


def smoothing(rec, items):
    """The smoothed weights themselves: with A = 0 the objective of one row is w_i rad b_i."""
    for n, w, alpha, beta in items:
        rec.state()
        rec.edge()
        we = smooth(w, alpha, beta)
        t = 'weights %s, alpha=%s, beta=%s' % (list(map(float, w)), alpha, beta)
        for i in range(n):
            with rec.case('smoothing', t, cpu=5):
                # all rows but i have a large radius, so the smallest one is row i
                b = [(F(-1), F(1)) if k == i else (F(-1000), F(1000)) for k in range(n)]
                A = [[(F(1), F(1))]] * n
                mod = ip.WILS(alpha=float(alpha), beta=float(beta))
                mod.fit(to_ip(ip, A), to_ip(ip, b), weight=np.array([float(v) for v in w]), x0=np.array([0.0]), maxiter=0)
                got = val(mod.estimator['fr'])
                if abs(got - we[i]) > F(1, 10 ** 12) * we[i]:
                    rec.fail('smoothing', 'the smoothed weight %d is %s instead of %s: %s' % (i, float(got), float(we[i]), t))
                rec.outcome('smoothing')
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    S = list(sys1())[::2 if th else 3] + list(sys2())[::97 if th else 2503] + list(sys3(2003 if th else 120011)) + list(over(2, 1, 2 if th else 9)) + list(over(3, 2, 499 if th else 12007)) + list(data(2, 5 if th else 67)) + list(data(3, 31 if th else 499))
    S += [point(A, b) for A, b in S[::5]]
    # point matrices with interval right-hand sides, as in data fitting
    S += [(point(A, b)[0], b) for A, b in S[1::4]]
    ctx.run(fits, [(s, k) for k, s in enumerate(S)], chunk=2)
    Wt = [(n, w, a, be) for n in (1, 2, 3, 4) for w in ([F(1)] * n, [F(1 + i) for i in range(n)], [F(2 * n - i, 4) for i in range(n)]) for a in (F(0), F(1, 4), H, F(3, 4)) for be in (H, F(1), F(3))]
    ctx.run(smoothing, Wt)
    ctx.bounds = {'data_sets': len(S), 'combinations_per_data_set': 6, 'weight_sequences': len(Wt)}
    ctx.assumptions = ['values to 1e-7, optimum to 1e-5 relative; the optimum is required for Tol, and for all objectives when X has no width', 'runs that stop because the value stagnates (code 1) are repeated with tolf=0']
