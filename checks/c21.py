"""C21: maximization of the recognizing functionals: consistent at every budget, optimal for Tol."""
from mc import boot
from mc.lsys import *
from checks.c20 import FUN, weights, arr

ip = boot.load()
import numpy as np
ID = 'C21'
EPS = F(1, 10 ** 9)


def tol_max(A, b, w=None, C=(), d=()):
    """Exact maximum of Tol, over {C x <= d}: a linear program per orthant, all basic points."""
    n, m = len(A), len(A[0])
    w = w or [F(1)] * n
    best = None
    for s in itertools.product((1, -1), repeat=m):
        G, h = [], []
        for row, (bl, bu), q in zip(A, b, w):
            lo = [row[j][0] if s[j] > 0 else row[j][1] for j in range(m)]
            hi = [row[j][1] if s[j] > 0 else row[j][0] for j in range(m)]
            bm, br = (bl + bu) / 2, (bu - bl) / 2
            G.append([-q * v for v in lo] + [F(1)])
            h.append(q * (br - bm))
            G.append([q * v for v in hi] + [F(1)])
            h.append(q * (br + bm))
        for j in range(m):
            G.append([F(-s[j]) if i == j else F(0) for i in range(m + 1)])
            h.append(F(0))
        for g, e in zip(C, d):
            G.append(list(g) + [F(0)])
            h.append(e)
        for v in vertices(G, h):
            if best is None or v[m] > best:
                best = v[m]
    return best


def tol_max_parts(A, b, w):
    """Independent parts: the smallest of their maxima."""
    P = [(R, C) for R, C in parts(A)]
    if len(P) == 1 or not all(R and C for R, C in P):
        return tol_max(A, b, w)
    return min(cached(tol_max, tuple(tuple(A[i][j] for j in C) for i in R), tuple(b[i] for i in R), w and tuple(w[i] for i in R)) for R, C in P)


def exact_value(name, A, b, x, w):
    x = [val(v) for v in x]
    if any(v is None for v in x):
        return None
    c = [FUN[name][0](r, e, x) for r, e in zip(A, b)]
    return min(c if w is None else [p * q for p, q in zip(w, c)])


def far(A, x, w):
    """The rounding error of a value at x."""
    return max([F(1)] + list(w or ())) * max(sum(max(abs(l), abs(u)) * abs(val(z)) for (l, u), z in zip(row, x)) for row in A) / 10 ** 14


def judge(rec, name, A, b, w, res, key, t, c, start=None):
    """Shape and consistency of a result; returns the exact value at the returned point."""
    m = len(A[0])
    try:
        xr, fr, nit, ncalls, ccode = res
    except Exception:
        rec.fail(key + '/shape', '%s.maximize returns %r: %s' % (name, res, t), c)
        return None
    if np.shape(xr) != (m,) or ccode not in (1, 2, 3, 4, 5) or nit < 0 or ncalls < 1:
        rec.fail(key + '/shape', '%s.maximize returns %r: %s' % (name, res, t), c)
        return None
    v = exact_value(name, A, b, xr, w)
    f = val(fr)
    # the terms may cancel at far away points
    size = far(A, xr, w) if v is not None else 0
    if v is None or f is None or abs(v - f) > EPS * (1 + abs(v)) + size:
        rec.fail(key + '/value', '%s.maximize reports %r at %s, the value there is %s: %s' % (name, fr, list(xr), v and float(v), t), c)
    elif start is not None:
        s = exact_value(name, A, b, start, w)
        if v < s - EPS * (1 + abs(s)) - size:
            rec.fail(key + '/start', '%s.maximize returns a point with value %s, the start point has %s: %s' % (name, float(v), float(s), t), c)
    return v


def optimum(rec, items):
    """Tol reaches its exact global maximum with the default settings, for any start and weights;
    so do Uni and Uss for matrices of numbers, where the three are the same concave function."""
    for k, (A, b) in enumerate(items):
        n, m = len(A), len(A[0])
        t = text(A, b)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        ws = list(weights(n))
        thin = all(l == u for row in A for l, u in row)
        for w, name in [(w, name) for w in (ws[0], ws[2 + len(t) % 3]) for name in (FUN if thin else ['Tol'])]:
            run = getattr(ip, name).maximize
            M = tol_max_parts(A, b, w)
            for start in (None, [F(0)] * m, [F(2 - 3 * j) for j in range(m)]):
                if start is not None and (len(t) + len(start)) % 3:
                    continue
                rec.state()
                rec.edge()
                arg = '' if w is None else ', weight=%s' % repr(arr(w)).replace('array', 'np.array')
                arg += '' if start is None else ', x0=np.array(%r)' % list(map(float, start))
                c = code(A, b, 'ip.%s.maximize(A, b%s)' % (name, arg))
                with rec.case(name, '%s.maximize%s of %s' % (name, arg, t), c):
                    wf, sf = arr(w), arr(start)
                    kw = {} if start is None else {'x0': sf}
                    r = run(ia, ibb, weight=wf, **kw)
                    v = judge(rec, name, A, b, w, r, name, t + arg, c, start)
                    if v is not None and r[4] == 1 and v < M:
                        # stopped because nothing changed for nsims iterations: that test switched off
                        r = run(ia, ibb, weight=wf, tolf=0, **kw)
                        v = judge(rec, name, A, b, w, r, name + '/tolf', t + arg + ', tolf=0', c, start)
                    if v is not None and v < M - F(1, 10 ** 7) * (1 + abs(M)):
                        rec.fail(name + '/optimum', '%s.maximize finds %s, the maximum is %s: %s' % (name, float(v), float(M), t + arg), c)
                    if (repr(ia), repr(ibb)) != before or (w is not None and list(np.ravel(wf)) != list(np.ravel(arr(w)))) or (start is not None and list(sf) != list(map(float, start))):
                        rec.fail(name + '/operands', '%s.maximize changes its arguments: %s' % (name, t + arg), c)
                    rec.outcome('maximum %s' % ('positive' if M > 0 else 'zero' if M == 0 else 'negative'))
        rec.trace()
    rec.sample(t)


def numbers(A, b):
    """The matrix replaced by its midpoints, the right-hand side kept."""
    return [[((l + u) / 2,) * 2 for l, u in row] for row in A], b


BUDGETS = [0, 1, 2, 3, 5, 8, 13, 30, 100]


def budgets(rec, items):
    """At every iteration budget the reported value belongs to the reported point and no
    budget does worse than a smaller one or than the start point."""
    for A, b in items:
        n, m = len(A), len(A[0])
        t = text(A, b)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        for name in FUN:
            cl = getattr(ip, name)
            w = list(weights(n))[(len(t) + len(name))% 5 if name != 'Uss' else 0]
            start = None if len(t) % 2 else [F(1 - 2 * j, 2) for j in range(m)]
            last = None
            for q in BUDGETS:
                rec.state()
                rec.edge()
                arg = ', maxiter=%d' % q
                arg += '' if w is None else ', weight=%s' % repr(arr(w)).replace('array', 'np.array')
                arg += '' if start is None else ', x0=np.array(%r)' % list(map(float, start))
                c = code(A, b, 'ip.%s.maximize(A, b%s)' % (name, arg))
                with rec.case(name + '/budget', '%s.maximize%s of %s' % (name, arg, t), c):
                    kw = {} if start is None else {'x0': arr(start)}
                    r = cl.maximize(ia, ibb, weight=arr(w), maxiter=q, **kw)
                    v = judge(rec, name, A, b, w, r, name + '/budget', t + arg, c, start)
                    if v is None:
                        continue
                    slack = far(A, r[0], w)
                    if last is not None and v < last[0] - EPS * (1 + abs(last[0])) - slack - last[1]:
                        rec.fail(name + '/budget/worse', '%s.maximize finds %s with maxiter=%d and %s with less: %s' % (name, float(v), q, float(last[0]), t + arg), c)
                    last = v, slack
                    rec.outcome('%s code %d' % (name, r[4]))
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    S = list(sys1())[::2] + list(sys2())[::67 if th else 401] + list(sys3(499 if th else 12007))
    O = list(over(2, 1, 2))[::2] + list(over(3, 2, 307 if th else 2999)) + list(data(2, 3 if th else 13)) + list(data(3, 7 if th else 61))
    R = [([r[:] for r in A[:1]], b[:1]) for A, b in list(sys2())[::601]]
    Pt = [point(A, b) for A, b in (S + O)[::18]] + [numbers(A, b) for A, b in (S + O)[5::18]]
    ctx.run(optimum, S + O + R + Pt, chunk=4)
    D2, D3, O1, O2 = list(sys2(4, 5, 5))[::197], list(sys3(997)), list(over(2, 1, 3)), list(over(3, 2, 2999))
    W = list(blocks(D2, D3, 3 if th else 19)) + [together(O1[i % len(O1)], s, p=2, q=2) for i, s in enumerate(O2[::3 if th else 41])]
    ctx.run(optimum, W, chunk=1)
    ctx.run(budgets, W[::4], chunk=1)
    B = (S + O + R + Pt)[::2 if th else 6]
    ctx.run(budgets, B, chunk=4)
    ctx.bounds = {'systems': len(S) + len(O) + len(R) + len(Pt), 'of_independent_parts': len(W), 'systems_times_budgets': len(B), 'budgets': BUDGETS}
    ctx.assumptions = ['runs that stop because the value stagnates (code 1) are repeated with tolf=0 before the maximum is judged', 'value at the returned point compared to 1e-9, the maximum of Tol to 1e-7 relative', 'for matrices that are not numbers only Tol is concave; there, for Uni and Uss, the reported value must belong to the reported point and not be below the start point']
