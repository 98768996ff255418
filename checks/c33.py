"""C33: the Chebyshev norm of the residual: exact values and global minimization."""
from mc import boot
from mc.lsys import *
from checks.c20 import residual, mag, arr, weights
from checks.c21 import tol_max
from checks.c22 import constraints1, constraints2, constraints3, snapshot, unchanged, INF

ip = boot.load()
import numpy as np
ID = 'C33'
LIM = F(1, 10 ** 8)


def cheb(A, b, x, w):
    c = [(e[1] - e[0]) / 2 + mag(residual(r, e, x)) for r, e in zip(A, b)]
    return c if w is None else [p * q for p, q in zip(w, c)]


def wtext(w):
    return '' if w is None else ', weight=%s' % repr(arr(w)).replace('array', 'np.array')


def values(rec, items, points):
    for A, b in items:
        n, m = len(A), len(A[0])
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        t = text(A, b)
        before = repr(ia), repr(ibb)
        ws = list(weights(n))
        for k, x in enumerate(points[m]):
            for w in (None, ws[1 + k % 4]):
                rec.state()
                rec.edge()
                want = cheb(A, b, x, w)
                xf = np.array([float(v) for v in x])
                c = code(A, b, 'ip.ChebNorm.constituent(A, b, np.array(%r)%s)' % (list(map(float, x)), wtext(w)))
                with rec.case('value', 'ChebNorm at %s of %s' % (x, t), c, cpu=10):
                    kw = {} if w is None else {'weight': arr(w)}
                    con = [val(q) for q in np.asarray(ip.ChebNorm.constituent(ia, ibb, xf, **kw), dtype=float).ravel()]
                    v = val(ip.ChebNorm.value(ia, ibb, xf, **kw))
                    if len(con) != n or any(q is None or abs(q - e) > LIM * (1 + abs(e)) for q, e in zip(con, want)):
                        rec.fail('constituent', 'ChebNorm.constituent at %s%s is %s instead of %s: %s' % (list(map(float, x)), wtext(w), con and [q and float(q) for q in con], [float(q) for q in want], t), c)
                    if v is None or abs(v - max(want)) > LIM * (1 + max(want)):
                        rec.fail('value', 'ChebNorm.value at %s%s is %s instead of %s: %s' % (list(map(float, x)), wtext(w), v and float(v), float(max(want)), t), c)
                    rec.outcome('value')
        if (repr(ia), repr(ibb)) != before:
            rec.fail('operands', 'ChebNorm changes its arguments: %s' % t)
        rec.trace()
    rec.sample(t)


def minimum(rec, items):
    for A, b in items:
        n, m = len(A), len(A[0])
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        t = text(A, b)
        ws = list(weights(n))
        w = (None, ws[2], ws[3], ws[4])[len(t) % 4]
        start = None if len(t) % 3 else [F(1 - 2 * j, 2) for j in range(m)]
        # the functional is -Tol for the right-hand side with the ends swapped
        best = -tol_max(A, [(u, l) for l, u in b], w)
        arg = wtext(w) + ('' if start is None else ', x0=np.array(%r)' % list(map(float, start)))
        c = code(A, b, 'ip.ChebNorm.minimize(A, b%s)' % arg)
        rec.state()
        rec.edge()
        with rec.case('minimum', 'ChebNorm.minimize%s of %s' % (arg, t), c):
            kw = {} if start is None else {'x0': np.array([float(v) for v in start])}
            r = ip.ChebNorm.minimize(ia, ibb, weight=arr(w), **kw)
            if r[4] == 1:
                # stopped because nothing changed for nsims iterations: that test switched off
                r = ip.ChebNorm.minimize(ia, ibb, weight=arr(w), tolf=0, **kw)
            xr, fr, nit, ncalls, ccode = r
            x = [val(v) for v in xr]
            v = max(cheb(A, b, x, w))
            if abs(v - val(fr)) > 10 * LIM * (1 + abs(v)):
                rec.fail('minimum/value', 'ChebNorm.minimize reports %s at %s, the value there is %s: %s%s' % (float(fr), list(map(float, x)), float(v), t, arg), c)
            if v > best + 10 * LIM * (1 + abs(best)):
                rec.fail('minimum', 'ChebNorm.minimize finds %s, the minimum is %s: %s%s' % (float(v), float(best), t, arg), c)
            rec.outcome('minimum, code %d' % ccode)
        rec.trace()


def constrained(rec, items):
    """The minimum under linear constraints, which hold for the returned point."""
    for (A, b), (C, lb, ub) in items:
        R, d = [], []
        for row, l, u in zip(C, lb or [-INF] * len(C), ub or [INF] * len(C)):
            if u != INF:
                R.append(list(row))
                d.append(F(u))
            if l != -INF:
                R.append([-v for v in row])
                d.append(-F(l))
        t = text(A, b) + ', C=%s lb=%s ub=%s' % ([list(map(float, r)) for r in C], lb, ub)
        w = (None, list(weights(len(A)))[2])[len(t) % 2]
        best = tol_max(A, [(u, l) for l, u in b], w, R, d)
        if best is None:
            rec.outcome('infeasible')
            continue
        best = -best
        rec.state()
        rec.edge()
        c = code(A, b, 'ip.ChebNorm.minimize(A, b%s, linear_constraint=ip.LinearConstraint(np.array(%r), lb=%s, ub=%s))' % (
            wtext(w), [list(map(float, r)) for r in C], None if lb is None else 'np.array(%r)' % list(map(float, lb)), None if ub is None else 'np.array(%r)' % list(map(float, ub)))).replace('inf', 'np.inf')
        with rec.case('constrained', 'ChebNorm.minimize%s of %s' % (wtext(w), t), c):
            lc = ip.LinearConstraint(np.array([[float(v) for v in r] for r in C]), lb=None if lb is None else np.array(list(map(float, lb))), ub=None if ub is None else np.array(list(map(float, ub))))
            shot = snapshot(lc)
            r = ip.ChebNorm.minimize(to_ip(ip, A), to_ip(ip, b), weight=arr(w), linear_constraint=lc)
            if r[4] == 1:
                r = ip.ChebNorm.minimize(to_ip(ip, A), to_ip(ip, b), weight=arr(w), linear_constraint=lc, tolf=0)
            x = [val(v) for v in r[0]]
            v = max(cheb(A, b, x, w))
            over_ = max([sum(g * z for g, z in zip(row, x)) - e for row, e in zip(R, d)] or [F(0)])
            if over_ > 100 * LIM * (1 + max(map(abs, d or [F(0)])) + max(map(abs, x))):
                rec.fail('constrained/violated', 'ChebNorm.minimize returns %s, a constraint is violated by %.3g: %s%s' % (list(map(float, x)), float(over_), t, wtext(w)), c)
            if v > best + 1000 * LIM * (1 + abs(best)) or abs(val(r[1]) - best) > 1000 * LIM * (1 + abs(best)):
                rec.fail('constrained/minimum', 'ChebNorm.minimize finds %s, the constrained minimum is %s: %s%s' % (float(v), float(best), t, wtext(w)), c)
            if not unchanged(shot, snapshot(lc)):
                rec.fail('constrained/object', 'ChebNorm.minimize changes the LinearConstraint of the caller: %s' % t, c)
            rec.outcome('constrained')
        rec.trace()


G = [F(-2), F(-1), F(0), H, F(1), F(3)]


def explore(ctx):
    th = ctx.thorough
    pts = {1: [(g,) for g in G], 2: list(itertools.product(G, repeat=2))[::1 if th else 5], 3: list(itertools.product(G, repeat=3))[::7 if th else 37]}
    S = list(sys1())[::1 if th else 3] + list(sys2())[::101 if th else 401] + list(over(2, 1, 5)) + list(over(3, 2, 997 if th else 4001)) + list(data(2, 7 if th else 31)) + list(data(3, 31 if th else 211))
    S += [point(A, b) for A, b in S[::9]]
    ctx.run(values, S, pts, chunk=4)
    M = S[::1 if th else 2]
    ctx.run(minimum, M, chunk=1)
    C = {1: list(constraints1()), 2: list(constraints2(11)), 3: list(constraints3())}
    P = [(s, C[len(s[0][0])][j]) for i, s in enumerate(S) for j in range(i % 7, len(C[len(s[0][0])]), 7 if th else 41)]
    ctx.run(constrained, P, chunk=2)
    ctx.bounds = {'systems_with_constraint': len(P), 'systems': len(S), 'systems_minimized': len(M)}
    ctx.assumptions = ['values compared to 1e-8, minima to 1e-7 relative']
