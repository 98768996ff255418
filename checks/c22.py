"""C22: maximization under linear constraints: the constraint holds and Tol is optimal on it."""
import copy
from mc import boot
from mc.lsys import *
from checks.c20 import FUN, weights, arr
from checks.c21 import tol_max, exact_value

ip = boot.load()
import numpy as np
ID = 'C22'
INF = float('inf')
LIM = F(1, 10 ** 6)


def snapshot(lc):
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.copy(v)) for k, v in vars(lc).items()}


def unchanged(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) else a[k] == b[k] for k in a)


def constrained(rec, items):
    for (A, b), (C, lb, ub) in items:
        n, m = len(A), len(A[0])
        G, d = [], []
        for row, l, u in zip(C, lb or [-INF] * len(C), ub or [INF] * len(C)):
            if u != INF:
                G.append(list(row))
                d.append(F(u))
            if l != -INF:
                G.append([-v for v in row])
                d.append(-F(l))
        t = text(A, b) + ', C=%s lb=%s ub=%s' % ([list(map(float, r)) for r in C], lb, ub)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        ws = list(weights(n))
        first = None
        for w in (ws[0], ws[2 + len(t) % 3]):
            M = tol_max(A, b, w, G, d)
            if M is None:
                rec.outcome('infeasible')
                continue
            for name in FUN:
                if name != 'Tol' and (w is not None or len(t) % 3):
                    continue
                rec.state()
                rec.edge()
                c = code(A, b, "ip.%s.maximize(A, b, weight=%s, linear_constraint=ip.LinearConstraint(np.array(%r), lb=%s, ub=%s))" % (
                    name, repr(arr(w)).replace('array', 'np.array'), [list(map(float, r)) for r in C],
                    None if lb is None else 'np.array(%r)' % list(map(float, lb)), None if ub is None else 'np.array(%r)' % list(map(float, ub)))).replace('inf', 'np.inf')
                with rec.case(name, '%s.maximize of %s' % (name, t), c):
                    Ca = np.array([[float(v) for v in r] for r in C])
                    la = None if lb is None else np.array(list(map(float, lb)))
                    ua = None if ub is None else np.array(list(map(float, ub)))
                    lc = ip.LinearConstraint(Ca, lb=la, ub=ua)
                    shot = snapshot(lc)
                    args = Ca.copy(), None if la is None else la.copy(), None if ua is None else ua.copy()
                    r = getattr(ip, name).maximize(ia, ibb, weight=arr(w), linear_constraint=lc)
                    xr, fr, nit, ncalls, ccode = r
                    x = [val(v) for v in xr]
                    if len(x) != m or any(v is None for v in x):
                        rec.fail(name + '/shape', '%s.maximize returns %r: %s' % (name, r, t), c)
                        continue
                    over_ = max(sum(g * v for g, v in zip(row, x)) - e for row, e in zip(G, d)) if G else F(0)
                    size = 1 + max([max(abs(e) for e in d)] + [sum(abs(g * v) for g, v in zip(row, x)) for row in G]) if G else F(1)
                    if name != 'Tol':
                        # not concave: the minimization may stop at a point that violates a constraint slightly
                        v = exact_value(name, A, b, x, w)
                        if over_ <= 0 and max(map(abs, x)) < 1000 and abs(val(fr) - v) > LIM * (1 + abs(v)):
                            rec.fail(name + '/value', '%s.maximize reports %s at %s, the value there is %s: %s' % (name, float(fr), list(map(float, x)), float(v), t), c)
                    elif over_ > LIM * size:
                        rec.fail(name + '/violated', '%s.maximize returns %s, a constraint is violated by %.3g: %s' % (name, list(map(float, x)), float(over_), t), c)
                    if name == 'Tol':
                        v = exact_value(name, A, b, x, w)
                        if v < M - 10 * LIM * (1 + abs(M)):
                            rec.fail('Tol/optimum', 'Tol.maximize finds %s, the constrained maximum is %s: %s' % (float(v), float(M), t), c)
                        if abs(val(fr) - M) > 10 * LIM * (1 + abs(M)):
                            rec.fail('Tol/value', 'Tol.maximize reports %s, the constrained maximum is %s: %s' % (float(fr), float(M), t), c)
                    if not unchanged(shot, snapshot(lc)):
                        rec.fail(name + '/object', '%s.maximize changes the LinearConstraint of the caller: %s' % (name, t), c)
                    if not np.array_equal(args[0], Ca) or (la is not None and not np.array_equal(args[1], la)) or (ua is not None and not np.array_equal(args[2], ua)):
                        rec.fail(name + '/operands', 'LinearConstraint or maximize changes its arguments: %s' % t, c)
                    # the same constraint object for another system gives what a fresh one gives
                    if name == 'Tol' and w is None:
                        A2, b2 = [[(l * 8, u * 8) for l, u in row] for row in A], [(l * 8, u * 8) for l, u in b]
                        M2 = 8 * M
                        r2 = ip.Tol.maximize(to_ip(ip, A2), to_ip(ip, b2), linear_constraint=lc)
                        if abs(val(r2[1]) - M2) > 10 * LIM * (1 + abs(M2)):
                            rec.fail('Tol/reuse', 'a LinearConstraint used before gives the maximum %s instead of %s: 8 * (%s)' % (float(r2[1]), float(M2), t), c)
                    # the weight of the penalty given by the caller: none is no constraint, a larger one changes nothing
                    if name == 'Tol' and len(t) % 4 == 0 and ccode != 4:
                        free = tol_max(A, b, w)
                        auto = copy.copy(lc)
                        auto.find_mu(float(2 * max(max(abs(l), abs(u)) for row in A for l, u in row) * max(w or [1])))
                        for mu, best in ((0.0, free), (2 * float(auto.mu), M)):
                            if best is None:
                                continue
                            r3 = ip.Tol.maximize(ia, ibb, weight=arr(w), linear_constraint=ip.LinearConstraint(Ca, lb=la, ub=ua, mu=mu))
                            if abs(val(r3[1]) - best) > 10 * LIM * (1 + abs(best)):
                                rec.fail('Tol/mu', 'Tol.maximize with mu=%s gives %s, the maximum is %s: %s' % (mu, float(r3[1]), float(best), t), c)
                    rec.outcome('%s %s' % (name, 'active' if G and over_ > -LIM * size else 'inactive'))
        rec.trace()
    rec.sample(t)


def orthant_max(name, A, b, w, lo, hi):
    """Exact maximum of Uni or Uss over the box [lo, hi], which lies in one orthant: a linear program."""
    n, m = len(A), len(A[0])
    s = [1 if l >= 0 else -1 for l in lo]
    G, h = [], []
    for row, (bl, bu), q in zip(A, b, w or [F(1)] * n):
        bm, br = (bl + bu) / 2, (bu - bl) / 2
        mid_ = [(l + u) / 2 for l, u in row]
        rad_ = [s[j] * (u - l) / 2 for j, (l, u) in enumerate(row)]
        for sg in (1, -1):
            # t <= q * (br + rad |x| - sg * (bm - mid x))
            G.append([-q * (r + sg * c) for r, c in zip(rad_, mid_)] + [F(1)])
            h.append(q * (br - sg * bm))
        if name == 'Uni':
            G.append([F(0)] * m + [F(1)])
            h.append(q * br)
    for j in range(m):
        G.append([F(i == j) for i in range(m)] + [F(0)])
        h.append(hi[j])
        G.append([F(-(i == j)) for i in range(m)] + [F(0)])
        h.append(-lo[j])
    return max(v[m] for v in vertices(G, h))


def orthants(rec, items):
    """Within an orthant Uni and Uss are concave: from a start inside they reach their exact maximum over a box."""
    for (A, b), (lo, hi) in items:
        n, m = len(A), len(A[0])
        t = text(A, b) + ', %s <= x <= %s' % (list(map(float, lo)), list(map(float, hi)))
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        w = list(weights(n))[len(t) % 4]
        x0 = [float(l) + (0.37 + 0.21 * j) * float(u - l) for j, (l, u) in enumerate(zip(lo, hi))]
        for name in ('Uni', 'Uss'):
            rec.state()
            rec.edge()
            M = orthant_max(name, A, b, w, lo, hi)
            c = code(A, b, 'ip.%s.maximize(A, b, x0=np.array(%r), weight=%s, linear_constraint=ip.LinearConstraint(np.eye(%d), lb=np.array(%r), ub=np.array(%r)))' % (
                name, x0, repr(arr(w)).replace('array', 'np.array'), m, list(map(float, lo)), list(map(float, hi))))
            with rec.case(name + '/orthant', '%s.maximize of %s' % (name, t), c):
                lc = ip.LinearConstraint(np.eye(m), lb=np.array(list(map(float, lo))), ub=np.array(list(map(float, hi))))
                xr, fr, nit, ncalls, ccode = getattr(ip, name).maximize(ia, ibb, x0=np.array(x0), weight=arr(w), linear_constraint=lc)
                x = [val(v) for v in xr]
                if len(x) != m or any(v is None for v in x) or val(fr) is None:
                    rec.fail(name + '/orthant/shape', '%s.maximize returns %r: %s' % (name, xr, t), c)
                    continue
                out = max(max(l - v, v - u) for l, u, v in zip(lo, hi, x))
                if out > LIM * 10:
                    rec.fail(name + '/orthant/violated', '%s.maximize returns %s, a constraint is violated by %.3g: %s' % (name, list(map(float, x)), float(out), t), c)
                v = exact_value(name, A, b, x, w)
                if abs(v - M) > 10 * LIM * (1 + abs(M)):
                    rec.fail(name + '/orthant/optimum', '%s.maximize finds %s at %s, the maximum is %s: %s' % (name, float(v), list(map(float, x)), float(M), t), c)
                if abs(val(fr) - M) > 10 * LIM * (1 + abs(M)):
                    rec.fail(name + '/orthant/value', '%s.maximize reports %s, the maximum is %s: %s' % (name, float(fr), float(M), t), c)
                rec.outcome('%s maximum %s' % (name, 'positive' if M > 0 else 'zero' if M == 0 else 'negative'))
        rec.trace()
    rec.sample(t)


def boxes(m):
    for s in itertools.product((1, -1), repeat=m):
        for size, off in ((F(4), F(0)), (F(1, 2), F(0)), (F(9), F(1, 4))):
            p = [(off, off + size) if k > 0 else (-off - size, -off) for k in s]
            yield [q[0] for q in p], [q[1] for q in p]


ROWS2 = [(F(1), F(0)), (F(0), F(-1)), (F(1), F(1)), (F(2), F(-1)), (F(-1, 2), F(3))]
LIMITS = [(None, 0.0), (0.0, None), (-0.5, 0.5), (0.25, 0.25), (-INF, -0.25), (-1.0, INF), (1.0, 2.0)]


def constraints2(k):
    i = 0
    for r in ROWS2:
        for l, u in LIMITS:
            yield [r], None if l is None else [l], None if u is None else [u]
    yield [ROWS2[0]], None, None
    for r in itertools.combinations(ROWS2, 2):
        for p, q in itertools.product(LIMITS, repeat=2):
            i += 1
            if i % k:
                continue
            lb = [-INF if z[0] is None else z[0] for z in (p, q)]
            ub = [INF if z[1] is None else z[1] for z in (p, q)]
            yield list(r), None if lb == [-INF] * 2 else lb, None if ub == [INF] * 2 else ub


def constraints1():
    yield [(F(1),)], None, None
    for r in ((F(1),), (F(-2),)):
        for l, u in LIMITS:
            yield [r], None if l is None else [l], None if u is None else [u]


def constraints3():
    yield [(F(1), F(1), F(1)), (F(0), F(0), F(1))], None, None
    for r in ((F(1), F(1), F(1)), (F(1), F(0), F(-1)), (F(0), F(2), F(0))):
        for l, u in LIMITS:
            yield [r], None if l is None else [l], None if u is None else [u]


def explore(ctx):
    th = ctx.thorough
    S2 = list(sys2())[::1201 if th else 9001] + list(over(3, 2, 3001 if th else 24001)) + list(data(2, 31 if th else 131))
    S3 = list(sys3(12007 if th else 60013)) + list(data(3, 61 if th else 211))
    S1 = list(sys1())[::5] + list(over(2, 1, 7))
    C2 = list(constraints2(3 if th else 17))
    P = [(s, c) for i, s in enumerate(S2) for j, c in enumerate(C2) if th or (i + j) % 3 == 0]
    P += [(s, c) for i, s in enumerate(S1) for j, c in enumerate(constraints1()) if (i + j) % (1 if th else 4) == 0]
    P += [(s, c) for i, s in enumerate(S3) for j, c in enumerate(constraints3()) if (i + j) % (1 if th else 3) == 0]
    ctx.run(constrained, P, chunk=4)
    Q = [(s, c) for S, m in ((S1, 1), (S2, 2), (S3, 3)) for i, s in enumerate(S) for j, c in enumerate(boxes(m)) if (i + j) % (1 if th else 3) == 0]
    ctx.run(orthants, Q, chunk=4)
    ctx.bounds = {'systems': len(S1) + len(S2) + len(S3), 'system_constraint_pairs': len(P)}
    ctx.assumptions = ['violation up to 1e-6 relative, optimum to 1e-5 relative; infeasible constraints excluded']
