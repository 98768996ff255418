"""C07: comparisons, membership, set relations and intersections."""
import itertools
import operator
from mc import boot
from mc.kern import *
from mc import kspace as S
from checks.c01 import q

ip = boot.load()
import numpy as np
ID = 'C07'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def forms(p):
    return [C(*p), K(*p)] if p[0] <= p[1] else [K(*p)]


def model_cmp(op, X, Y):
    if op == '!=':
        return X[0] != Y[0] or X[1] != Y[1]
    f = CMP[op]
    return f(X[0], Y[0]) and f(X[1], Y[1])


def check(rec, key, got, want, desc, code=None):
    rec.edge()
    ok = (bool(got) == want) if not isinstance(want, (list, tuple, np.ndarray)) else np.array_equal(np.asarray(got, bool), np.asarray(want, bool))
    if not ok:
        rec.fail(key, '%s is %r, expected %r' % (desc, got, want), code or 'print(%s)' % desc)
    rec.outcome('%s=%s' % (key, want if isinstance(want, bool) else 'array'))


def relations(rec, items, Y, scal):
    for x in items:
        X = q(x)
        rec.state()
        for y in Y:
            YY = q(y)
            for ix in forms(x):
                for iy in forms(y):
                    with rec.case('cmp', '%s %s' % (ilit(ix), ilit(iy))):
                        for op, f in CMP.items():
                            check(rec, op, f(ix, iy), model_cmp(op, X, YY), '%s %s %s' % (ilit(ix), op, ilit(iy)))
                        check(rec, 'in', ix in iy, YY[0] <= X[0] and X[1] <= YY[1], '%s in %s' % (ilit(ix), ilit(iy)))
                        sub = YY[0] <= X[0] and X[1] <= YY[1]
                        psub = YY[0] < X[0] and X[1] < YY[1]
                        for n, w in (('subset', sub), ('contain', sub), ('proper_subset', psub)):
                            check(rec, n, getattr(ip, n)(ix, iy), w, 'ip.%s(%s, %s)' % (n, ilit(ix), ilit(iy)))
                        for n, w in (('superset', sub), ('supercontain', sub), ('proper_superset', psub)):
                            check(rec, n, getattr(ip, n)(iy, ix), w, 'ip.%s(%s, %s)' % (n, ilit(iy), ilit(ix)))
            if x[0] <= x[1] and y[0] <= y[1]:
                for ix, iy in ((C(*x), C(*y)), (K(*x), C(*y)), (C(*x), K(*y))):
                    inter(rec, ix, iy, X, YY, '%s, %s' % (ilit(ix), ilit(iy)))
            rec.trace()
        for s in scal:
            v = num(s)
            for ix in forms(x):
                with rec.case('cmp-number', '%s %s' % (ilit(ix), lit(s))):
                    for op, f in CMP.items():
                        check(rec, op + 'n', f(ix, s), model_cmp(op, X, (v, v)), '%s %s %s' % (ilit(ix), op, lit(s)))
                        if True:
                            check(rec, 'n' + op, f(s, ix), model_cmp(op, (v, v), X), '%s %s %s' % (lit(s), op, ilit(ix)))
                    check(rec, 'n in', s in ix, X[0] <= v <= X[1], '%s in %s' % (lit(s), ilit(ix)))
            if x[0] <= x[1]:
                inter(rec, C(*x), s, X, (v, v), '%s, %s' % (ilit(C(*x)), lit(s)))
                inter(rec, s, C(*x), (v, v), X, '%s, %s' % (lit(s), ilit(C(*x))))
            rec.trace()


def inter(rec, ix, iy, X, Y, text):
    lo, hi = max(X[0], Y[0]), min(X[1], Y[1])
    if 0 < lo - hi <= F(2, 10 ** 15):
        return                                 # within the documented closing tolerance
    rec.edge()
    desc = 'ip.intersection(%s)' % text
    with rec.case('intersection', desc, 'print(%s)' % desc):
        r = ip.intersection(ix, iy)
        judge_inter(rec, r, lo, hi, desc)


def judge_inter(rec, r, lo, hi, desc):
    a, b = num(r.a), num(r.b)
    if lo > hi:
        if not (isnan(a) and isnan(b)):
            rec.fail('intersection/disjoint', '%s = %r, the operands are disjoint' % (desc, r), 'print(%s)' % desc)
        rec.outcome('disjoint')
    else:
        if (a, b) != (lo, hi):
            rec.fail('intersection', '%s = [%r, %r], expected [%r, %r]' % (desc, r.a, r.b, float(lo), float(hi)), 'print(%s)' % desc)
        rec.outcome('meet')


def arrays(rec, items, pool):
    """Vectors of three intervals: elementwise comparisons, set relations, intersections."""
    for combo in items:
        x = combo
        rec.state()
        ax = ip.ArrayInterval([C(*p) for p in x])
        X = [q(p) for p in x]
        for y in pool:
            Y = [q(p) for p in y]
            ay = ip.ArrayInterval([C(*p) for p in y])
            desc = '%r %r' % (x, y)
            with rec.case('array', desc):
                for op, f in CMP.items():
                    check(rec, 'array' + op, f(ax, ay), np.array([model_cmp(op, a, b) for a, b in zip(X, Y)]), '%r %s %r' % (x, op, y), '')
                el = [b[0] <= a[0] and a[1] <= b[1] for a, b in zip(X, Y)]
                pl = [b[0] < a[0] and a[1] < b[1] for a, b in zip(X, Y)]
                for n, w in (('subset', all(el)), ('proper_subset', all(pl)), ('contain', np.array(el))):
                    check(rec, 'array ' + n, getattr(ip, n)(ax, ay), w, 'ip.%s of %s' % (n, desc), '')
                for n, w in (('superset', all(el)), ('proper_superset', all(pl)), ('supercontain', np.array(el))):
                    check(rec, 'array ' + n, getattr(ip, n)(ay, ax), w, 'ip.%s of %s' % (n, desc), '')
                rec.edge()
                r = ip.intersection(ax, ay)
                for k in range(len(x)):
                    judge_inter(rec, r[k], max(X[k][0], Y[k][0]), min(X[k][1], Y[k][1]), 'ip.intersection(%r, %r)[%d]' % (x, y, k))
            rec.trace()
        for p in pool:
            # one interval or one number against the vector
            s, P = C(*p[0]), q(p[0])
            with rec.case('array-single', '%r %r' % (x, p[0])):
                for op, f in CMP.items():
                    check(rec, 'arrays' + op, f(ax, s), np.array([model_cmp(op, a, P) for a in X]), '%r %s %r' % (x, op, p[0]), '')
                    check(rec, 'arrayn' + op, f(ax, p[0][0]), np.array([model_cmp(op, a, (P[0], P[0])) for a in X]), '%r %s %r' % (x, op, p[0][0]), '')
                for r in (ip.intersection(ax, s), ip.intersection(s, ax)):
                    rec.edge()
                    for k in range(len(x)):
                        judge_inter(rec, r[k], max(X[k][0], P[0]), min(X[k][1], P[1]), 'ip.intersection(%r, %r)[%d]' % (x, p[0], k))
                if p[0][0] == p[0][1]:
                    for r in (ip.intersection(ax, p[0][0]), ip.intersection([p[0][0]] * len(x), ax)):
                        rec.edge()
                        for k in range(len(x)):
                            judge_inter(rec, r[k], max(X[k][0], P[0]), min(X[k][1], P[1]), 'ip.intersection(%r, %r)[%d]' % (x, p[0][0], k))
            rec.trace()
        # matrices
        M = ip.ArrayInterval([[C(*p) for p in x], [C(*p) for p in x[::-1]]])
        for y in pool[::5]:
            N = ip.ArrayInterval([[C(*p) for p in y], [C(*p) for p in y]])
            with rec.case('matrix', '%r %r' % (x, y)):
                for op, f in CMP.items():
                    w = np.array([[model_cmp(op, q(a), q(b)) for a, b in zip(r1, y)] for r1 in (x, x[::-1])])
                    check(rec, 'matrix' + op, f(M, N), w, '%r %s %r' % (x, op, y), '')
                el = [[q(b)[0] <= q(a)[0] and q(a)[1] <= q(b)[1] for a, b in zip(r1, y)] for r1 in (x, x[::-1])]
                check(rec, 'matrix subset', ip.subset(M, N), all(map(all, el)), 'subset', '')
                check(rec, 'matrix contain', ip.contain(M, N), np.array(el), 'contain', '')
                rec.edge()
                r = ip.intersection(M, N)
                for i, r1 in enumerate((x, x[::-1])):
                    for k in range(len(x)):
                        judge_inter(rec, r[i, k], max(q(r1[k])[0], q(y[k])[0]), min(q(r1[k])[1], q(y[k])[1]), 'intersection of matrices %r %r' % (x, y))


def explore(ctx):
    th = ctx.thorough
    vals = S.signed([0.0, 0.1, 1.0, shift(1.0, 3), 2.5, 1e300, 5e-324] + ([3.0, 1e-9] if th else []))
    # differences of these values are zero or above 1e-15, except 5e-324 against 0
    P = S.all_pairs([-2, -1.0, 0, 0.5, 1, 2.0, 3]) + S.all_pairs(vals)
    if not th:
        P = P[:49] + P[49::2]
    scal = [s for s in S.scalars([-2, 0, 1, 0.1, 2.5, 5e-324, -0.5]) if not isinstance(s, np.float32)]
    ctx.run(relations, P, P, scal)
    # neighbouring numbers far from zero: the gap is small relative to the endpoints only
    far = S.all_pairs([0.0, 3e4, shift(3e4, 1), shift(3e4, 4), -1e7, shift(-1e7, 1), 2.0 ** 60, shift(2.0 ** 60, 1)] +
                      ([1.7, shift(1.7, 16), 1e200, shift(1e200, 2)] if th else []))
    ctx.run(relations, far, far, [3e4, shift(3e4, 1), -1e7, 2 ** 40, 2.0 ** 60])
    base = [(0.0, 1.0), (0.5, 2.0), (-1.0, -0.5), (1.0, 1.0), (-3.0, 4.0)] + ([(1.0, 2.5)] if th else [])
    vecs = list(itertools.product(base, repeat=3))
    pool = vecs if th else vecs[::3]
    ctx.run(arrays, vecs, pool)
    ctx.bounds = {'intervals': len(P), 'intervals far from zero': len(far), 'vectors': len(vecs)}
    ctx.assumptions = ['intersections whose gap is positive but below 2e-15 are outside the claim (closing tolerance)']
    ctx.rec.sample('%r against %r' % (P[3], P[17]))
