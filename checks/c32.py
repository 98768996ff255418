"""C32: the parametric test systems have the documented entries and regularity."""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C32'


def entries(rec, key, A, b, WA, Wb, t, c):
    n = len(Wb)
    try:
        BA = [[(val(x.a), val(x.b)) for x in A[i].data] for i in range(n)]
        Bb = [(val(x.a), val(x.b)) for x in b.data]
        ok = tuple(A.shape) == (n, n) and tuple(b.shape) == (n,)
    except Exception as e:
        rec.fail(key + '/shape', 'returns %r, %r: %s' % (A, b, t), c)
        return None
    near = lambda p, q: all(abs(x - y) <= F(1, 10 ** 14) * (1 + abs(y)) for x, y in zip(p, q))
    if not ok or any(not near(p, q) for P, Q in zip(BA, WA) for p, q in zip(P, Q)) or any(not near(p, q) for p, q in zip(Bb, Wb)):
        rec.fail(key, 'gives A = %r, b = %r: %s' % (A, b, t), c)
    # entries are independent objects
    return BA


def neumaier(rec, items):
    for n, th, inf, sup in items:
        rec.state()
        rec.edge()
        kw = {}
        if inf is not None:
            kw['infb'] = float(inf)
        if sup is not None:
            kw['supb'] = float(sup)
        t = 'Neumaier_system(%d, %s, %s)' % (n, th, kw)
        with rec.case('Neumaier', t, 'print(ip.%s)' % t, cpu=20):
            A, b = ip.Neumaier_system(n, float(th), **kw)
            W = [[(th, th) if i == j else (F(0), F(2)) for j in range(n)] for i in range(n)]
            B = entries(rec, 'Neumaier', A, b, W, [(F(-1) if inf is None else inf, F(1) if sup is None else sup)] * n, t, 'print(ip.%s)' % t)
            if B is not None and n <= 3:
                # documented: regular for theta > n (n even), theta > sqrt(n**2 - 1) (n odd)
                want = th > n if n % 2 == 0 else th * th > n * n - 1
                if want and not regular(B):
                    rec.fail('Neumaier/regular', 'the matrix contains singular matrices: %s' % t)
                rec.outcome('regular' if want else 'not claimed regular')
            independent(rec, 'Neumaier', lambda: ip.Neumaier_system(n, float(th), **kw), t)
        rec.trace()


def independent(rec, key, make, t):
    """Changing one entry changes no other entry and no later system."""
    A, b = make()
    want = repr(make())
    full = [[repr(x) for x in A[i].data] for i in range(A.shape[0])]
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            rec.state()
            rec.edge()
            M = A.copy()
            M, _ = make()
            M[i, j] = ip.Interval(100, 101)
            now = [[repr(x) for x in M[k].data] for k in range(M.shape[0])]
            if any((now[k][l] != full[k][l]) != ((k, l) == (i, j)) for k in range(A.shape[0]) for l in range(A.shape[1])):
                rec.fail(key + '/shared', 'assigning A[%d, %d] changes other entries: %s' % (i, j, t))
                return
    if repr(make()) != want:
        rec.fail(key + '/later', 'a system changes what the next call returns: %s' % t)


def shary(rec, items):
    for n, N, al, be in items:
        rec.state()
        rec.edge()
        kw = {}
        if N is not None:
            kw['N'] = float(N)
        if al is not None:
            kw.update(alpha=float(al), beta=float(be))
        t = 'Shary_system(%d, %s)' % (n, kw)
        legal = (N is None or N >= n - 1) and (al is None or 0 < al <= be <= 1)
        with rec.case('Shary', t, 'print(ip.%s)' % t, cpu=20):
            try:
                A, b = ip.Shary_system(n, **kw)
            except (AssertionError, Exception) as e:
                if legal or type(e) not in (AssertionError, Exception, ValueError):
                    raise
                rec.outcome('refused')
                continue
            if not legal and al != 0:
                rec.fail('Shary/parameters', 'accepts parameters outside the documented limits: %s' % t)
                continue
            a_, b_ = (fl(0.23), fl(0.35)) if al is None else (al, be)
            N_ = F(n) if N is None else N
            W = [[(F(n - 1), N_) if i == j else (a_ - 1, 1 - b_) for j in range(n)] for i in range(n)]
            entries(rec, 'Shary', A, b, W, [(F(1 - n), F(n - 1))] * n, t, 'print(ip.%s)' % t)
            independent(rec, 'Shary', lambda: ip.Shary_system(n, **kw), t)
            rec.outcome('Shary')
        rec.trace()


def toft(rec, items):
    for n, r, R in items:
        rec.state()
        rec.edge()
        t = 'Toft_system(%d, r=%s, R=%s)' % (n, float(r), float(R))
        with rec.case('Toft', t, 'print(ip.%s)' % t, cpu=20):
            try:
                A, b = ip.Toft_system(n, r=float(r), R=float(R))
            except AssertionError:
                if r >= 0 and R >= 0:
                    raise
                rec.outcome('refused')
                continue
            if r < 0 or R < 0:
                rec.fail('Toft/parameters', 'accepts negative radii: %s' % t)
                continue
            W = [[(F(0), F(0))] * n for _ in range(n)]
            for k in range(n):
                W[k][k] = (1 - r, 1 + r)
            for k in range(n):
                W[k][n - 1] = W[n - 1][k] = (k + 1 - r, k + 1 + r)
            entries(rec, 'Toft', A, b, W, [(1 - R, 1 + R)] * n, t, 'print(ip.%s)' % t)
            independent(rec, 'Toft', lambda: ip.Toft_system(n, r=float(r), R=float(R)), t)
            rec.outcome('Toft')
        rec.trace()
    rec.sample(t)


def explore(ctx):
    D = range(2, 9 if ctx.thorough else 6)
    V = [F(0), H, F(2), F(3), fl(3.1), F(7, 2), F(5), fl(9.3)]
    Nm = [(n, v, i, s) for n in D for v in V for i, s in ((None, None), (F(-3), None), (None, F(2)), (F(0), F(4)), (F(1), H))if (i or -1) <= (s if s is not None else 1) or True]
    Nm = [z for z in Nm if (F(-1) if z[2] is None else z[2]) <= (F(1) if z[3] is None else z[3])]
    ctx.run(neumaier, Nm)
    P = [None, F(0), F(1, 4), fl(0.3), H, F(1), F(5, 4), F(-1, 2)]
    Sh = [(n, N, a, b) for n in D for N in (None, F(n - 1), F(n) - H, F(n) + H, F(2 * n), F(n) - F(3, 2)) for a in P for b in P if (a is None) == (b is None)]
    ctx.run(shary, Sh)
    T = [(n, r, R) for n in D for r in (F(0), H, fl(0.1), F(2), F(-1)) for R in (F(0), F(1), fl(0.3), F(-1, 2))]
    ctx.run(toft, T)
    ctx.bounds = {'Neumaier': len(Nm), 'Shary': len(Sh), 'Toft': len(T), 'dimensions': [min(D), max(D)]}
    ctx.assumptions = ['entries compared to 1e-14; alpha = 0 may be accepted or refused']
