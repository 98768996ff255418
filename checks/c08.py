"""C08: numerical characteristics of intervals and interval arrays."""
import itertools
import math
from mc import boot
from mc.kern import *
from mc import kspace as S
from checks.c01 import q

ip = boot.load()
import numpy as np
ID = 'C08'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic


def near(v, e, k=1):
    """Implementation number v within k ulp of the exact value e."""
    v = float(v)
    if math.isnan(v):
        return False
    return shift(fl_down(e), -k) <= v <= shift(fl_up(e), k)


def model(X):
    a, b = X
    out = {'wid': b - a, 'rad': (b - a) / 2, 'mid': (a + b) / 2, 'inf': a, 'sup': b, 'a': a, 'b': b,
           'mag': max(abs(a), abs(b))}
    if a <= b:
        out['mig'] = F(0) if a <= 0 <= b else min(abs(a), abs(b))
    if a or b:
        out['khi'] = a / b if abs(a) <= abs(b) else b / a
    return out


EXACT = ('inf', 'sup', 'a', 'b', 'mag', 'mig')


def judge(rec, key, got, e, desc, code):
    rec.edge()
    ok = num(got) == e if key.split('.')[-1] in EXACT else near(got, e, 2)
    if not ok:
        rec.fail(key, '%s = %r, expected %r' % (desc, got, float(e)), code)
    rec.outcome(key.split('.')[-1])


def single(rec, items):
    for x in items:
        X = q(x)
        rec.state()
        M = model(X)
        for ix in ([C(*x), K(*x)] if x[0] <= x[1] else [K(*x)]):
            t = ilit(ix)
            for name, e in M.items():
                with rec.case(name, t, 'print(%s.%s)' % (t, name)):
                    judge(rec, name, getattr(ix, name), e, '%s.%s' % (t, name), 'print(%s.%s)' % (t, name))
                    if name in ('wid', 'rad', 'mid', 'inf', 'sup', 'mag', 'khi'):
                        judge(rec, 'f.' + name, getattr(ip, name)(ix), e, 'ip.%s(%s)' % (name, t), 'print(ip.%s(%s))' % (name, t))
            with rec.case('vals', t):
                # mid and rad reproduce the interval
                m, r = F(ix.mid), F(ix.rad)
                tol = max(abs(X[0]), abs(X[1])) * F(1, 2 ** 51) + F(TINY) * 4
                if not (abs(m - r - X[0]) <= tol and abs(m + r - X[1]) <= tol):
                    rec.fail('midrad', 'mid -+ rad of %s is [%r, %r]' % (t, float(m - r), float(m + r)))
                for nm, got, E in (('dual', ix.dual, (X[1], X[0])), ('opp', ix.opp, (-X[0], -X[1])),
                                   ('pro', ix.pro, (min(X), max(X))), ('neg', -ix, (-X[1], -X[0])),
                                   ('copy', ix.copy(), X), ('to_float', ix.to_float(), X)):
                    rec.edge()
                    if ends(got) != E:
                        rec.fail(nm, '%s of %s = [%r, %r]' % (nm, t, got.a, got.b), 'print(%s)' % t)
                if x[0] <= x[1]:
                    rec.edge(2)
                    r = abs(ix)
                    if ends(r) != (M['mig'], M['mag']):
                        rec.fail('abs', 'abs(%s) = [%r, %r]' % (t, r.a, r.b), 'print(abs(%s))' % t)
                    g = ip.sign(ix)
                    sg = lambda v: (v > 0) - (v < 0)
                    if ends(g) != (sg(X[0]), sg(X[1])):
                        rec.fail('sign', 'sign(%s) = [%r, %r]' % (t, g.a, g.b), 'print(ip.sign(%s))' % t)
                if ip.isnan(ix):
                    rec.fail('isnan', 'isnan(%s)' % t)
        rec.trace()


def pair(rec, items, Y):
    """dist on single intervals."""
    for x in items:
        X = q(x)
        rec.state()
        for y in Y:
            YY = q(y)
            e = max(abs(X[0] - YY[0]), abs(X[1] - YY[1]))
            ix, iy = ip.Interval(*x, sortQ=False), ip.Interval(*y, sortQ=False)
            with rec.case('dist', '%r %r' % (x, y), 'print(ip.dist(Interval(%r, %r, sortQ=False), Interval(%r, %r, sortQ=False)))' % (x + y)):
                judge(rec, 'dist', ip.dist(ix, iy), e, 'dist(%r, %r)' % (x, y), '')
                for p in (1, 2, 3):
                    rec.edge()
                    if e and not 1e-90 < e < 1e90:
                        continue
                    d = float(ip.dist(ix, iy, order=p))
                    if not abs(d - float(e)) <= 1e-12 * float(e):
                        rec.fail('dist/%d' % p, 'dist(%r, %r, order=%d) = %r, expected %r' % (x, y, p, d, float(e)))
            rec.trace()


def numbers(rec, items):
    """The functions on numbers and lists: a number is the degenerate interval."""
    for s in items:
        rec.state()
        e = num(s)
        want = {'wid': F(0), 'rad': F(0), 'mid': e, 'inf': e, 'sup': e, 'mag': abs(e), 'khi': F(1)}
        for n, w in want.items():
            if n == 'khi' and e == 0:
                continue
            with rec.case('number.' + n, lit(s), 'print(ip.%s(%s))' % (n, lit(s))):
                f = getattr(ip, n)
                judge(rec, 'number.' + n, f(s), w, 'ip.%s(%s)' % (n, lit(s)), 'print(ip.%s(%s))' % (n, lit(s)))
                for cont in ([s, s, s], np.array([s, s]), np.array([[s], [s]])):
                    rec.edge()
                    r = f(cont)
                    if np.shape(r) != np.shape(cont):
                        rec.fail('number.' + n, 'ip.%s(%r) has shape %r' % (n, cont, np.shape(r)))
                    for v in np.asarray(r).flat:
                        judge(rec, 'list.' + n, v, w, 'ip.%s(%r)' % (n, cont), 'print(ip.%s(%r))' % (n, cont))
        rec.trace()


POOL = [(0.0, 1.0), (-1.5, 2.0), (-3.0, -0.25), (0.1, 0.1), (2.0, -1.0), (5.0, 7.0)]
# integers and floats side by side
MIXED = [(1, 3), (0.5, 2.75), (-2, 4), (0.25, 0.25), (3, 4.5), (-7.5, -1)]
SHAPES = [(1,), (2,), (3,), (4,), (1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (2, 1, 2), (2, 2, 2)]


def arrays(rec, items):
    """Arrays: every characteristic is taken element by element."""
    for shape, k0, stride, pool in items:
        rec.state()
        n = int(np.prod(shape))
        els = [pool[(k0 + stride * i + (i * i) % 3) % len(pool)] for i in range(n)]
        obj = np.empty(n, dtype=object)
        for i, e in enumerate(els):
            obj[i] = ip.Interval(*e, sortQ=False)
        obj = obj.reshape(shape)
        A = ip.ArrayInterval(obj)
        t = 'shape %r of %r' % (shape, els)
        with rec.case('array', t):
            for name in ('inf', 'sup', 'a', 'b', 'wid', 'rad', 'mid', 'mag', 'mig', 'khi', 'dual', 'opp', 'pro', 'neg', 'abs', 'to_float', 'sign'):
                rec.edge()
                if name in ('mig', 'abs', 'sign') and any(e[0] > e[1] for e in els):
                    continue
                g = {'neg': lambda v: -v, 'abs': abs, 'to_float': lambda v: v.to_float(), 'sign': ip.sign}.get(name, lambda v: getattr(v, name))
                r = g(A)
                if r.shape != tuple(shape):
                    rec.fail('array.' + name, '%s: shape %r' % (t, r.shape))
                    continue
                for idx in np.ndindex(*shape):
                    v, w = r[idx], g(obj[idx])
                    same = (ends(v) == ends(w)) if hasattr(w, 'pro') else v == w
                    if not same:
                        rec.fail('array.' + name, '%s of %s at %r is %r, the element gives %r' % (name, t, idx, v, w))
                        break
                rec.outcome('array.' + name)
            for name in ('inf', 'sup', 'wid', 'rad', 'mid', 'mag', 'khi'):
                rec.edge()
                f = getattr(ip, name)
                r = f(A)
                if np.shape(r) != tuple(shape):
                    rec.fail('array.f.' + name, '%s: shape %r' % (t, np.shape(r)))
                    continue
                for idx in np.ndindex(*shape):
                    if r[idx] != getattr(obj[idx], name):
                        rec.fail('array.f.' + name, 'ip.%s of %s at %r is %r' % (name, t, idx, r[idx]))
                        break
            if list(A.shape) != list(shape) or A.ndim != len(shape) or len(A) != shape[0]:
                rec.fail('array.shape', '%s: shape %r ndim %r' % (t, A.shape, A.ndim))
            # vertices
            if len(shape) <= 2 and n <= 6:
                rec.edge()
                V = A.vertex
                want = sorted({tuple(float(e[c]) for e, c in zip(els, pick)) for pick in itertools.product((0, 1), repeat=n)})
                have = sorted({tuple(map(float, v.reshape(-1))) for v in V})
                if have != want or len(V) != 2 ** n or V.shape[1:] != tuple(shape):
                    rec.fail('vertex', 'vertex of %s: %r' % (t, have[:4]))
            # distance: maximum over the elements
            B = ip.ArrayInterval(np.roll(obj, 1))
            rec.edge()
            d = [max(abs(num(x.a) - num(y.a)), abs(num(x.b) - num(y.b))) for x, y in zip(obj.flat, np.roll(obj, 1).flat)]
            if not near(ip.dist(A, B), max(d), 2):
                rec.fail('array.dist', 'dist of %s: %r' % (t, ip.dist(A, B)))
            for p in (1, 2, 3):
                rec.edge()
                e = float(sum(v ** p for v in d)) ** (1 / p)
                if not abs(float(ip.dist(A, B, order=p)) - e) <= 1e-12 * e:
                    rec.fail('array.dist', 'dist of %s, order %d: %r, expected %r' % (t, p, ip.dist(A, B, order=p), e))
            nanmask = ip.isnan(A)
            if np.any(nanmask) or np.shape(nanmask) != tuple(shape):
                rec.fail('array.isnan', t)
            for e in ((math.nan, math.nan), (math.nan, 1.0), (1.0, math.nan)):
                # an interval with an undefined end is undefined
                bad = obj.copy()
                bad.flat[n // 2] = ip.Interval(*e)
                m = ip.isnan(ip.ArrayInterval(bad))
                if [bool(v) for v in np.asarray(m).flat] != [i == n // 2 for i in range(n)] or not ip.isnan(bad.flat[n // 2]):
                    rec.fail('array.isnan', '%s with %s at %d: %r' % (t, e, n // 2, m))
            if len(shape) == 2 and not any(e[0] > e[1] for e in els):
                rec.edge()
                c = ip.compmat(A)
                for i, j in np.ndindex(*shape):
                    w = obj[i, j].mig if i == j else -obj[i, j].mag
                    if c[i, j] != w:
                        rec.fail('compmat', 'compmat of %s at %r: %r, expected %r' % (t, (i, j), c[i, j], w))
            if len(shape) == 2:
                for k in range(-2, 3):
                    rec.edge()
                    w = np.diag(obj, k=k)
                    if not len(w):
                        continue
                    d_ = ip.diag(A, k=k)
                    if [ends(v) for v in d_] != [ends(v) for v in w]:
                        rec.fail('diag', 'diag(%s, %d) = %r' % (t, k, d_))
            if len(shape) == 1:
                for k in range(-2, 3):
                    rec.edge()
                    D = ip.diag(A, k=k)
                    N = n + abs(k)
                    for i, j in np.ndindex(N, N):
                        w = ends(obj[i if k >= 0 else j]) if j - i == k else (0, 0)
                        if D.shape != (N, N) or ends(D[i, j]) != w:
                            rec.fail('diag', 'diag(%s, %d) at %r is %r' % (t, k, (i, j), D[i, j]))
                            break
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    vals = S.signed([0.0, 0.1, 1 / 3, 1.0, 1.0000000000000002, 3.0, 1e16 + 2, 1e-200, 5e307, 123456.789, 7.0] + ([1e-9, 2.5, 1e100] if th else []))
    P = S.all_pairs(vals) + S.all_pairs([-7, -2, 0, 1, 3, 10])
    ctx.run(single, P)
    ctx.run(pair, P if th else P[::2], P[::3] if th else P[1::7])
    ctx.run(numbers, S.scalars(vals) + [-3, 0, 5, np.int64(-4)])
    ctx.run(arrays, [(s, k, st, pool) for s in SHAPES for k in range(6) for st in (1, 2, 5) for pool in (POOL, MIXED)])
    ctx.bounds = {'intervals': len(P), 'shapes': [repr(s) for s in SHAPES]}
    ctx.assumptions = ['finite endpoints; sums of endpoints do not overflow']
    ctx.rec.sample('all characteristics of %r' % (P[5],))
