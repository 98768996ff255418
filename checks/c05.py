"""C05: elementary functions enclose the range and are tight.  Oracle: mpmath, 80 digits."""
import math
from mpmath import mp, mpf
from mc import boot
from mc.kern import *
from mc import kspace as S

ip = boot.load()
import numpy as np
ID = 'C05'
mp.dps = 80
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic


def mlog(x):
    return mpf('-inf') if x == 0 else mp.log(mpf(x))


def extremum(a, b, shift):
    """Is there an integer k with a <= shift + 2 k pi <= b (exactly, high precision)?"""
    lo = mp.ceil((mpf(a) - shift) / (2 * mp.pi))
    return shift + 2 * mp.pi * lo <= mpf(b)


def exact(fn, a, b):
    """Exact range over [a, b] as mpf pair, or None when the set is outside the domain."""
    if fn == 'exp':
        return mp.exp(mpf(a)), mp.exp(mpf(b))
    if fn == 'log':
        if b < 0:
            return None
        return mlog(max(a, 0.0)), mlog(b)
    if fn == 'sqrt':
        if b < 0:
            return None
        return mp.sqrt(mpf(max(a, 0.0))), mp.sqrt(mpf(b))
    f = mp.sin if fn == 'sin' else mp.cos
    top = mp.pi / 2 if fn == 'sin' else mpf(0)
    u, v = f(mpf(a)), f(mpf(b))
    hi = mpf(1) if extremum(a, b, top) else max(u, v)
    lo = mpf(-1) if extremum(a, b, top - mp.pi) else min(u, v)
    return lo, hi


def slack(fn, a, b, e):
    """Allowed widening of an endpoint e (absolute)."""
    ae = abs(e)
    if fn == 'exp':
        return ae * mpf(2) ** -50 + mpf(1e-322)
    if fn == 'log':
        return ae * mpf(2) ** -50
    if fn == 'sqrt':
        return ae * mpf(1e-12) + mpf(1e-150)
    return ae * mpf(2) ** -50 + mpf(1e-15)


def compare(rec, r, E, sl, desc, key, tightQ=True):
    code = 'print(%s)' % desc
    a, b = r.a, r.b
    if math.isnan(a) or math.isnan(b):
        rec.fail(key, '%s is NaN' % desc, code)
        return False
    if not (a <= E[0] and E[1] <= b):        # mpf comparison with float is exact
        rec.fail(key, '%s = [%r, %r] does not enclose [%s, %s]' % (desc, a, b, mp.nstr(E[0], 22), mp.nstr(E[1], 22)), code)
        return False
    if tightQ:
        for v, e, s in ((a, E[0], sl[0]), (b, E[1], sl[1])):
            if mp.isinf(e) or math.isinf(v):
                if v != e and not (math.isinf(v) and abs(e) > 1.797e308) and not (v == -math.inf and e < -1e300):
                    rec.fail(key + '/tight', '%s = [%r, %r], exact [%s, %s]' % (desc, a, b, mp.nstr(E[0], 22), mp.nstr(E[1], 22)), code)
                    return False
            elif abs(mpf(v) - e) > s and abs(v) < 1.797e308:
                rec.fail(key + '/tight', '%s = [%r, %r] is needlessly wide, exact [%s, %s]' % (desc, a, b, mp.nstr(E[0], 22), mp.nstr(E[1], 22)), code)
                return False
    return True


def unary(rec, items):
    for fn, a, b in items:
        rec.state()
        E = exact(fn, a, b)
        g = getattr(ip, fn)
        d = 'intvalpy.%s(Interval(%r, %r))' % (fn, a, b)
        with rec.case(fn, d, 'print(ip.%s(Interval(%r, %r)))' % (fn, a, b)):
            x = C(a, b)
            rec.edge()
            r = g(x)
            if E is None:
                if not (math.isnan(r.a) or math.isnan(r.b)):
                    rec.fail(fn + '/domain', '%s = %r outside the domain' % (d, r))
                continue
            sl = (slack(fn, a, b, E[0]), slack(fn, a, b, E[1]))
            desc = 'ip.%s(Interval(%r, %r))' % (fn, a, b)
            if not compare(rec, r, E, sl, desc, fn):
                continue
            if fn in ('sin', 'cos'):
                if r.a < -1 or r.b > 1:
                    if r.a < -1.0000000000000003 or r.b > 1.0000000000000003:
                        rec.fail(fn + '/range', '%s = %r' % (d, r))
            # the same value by every route: np function, array element, degenerate number
            rec.edge(3)
            r2 = getattr(np, fn)(x)
            arr = g(ip.ArrayInterval([x, x]))
            r3 = arr[1]
            r4 = getattr(np, fn)(ip.ArrayInterval([[x], [x]]))[1, 0]
            for rr, how in ((r2, 'np.%s' % fn), (r3, 'array'), (r4, 'np array')):
                compare(rec, rr, E, sl, desc + ' via ' + how, fn + '/' + how.replace(' ', ''))
            if a == b:
                compare(rec, g(a), E, sl, 'ip.%s(%r)' % (fn, a), fn + '/number')
                compare(rec, g([a, a])[0], E, sl, 'ip.%s([%r, %r])[0]' % (fn, a, a), fn + '/list')
            # Kaucher class, proper and improper: the dual argument gives the dual range
            if fn != 'sqrt' and a < b and not (fn == 'log' and a <= 0):
                k = g(K(a, b))
                compare(rec, k, E, sl, 'ip.%s(KaucherArithmetic(%r, %r))' % (fn, a, b), fn + '/kaucher')
                k = g(K(b, a))
                rec.edge(2)
                for v, e, s in ((k.a, E[1], sl[1]), (k.b, E[0], sl[0])):
                    if math.isnan(v) or (math.isinf(v) and abs(e) < 1.797e308) or \
                            (not math.isinf(v) and abs(mpf(v) - e) > s and abs(v) < 1.797e308):
                        rec.fail(fn + '/improper', 'ip.%s(Interval(%r, %r, sortQ=False)) = [%r, %r], exact [%s, %s]'
                                 % (fn, b, a, k.a, k.b, mp.nstr(E[1], 20), mp.nstr(E[0], 20)),
                                 'print(ip.%s(Interval(%r, %r, sortQ=False)))' % (fn, b, a))
                        break
            rec.outcome('%s/%s' % (fn, 'full' if E[0] == -1 and E[1] == 1 else 'part'))
            rec.trace()


def npow(rec, items, degs):
    """Natural powers of proper intervals, exact rational oracle."""
    for (a, b) in items:
        rec.state()
        A, B = num(a), num(b)
        for n in degs:
            big = max(abs(A), abs(B), F(1))
            with rec.case('pow', '(%r, %r) ** %r' % (a, b, n)):
                if n % 2 == 0 and A < 0 < B:
                    E = (F(0), max(A ** int(n), B ** int(n)))
                else:
                    E = tuple(sorted((A ** int(n), B ** int(n))))
                if n == 0:
                    E = (F(1), F(1))
                for cls in (C, K):
                    for route in (0, 1):
                        rec.edge()
                        x = cls(a, b)
                        desc = '%s(%r, %r) ** %s' % (cls.__name__, a, b, lit(n))
                        r = x ** n if route == 0 else (ip.ArrayInterval([x, x]) ** n)[0]
                        if not encloses(r, E):
                            rec.fail('pow', '%s = [%r, %r] does not enclose the range' % (desc, r.a, r.b), 'print(%s)' % desc)
                            break
                        if big ** int(n) < F(10) ** 290 and all(e == 0 or abs(e) > F(1, 10 ** 290) for e in E) \
                                and not tight(r, E, 2 * int(n) + 2):
                            rec.fail('pow/tight', '%s = [%r, %r], exact [%r, %r]' % (desc, r.a, r.b, float(E[0]), float(E[1])), 'print(%s)' % desc)
                            break
                        if big ** int(n) < 2 ** 26 and all(e.denominator == 1 for e in (A, B)) and ends(r) != E:
                            rec.fail('pow/exact', '%s = [%r, %r], exact [%s, %s]' % (desc, r.a, r.b, E[0], E[1]), 'print(%s)' % desc)
                            break
            rec.outcome('pow')
        rec.trace()


def rpow(rec, items, degs):
    """Real and negative powers of non-negative intervals."""
    for (a, b) in items:
        rec.state()
        for r_ in degs:
            if a == 0 and r_ < 0:
                continue
            u, v = mpf(a) ** mpf(r_) if a else mpf(0), mpf(b) ** mpf(r_) if b else mpf(0)
            E = (min(u, v), max(u, v))
            desc = 'Interval(%r, %r) ** %r' % (a, b, r_)
            with rec.case('rpow', desc, 'print(%s)' % desc):
                rec.edge()
                x = C(a, b) ** r_
                rel = mpf(1e-13) * (1 + abs(mp.log(max(E[1], mpf(1e-300)))) + abs(mp.log(max(E[0], mpf(1e-300)))))
                compare(rec, x, E, (E[0] * rel + mpf(1e-300), E[1] * rel + mpf(1e-300)), desc, 'rpow')
                rec.outcome('rpow')
        for n in (0.5, -1, 1.5):
            # no real power of a set with negative numbers
            rec.edge()
            try:
                z = C(-1.0, max(b, 1.0)) ** n
            except ValueError:
                rec.outcome('refused')
            else:
                rec.fail('rpow/domain', 'Interval(-1, %r) ** %r = %r is not refused' % (b, n, z))
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    pi = math.pi
    tr = set()
    for k in range(-9, 10):
        c = k * pi / 2
        for j in (-1, 0, 1):
            tr.add(shift(c, j))
        tr.add(c + 0.3)
        if th:
            tr |= {c - 0.9, c + 1e-5, c - 1e-5, c + 0.6}
        tr |= {c - 0.4, c + 1e-8, c - 1e-8, c + 0.9}
    tr |= {1e-300, -1e-300, 0.1, -0.1, 1.0, -1.0, 2.0, 3.0, -2.5}
    for base in (1e3, 12345.678, 1e5, 99999.9, 1e6):
        k = round(base / (pi / 2))
        for j in range(0, 6):
            c = float((mpf(k + j)) * mp.pi / 2)
            tr |= {c, shift(c, 1), shift(c, -1), c + 0.2, -c, -c - 0.5}
    tr = sorted(tr)
    trp = [(a, b) for i, a in enumerate(tr) for b in tr[i:] if b - a < 30 and (th or b - a < 13)]
    ex = sorted({0.0, 1e-300, -1e-300, 1e-17, -1e-17, 0.1, -0.1, 1 / 3, 0.5, 1.0, -1.0, 2.0, 3.3, -7.7, 50.0, -50.0, 100.5,
                 300.0, -300.0, 700.0, -700.0, 709.782712893384, 709.7827128933841, 709.79, 720.0, -708.4, -740.0, -745.13, -745.2, -750.0, 1e4, -1e4}
                | {k * 0.37 for k in range(-20, 21)})
    lg = sorted({0.0, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-16, 1e-5, 0.1, 1 / 3, 0.5, 0.9, shift(1.0, -1), shift(1.0, -5), 1.0, shift(1.0, 1),
                 shift(1.0, 3), 1.1, 2.0, math.e, 3.0, 4.0, 5.0, 9.0, 10.0, 16.0, 1e5, 12345.678, 1e16, 1e155, 1e300, S.MAX}
                | {0.13 * k for k in range(1, 40)} | {float(k * k) for k in range(1, 20)})
    neg = [-1.0, -5e-324, -3.7]
    items = [(f, a, b) for f in ('sin', 'cos') for a, b in trp]
    items += [('exp', a, b) for i, a in enumerate(ex) for b in ex[i:]]
    lgp = [(a, b) for i, a in enumerate(lg) for b in lg[i:]]
    items += [(f, a, b) for f in ('log', 'sqrt') for a, b in (lgp)]
    items += [(f, a, b) for f in ('log', 'sqrt') for a in neg for b in lg[::6] + neg if a <= b]
    ctx.run(unary, items)
    pv = S.signed([0.0, 0.1, 1 / 3, 1.0, 1.0000000000000002, 2.0, 3.0, 7.0, 0.7, 1e-9, 1e16 + 2, 1e-100, 1e100])
    pp = S.proper_pairs(pv) + S.proper_pairs([-5, -2, -1, 0, 1, 2, 3])
    ctx.run(npow, pp, [0, 1, 2, 3, 4, 5, 7, 10, 13, 16, 31, 64, np.int64(2), np.int64(3), np.int32(2), np.uint8(5)] + (list(range(17, 30)) if th else []))
    nn = [v for v in lg if 1e-20 < v < 1e20] + [0.0]
    nn = sorted(nn)
    nnp = [(a, b) for i, a in enumerate(nn) for b in nn[i:]]
    ctx.run(rpow, nnp, [0.5, 1.5, 1 / 3, 2.7, -1, -2, -0.5, 10.25, -3])
    ctx.bounds = {'trig_intervals': len(trp), 'exp_endpoints': len(ex), 'log_sqrt_endpoints': len(lg),
                  'power_bases': len(pp), 'real_power_bases': len(nnp)}
    ctx.assumptions = ['sin, cos: arguments of magnitude up to 1e6', 'mpmath at 80 digits is the reference']
    ctx.rec.sample('sin over %r' % (trp[100],))
    ctx.rec.sample('all %d natural-power bases with exponents 0..64' % len(pp))
