"""C14: the Hansen-Bliek-Rohn procedure."""
import math
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C14'
SL = F(1, 10 ** 9)


def identity_mid(A):
    n = len(A)
    return all(A[i][j][0] + A[i][j][1] == (2 if i == j else 0) for i in range(n) for j in range(n))


def systems(rec, items):
    for A, b in items:
        rec.state()
        n = len(A)
        t = text(A, b)
        c = code(A, b, 'ip.HBR(A, b)')
        reg = regular(A)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        rec.edge()
        with rec.case('HBR', 'HBR of ' + t, c):
            try:
                r = ip.HBR(ia, ibb)
            except (AssertionError, ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
                rec.outcome('refused')
                if reg and dominant(A) and all((l + u) for l, u in (A[i][i] for i in range(n))) and \
                        (identity_mid(A) or all(l == u for row in A for l, u in row)):
                    rec.fail('HBR/refused', 'HBR refuses (%r) %s' % (e, t), c)
                continue
            B = box_of(ip, r, n)
            if B is None:
                rec.fail('HBR/shape', 'HBR gives %r for %s' % (r, t), c)
                continue
            if not reg:
                rec.fail('HBR/singular', 'HBR answers %s although the matrix contains a singular one: %s' % (show(B), t), c)
                continue
            Hl = united_hull(A, b)
            if not encl(B, Hl, SL):
                rec.fail('HBR', 'HBR gives %s, the solution set reaches %s: %s' % (show(B), show(Hl), t), c)
            if identity_mid(A) and not same(B, Hl, SL):
                rec.fail('HBR/optimal', 'the midpoint is the identity, HBR gives %s, the hull is %s: %s' % (show(B), show(Hl), t), c)
            if all(l == u for row in A for l, u in row) and all(l == u for l, u in b) and not same(B, Hl, SL):
                rec.fail('HBR/point', 'HBR gives %s for the point system with the solution %s: %s' % (show(B), show(Hl), t), c)
            if (repr(ia), repr(ibb)) != before:
                rec.fail('HBR/operands', 'HBR changes its arguments: %s' % t)
            rec.outcome('%d unknowns%s' % (n, ' identity' if identity_mid(A) else ''))
        rec.trace()
    rec.sample(t)


def columns(rec, items):
    """Several right-hand sides as the columns of a matrix."""
    for A, bs in items:
        rec.state()
        n, k = len(A), len(bs)
        ia = to_ip(ip, A)
        R = ip.Interval(*[np.array([[float(bs[j][i][e]) for j in range(k)] for i in range(n)]) for e in (0, 1)])
        t = 'right-hand sides %s' % '; '.join(text(A, b) for b in bs)
        rec.edge()
        with rec.case('HBR/columns', 'HBR with the columns ' + t):
            alone = []
            for b in bs:
                try:
                    alone.append(box_of(ip, ip.HBR(ia, to_ip(ip, b)), n))
                except (AssertionError, ValueError, ZeroDivisionError, np.linalg.LinAlgError):
                    alone.append(None)
            before = repr(ia), repr(R)
            try:
                r = ip.HBR(ia, R)
            except (AssertionError, ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
                rec.outcome('columns refused')
                if None not in alone:
                    rec.fail('HBR/columns/refused', 'HBR answers each column alone but not together (%r): %s' % (e, t))
                continue
            if tuple(getattr(r, 'shape', ())) != (n, k):
                rec.fail('HBR/columns/shape', 'HBR gives an answer of shape %s for %d columns: %s' % (getattr(r, 'shape', ()), k, t))
                continue
            if not regular(A):
                rec.fail('HBR/columns/singular', 'HBR answers although the matrix contains a singular one: %s' % t)
                continue
            for j, b in enumerate(bs):
                B = box_of(ip, r[:, j], n)
                Hl = united_hull(A, b)
                if B is None or not encl(B, Hl, SL):
                    rec.fail('HBR/columns', 'column %d is %s, the solution set reaches %s: %s' % (j, show(B) if B else r, show(Hl), t))
                elif identity_mid(A) and not same(B, Hl, SL):
                    rec.fail('HBR/columns/optimal', 'column %d is %s, the hull is %s: %s' % (j, show(B), show(Hl), t))
                elif alone[j] is not None and not same(B, alone[j], SL):
                    rec.fail('HBR/columns/alone', 'column %d is %s, alone it is %s: %s' % (j, show(B), show(alone[j]), t))
            if (repr(ia), repr(R)) != before:
                rec.fail('HBR/operands', 'HBR changes its arguments: %s' % t)
            rec.outcome('%d columns' % k)
        rec.trace()
    rec.sample(t)


RADII = [F(0), F(1, 4), F(1, 8), F(3, 8)]


def ident(n, k):
    """Systems with midpoint identity."""
    i = 0
    for rr in itertools.product(RADII, repeat=n * n):
        i += 1
        if i % k:
            continue
        A = [[((1 if p == q else 0) - rr[p * n + q], (1 if p == q else 0) + rr[p * n + q]) for q in range(n)] for p in range(n)]
        for b in itertools.product(RHS, repeat=n) if n < 3 else itertools.product(RHS[:3], repeat=n):
            if n == 3 and (sum(map(sum, b)) + i) % 3:
                continue
            yield A, list(b)


def explore(ctx):
    th = ctx.thorough
    S = list(sys1()) + (list(sys2()) if th else list(sys2(4, 5, 5))[1::4] + list(sys2())[::29])
    P = [point(A, b) for A, b in list(sys2(5, 6, 4))[::11 if not th else 1]] + [point(A, b) for A, b in sys3(97 if not th else 13)]
    T = list(sys3(307 if not th else 17))
    I2 = list(ident(2, 1))[::1 if th else 3]
    I3 = list(ident(3, 5041 if not th else 503))
    Q = list(chain4())[::8 if not th else 1]
    for s in (S, P, T, I2, I3):
        ctx.run(systems, s)
    ctx.run(systems, Q, chunk=1)
    D2, D3 = [s for s in sys2(4, 5, 5) if regular(s[0])][::97], [s for s in sys3(211) if regular(s[0])][::3]
    W = list(blocks(D2, D3, 3 if not th else 1)) + list(blocks(I2[::31], I3[::7], 2 if not th else 1)) + [point(A, b) for A, b in blocks(D2[::-1], D3, 7 if not th else 1)]
    ctx.run(systems, W)
    C = []
    pool = I2[::37] + D2[::5] + I3[::23] + D3[::9] + [s for s in sys1() if regular(s[0])][::4] + Q[::40]
    for i, (A, b) in enumerate(pool):
        n = len(A)
        bs = [b, [RHS[(i + q) % 6] for q in range(n)], b[::-1], [(F(0), F(0))] * n]
        for k in (1, 2, 3, 4):
            C.append((A, bs[i % 2:][:k] + bs[:i % 2][:max(0, k - 3)]))
    ctx.run(columns, C)
    Z = list(scaled((S + P + T + I2)[::29 if not th else 5]))
    ctx.run(systems, Z)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'systems_1_2': len(S), 'point_systems': len(P), 'systems_3': len(T), 'midpoint_identity_2': len(I2), 'midpoint_identity_3': len(I3), 'systems_4': len(Q), 'systems_4_to_6': len(W), 'systems_with_columns': len(C)}
    ctx.assumptions = ['slack 1e-9 relative: the procedure works with midpoints rounded to nearest']
