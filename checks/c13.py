"""C13: interval Gauss elimination."""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C13'


def systems(rec, items):
    for A, b in items:
        rec.state()
        n = len(A)
        t = text(A, b)
        reg = regular(A)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        rec.edge()
        with rec.case('Gauss', 'Gauss of ' + t, code(A, b, 'ip.Gauss(A, b)')):
            try:
                r = ip.Gauss(ia, ibb)
            except (AssertionError, ValueError, ZeroDivisionError) as e:
                rec.outcome('refused')
                if reg and (dominant(A) and col_dominant(A) or all(l == u for row in A for l, u in row)):
                    rec.fail('Gauss/refused', 'Gauss refuses (%r) a diagonally dominant or point regular matrix: %s' % (e, t), code(A, b, 'ip.Gauss(A, b)'))
                continue
            B = box_of(ip, r, n)
            if B is None:
                rec.fail('Gauss/shape', 'Gauss gives %r for %s' % (r, t), code(A, b, 'ip.Gauss(A, b)'))
                continue
            if not reg:
                rec.fail('Gauss/singular', 'Gauss answers %s although the matrix contains a singular one: %s' % (show(B), t), code(A, b, 'ip.Gauss(A, b)'))
                continue
            Hl = united_hull(A, b)
            if not encl(B, Hl):
                rec.fail('Gauss', 'Gauss gives %s, the solution set reaches %s: %s' % (show(B), show(Hl), t), code(A, b, 'ip.Gauss(A, b)'))
            if all(l == u for row in A for l, u in row) and not same(B, Hl, F(1, 10 ** 9)) and all(l == u for l, u in b):
                rec.fail('Gauss/point', 'Gauss gives %s for the point system with the solution %s: %s' % (show(B), show(Hl), t), code(A, b, 'ip.Gauss(A, b)'))
            if n == 1 and not same(B, Hl, F(1, 10 ** 12)):
                rec.fail('Gauss/one', 'Gauss gives %s, the solution set is %s: %s' % (show(B), show(Hl), t), code(A, b, 'ip.Gauss(A, b)'))
            if (repr(ia), repr(ibb)) != before:
                rec.fail('Gauss/operands', 'Gauss changes its arguments: %s' % t)
            rec.outcome('%d unknowns' % n)
        rec.trace()
    rec.sample(t)


def explore(ctx):
    th = ctx.thorough
    S = list(sys1()) + list(sys2()) if th else list(sys1()) + list(sys2(4, 5, 5))[::3] + list(sys2())[::23]
    P = [point(A, b) for A, b in list(sys2(5, 6, 4))[::7 if not th else 1]] + [point(A, b) for A, b in sys3(97 if not th else 13)]
    T = list(sys3(211 if not th else 17))
    Q = list(chain4())[::6 if not th else 1]
    ctx.run(systems, S)
    ctx.run(systems, P)
    ctx.run(systems, T)
    ctx.run(systems, Q, chunk=1)
    D2, D3 = [s for s in sys2(4, 5, 5) if regular(s[0])][::97], [s for s in sys3(211) if regular(s[0])][::3]
    W = list(blocks(D2, D3, 3 if not th else 1)) + [point(A, b) for A, b in blocks(D2[::-1], D3, 7 if not th else 1)]
    ctx.run(systems, W)
    Z = list(scaled((S + P + T)[::29 if not th else 5]))
    ctx.run(systems, Z)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'systems_1_2': len(S), 'point_systems': len(P), 'systems_3': len(T), 'systems_4': len(Q), 'systems_4_to_6': len(W)}
