"""C18: PPS: optimal componentwise estimates for square systems."""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C18'
TOL = F(1, 10 ** 6)


def systems(rec, items, budgets):
    for A, b in items:
        n = len(A)
        t0 = text(A, b)
        reg = regular(A)
        Hl = united_hull(A, b) if reg else None
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        for mi in budgets:
            for nu in [None] + (list(range(n)) if mi is None else []):
                rec.state()
                rec.edge()
                t = 'PPS(maxiter = %r, nu = %r) of %s' % (mi, nu, t0)
                c = code(A, b, 'ip.PPS(A, b%s%s)' % ('' if mi is None else ', maxiter=%d' % mi, '' if nu is None else ', nu=%d' % nu))
                kw = {} if mi is None else {'maxiter': mi}
                if nu is not None:
                    kw['nu'] = nu
                with rec.case('PPS', t, c, 40):
                    try:
                        r = ip.PPS(ia, ibb, **kw)
                    except (AssertionError, ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
                        rec.outcome('refused')
                        if reg and dominant(A) and col_dominant(A) or reg and all(l == u for row in A for l, u in row):
                            rec.fail('PPS/refused', '%s refuses a dominant or point matrix: %r' % (t, e), c)
                        continue
                    want = Hl if nu is None or Hl is None else [Hl[nu]]
                    B = box_of(ip, r, n if nu is None else 1)
                    if B is None:
                        rec.fail('PPS/shape', '%s gives %r' % (t, r), c)
                    elif not reg:
                        rec.fail('PPS/singular', '%s answers %s although the matrix contains a singular one' % (t, show(B)), c)
                    elif not encl(B, want, TOL):
                        rec.fail('PPS', '%s gives %s, solutions reach %s' % (t, show(B), show(want)), c)
                    elif mi is None and not same(B, want, TOL):
                        rec.fail('PPS/optimal', '%s gives %s, the hull is %s' % (t, show(B), show(want)), c)
                    rec.outcome('%d budget %r' % (n, mi))
                if (repr(ia), repr(ibb)) != before:
                    rec.fail('PPS/operands', '%s changes its arguments' % t, c)
                    ia, ibb = to_ip(ip, A), to_ip(ip, b)
        rec.trace()
    rec.sample(t0)


def explore(ctx):
    th = ctx.thorough
    S = list(sys1()) + list(sys2(4, 5, 5))[::121 if not th else 7] + list(sys2())[::301 if not th else 23]
    P = [point(A, b) for A, b in S[::7]]
    T = list(sys3(9007 if not th else 601))
    Q = list(chain4())[::25 if not th else 3]
    budgets = (0, 1, 2, 5, None) if not th else (0, 1, 2, 3, 4, 7, 12, None)
    Z = list(scaled((S + T)[::11]))
    D2, D3 = [s for s in sys2(4, 5, 5) if dominant(s[0])][::97], [s for s in sys3(211) if dominant(s[0])][::3]
    W = list(blocks(D2, D3, 9 if not th else 1))
    ctx.run(systems, W, (0, 2, None), chunk=1)
    for s in (S, P, T, Q, Z):
        ctx.run(systems, s, budgets, chunk=2)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'square_1_2': len(S), 'point': len(P), 'square_3': len(T), 'square_4': len(Q), 'square_4_to_6': len(W), 'maxiter': [repr(x) for x in budgets]}
    ctx.assumptions = ['1e-6 relative: the bounds of single boxes come from the Hansen-Bliek-Rohn procedure in floating point']
