"""C17: PSS gives guaranteed estimates at every iteration budget and the optimum in the end."""
from mc import boot
from mc.lsys import *
from checks.c15 import clipped
from checks.c16 import unbounded

ip = boot.load()
import numpy as np
ID = 'C17'
TOL = F(1, 10 ** 6)


def call(ia, ibb, X, mi, nu, m):
    kw = {}
    if X is not None:
        kw['x0'] = to_ip(ip, X)
    if mi is not None:
        kw['maxiter'] = mi
    if nu is not None:
        kw['nu'] = nu
    return ip.PSS(ia, ibb, **kw)


def systems(rec, items, budgets, each=True):
    for A, b, X in items:
        n, m = len(A), len(A[0])
        t0 = text(A, b)
        if X is None:
            if unbounded(A, b):
                continue
            Hl = united_hull(A, b)
        else:
            Hl = clipped(A, b, X)
        if Hl is None:
            continue
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        for mi in budgets:
            for nu in [None] + (list(range(m)) if mi is None and each else []):
                rec.state()
                rec.edge()
                t = 'PSS(x0 = %s, maxiter = %r, nu = %r) of %s' % (X and show(X), mi, nu, t0)
                c = code(A, b, 'ip.PSS(A, b%s%s%s)' % ('' if X is None else ', x0=ip.Interval(%r, %r)' % ([float(l) for l, u in X], [float(u) for l, u in X]),
                                                      '' if mi is None else ', maxiter=%d' % mi, '' if nu is None else ', nu=%d' % nu))
                with rec.case('PSS', t, c, 40):
                    r = call(ia, ibb, X, mi, nu, m)
                    want = Hl if nu is None else [Hl[nu]]
                    B = box_of(ip, r, len(want))
                    if B is None:
                        rec.fail('PSS/shape', '%s gives %r' % (t, r), c)
                        continue
                    if not encl(B, want, TOL):
                        rec.fail('PSS', '%s gives %s, solutions reach %s' % (t, show(B), show(want)), c)
                    elif mi is None and X is not None:
                        # the start box bounds the other components
                        for k, (l, u) in zip(range(m) if nu is None else [nu], B):
                            Y = [(F(-10 ** 9), F(10 ** 9)) if j == k else X[j] for j in range(m)]
                            (wl, wu) = clipped(A, b, Y)[k]
                            if max(abs(wl), abs(wu)) == 10 ** 9:
                                continue        # unbounded
                            if l < wl - TOL * (1 + abs(wl)) or u > wu + TOL * (1 + abs(wu)):
                                rec.fail('PSS/optimal', '%s gives %s for component %d, the best is [%g, %g]' % (t, show(B), k, float(wl), float(wu)), c)
                    elif mi is None and not same(B, want, TOL):
                        rec.fail('PSS/optimal', '%s gives %s, the hull is %s' % (t, show(B), show(want)), c)
                    rec.outcome('%dx%d budget %r' % (n, m, mi))
                if (repr(ia), repr(ibb)) != before:
                    rec.fail('PSS/operands', '%s changes its arguments' % t, c)
                    ia, ibb = to_ip(ip, A), to_ip(ip, b)
        rec.trace()
    rec.sample(t0)


X0 = [[(F(-3), F(10)), (F(-4), F(10))], [(F(0), F(5)), (F(-2), F(2))], [(F(-8), F(-1, 4)), (F(-1), F(6))]]


def explore(ctx):
    th = ctx.thorough
    S = [s for s in list(sys1()) + list(sys2(4, 5, 5))[::601 if not th else 23] + list(sys2())[::1501 if not th else 61]]
    N = [(A, b, None) for A, b in S if regular(A)]
    P = [(*point(A, b), None) for A, b in S[::9] if regular(point(A, b)[0])]
    B = [(A, b, x) for i, (A, b) in enumerate(list(sys2())[::907 if not th else 41]) for x in X0[i % 3:i % 3 + 1]]
    O = [(A, b, None) for A, b in list(over(3, 2, 2503 if not th else 131)) + list(data(2, 31 if not th else 3)) + list(over(2, 1, 5 if not th else 1))]
    OB = [(A, b, X0[i % 3]) for i, (A, b) in enumerate(list(over(3, 2, 3001 if not th else 157)))]
    T = [(A, b, None) for A, b in list(sys3(30011 if not th else 1201)) if regular(A)]
    budgets = (0, 1, 2, 5, None) if not th else (0, 1, 2, 3, 4, 7, 12, 25, None)
    Z = [(A, b, None) for A, b in scaled([(A, b) for A, b, x in (N + O)[::7]])]
    M = [(A, b, None) for A, b in mirror([(A, b) for A, b, x in (N + O + T)[::3 if not th else 1]])]
    # columns with an end at zero: every form of extended division
    for o1, o2 in (((F(-1), F(0)), (F(0), F(2))), ((F(0), F(1)), (F(-2), F(0))), ((F(-2), F(0)), (F(-1), F(0))), ((F(-1), F(2)), (F(-1), F(0))))[::1]:
        for d1, d2 in ((DIAG[0], DIAG[2]), (DIAG[4], DIAG[1])):
            for b1, b2 in itertools.product((RHS[1], (F(-5), F(-4)), (F(-3), F(-2)), RHS[0]), repeat=2):
                if regular([[d1, o1], [o2, d2]]) and (th or (b1, b2) != (RHS[0], RHS[0])):
                    M.append(([[d1, o1], [o2, d2]], [b1, b2], None))
    D2, D3 = [s for s in sys2(4, 5, 5) if dominant(s[0])][::97], [s for s in sys3(211) if dominant(s[0])][::3]
    O1, O2 = list(over(2, 1, 3)), [s for s in over(3, 2, 997) if not unbounded(*s) and united_hull(*s)]
    W = list(blocks(D2, D3, 14 if not th else 2))
    W += [together(O1[i % len(O1)], s, p=2, q=2) for i, s in enumerate(O2[::2 if th else 47])]                 # 5 x 3
    W += [together(D2[i % len(D2)], s, p=3, q=3) for i, s in enumerate(O2[1::2 if th else 47])]                # 5 x 4
    # (the refinement of these can end with the budget: no claim of optimality)
    ctx.run(systems, [(A, b, None) for A, b in W], (0, 1, 2, 9, 60), False, chunk=1)
    for s in (N, P, B, O, OB, T, Z, M):
        ctx.run(systems, s, budgets, chunk=2)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'ends_at_zero': len(M), 'square_1_2': len(N), 'point': len(P), 'with_start_box': len(B), 'overdetermined': len(O) + len(OB), 'square_3': len(T), 'of_independent_parts': len(W), 'maxiter': [repr(x) for x in budgets]}
    ctx.assumptions = ['1e-6 relative: the estimates of single orthants are floating-point linear programs']
