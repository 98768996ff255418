"""C15: the interval Gauss-Seidel iteration: consistently guaranteeing at every iteration budget.

State = (system, start box, preconditioner, iteration budget).  The exact part of the united
solution set inside the start box is computed by enumerating polyhedron vertices.
"""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C15'


def clipped(A, b, X):
    """Hull of the part of the united solution set inside the box X."""
    return by_parts(clipped_part, A, b, X)


def clipped_part(A, b, X):
    m = len(A[0])
    V = set()
    for s in itertools.product((1, -1), repeat=m):
        G, h = halfspaces_united(A, b, s)
        for j in range(m):
            for sg in (1, -1):
                G.append([F(sg) if i == j else F(0) for i in range(m)])
                h.append(X[j][1] if sg > 0 else -X[j][0])
        V |= vertices(G, h)
    return hull(V)


def change(ia, ibb, r, C):
    """Relative change of the estimate by one further sweep."""
    try:
        z = ip.Gauss_Seidel(ia, ibb, x0=r.copy(), C=C, maxiter=0)
    except Exception as e:
        if type(e) is Exception and 'does not intersect' in str(e):
            return None, None
        raise
    P, Q = ([float(e) for x in v.data for e in (x.a, x.b)] for v in (r, z))
    return max(abs(p - q) / (1 + abs(p)) for p, q in zip(P, Q)), z


BIG = (F(-1000), F(1000))


def boxes(A, b, n, Hl):
    out = [None]
    out.append([(F(0), F(10))] * n)
    out.append([(F(-1), H)] + [(F(-20), F(20))] * (n - 1))
    if Hl is not None:
        mid = [(l + u) / 2 for l, u in Hl]
        # cut the solution set through its middle; and a box beside it
        out.append([(fl(mid[0]), fl(mid[0] + 7))] + [(fl(l - 1), fl(u + 1)) for l, u in Hl[1:]])
        out.append([(fl(Hl[0][1] + 1), fl(Hl[0][1] + 2))] + [(F(-50), F(50))] * (n - 1))
        # wider than the default start box
        out.append([(fl(2 * l - 10 ** 5), fl(2 * u + 10 ** 6)) for l, u in Hl])
    return out


def systems(rec, items, budgets):
    for A, b in items:
        n = len(A)
        t0 = text(A, b)
        if not regular(A):
            Hl = None
        else:
            Hl = united_hull(A, b)
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        pre = [None] if n > 2 else [None, np.eye(n)]
        for X in boxes(A, b, n, Hl):
            E = clipped(A, b, X or [BIG] * n)
            for C in pre:
                last = None
                for mi in budgets:
                    rec.state()
                    rec.edge()
                    t = 'Gauss_Seidel(x0 = %s, C = %s, maxiter = %r) of %s' % (X and show(X), 'None' if C is None else 'eye', mi, t0)
                    kw = ('' if X is None else ', x0=ip.Interval(%r, %r)' % ([float(l) for l, u in X], [float(u) for l, u in X])) + \
                        ('' if C is None else ', C=np.eye(%d)' % n) + ('' if mi is None else ', maxiter=%d' % mi)
                    c = code(A, b, 'ip.Gauss_Seidel(A, b%s)' % kw)
                    x0 = None if X is None else to_ip(ip, X)
                    args = {} if mi is None else {'maxiter': mi}
                    with rec.case('GS', t, c):
                        try:
                            r = ip.Gauss_Seidel(ia, ibb, x0=x0, C=C, **args)
                        except (AssertionError, ValueError, ZeroDivisionError, np.linalg.LinAlgError) as e:
                            rec.outcome('refused')
                            if Hl is not None and C is None and all(l == u for row in A for l, u in row):
                                rec.fail('GS/refused', '%s refuses a regular point matrix: %r' % (t, e), c)
                            if Hl is not None and C is not None and dominant(A) and all(A[i][i][0] > 0 for i in range(n)):
                                rec.fail('GS/refused', '%s refuses a diagonally dominant matrix: %r' % (t, e), c)
                            continue
                        except Exception as e:
                            if type(e) is Exception and 'does not intersect' in str(e):
                                rec.outcome('empty')
                                if E is not None:
                                    rec.fail('GS/empty', '%s says there is no solution in the box, but there is %s' % (t, show(E)), c)
                                continue
                            raise
                        B = box_of(ip, r, n)
                        if B is None:
                            rec.fail('GS/shape', '%s gives %r' % (t, r), c)
                            continue
                        if E is not None and not encl(B, E):
                            rec.fail('GS', '%s gives %s, solutions reach %s' % (t, show(B), show(E)), c)
                        if not all(x0l <= l + F(1, 10 ** 14) and u <= x0u + F(1, 10 ** 14) for (l, u), (x0l, x0u) in zip(B, X or [BIG] * n)):
                            rec.fail('GS/box', '%s gives %s, outside the start box' % (t, show(B)), c)
                        if last is not None and not all(pl - F(1, 10 ** 13) * (1 + abs(pl)) <= l and u <= pu + F(1, 10 ** 13) * (1 + abs(pu)) for (l, u), (pl, pu) in zip(B, last)):
                            rec.fail('GS/monotone', '%s gives %s, a smaller budget gave %s' % (t, show(B), show(last)), c)
                        last = B
                        if mi is None and X is None and E is not None and all(l == u for row in A for l, u in row) and all(l == u for l, u in b) and C is None and not same(B, E, F(1, 10 ** 9)):
                            rec.fail('GS/point', '%s gives %s for the solution %s' % (t, show(B), show(E)), c)
                        if mi is None:
                            # the end of the iteration is its fixed point: further sweeps change nothing
                            d1, z = change(ia, ibb, r, C)
                            d2, z = (None, None) if z is None else change(ia, ibb, z, C)
                            if z is None:
                                if E is not None:
                                    rec.fail('GS/empty', '%s gives %s, and further sweeps find no solution, but there is %s' % (t, show(B), show(E)), c)
                            elif d1 > 1e-9 and d2 < 0.97 * d1:
                                rec.fail('GS/fixed', '%s gives %s, but a further sweep still moves it by %g' % (t, show(B), d1), c)
                        rec.outcome('budget %r' % mi)
                    if (repr(ia), repr(ibb)) != before or x0 is not None and box_of(ip, x0, n) != X:
                        rec.fail('GS/operands', '%s changes its arguments' % t, c)
                        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        rec.trace()
    rec.sample(t)


def explore(ctx):
    th = ctx.thorough
    budgets = (0, 1, 2, None) if not th else (0, 1, 2, 3, 5, 10, None)
    S = list(sys1()) + (list(sys2())[::3] if th else list(sys2(4, 5, 5))[1::37] + list(sys2())[::131])
    P = [point(A, b) for A, b in list(sys2(5, 6, 4))[::101 if not th else 7]] + [point(A, b) for A, b in sys3(997 if not th else 131)]
    T = list(sys3(1009 if not th else 61))
    Z = list(scaled((S + P + T)[::29 if not th else 5]))
    Q = list(blocks([s for s in sys2(4, 5, 5) if dominant(s[0])][::23], [s for s in sys3(211) if dominant(s[0])][::3], 5 if not th else 1))
    for s in (S, P, T, Z):
        ctx.run(systems, s, budgets)
    ctx.run(systems, Q, (0, 1, None), chunk=1)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'systems_1_2': len(S), 'point_systems': len(P), 'systems_3': len(T), 'systems_4_to_6': len(Q), 'start_boxes': 6, 'maxiter': [repr(x) for x in budgets]}
