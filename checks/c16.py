"""C16: Rohn's estimates for overdetermined (and square) systems."""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C16'


def uni(rec, items):
    for A, b in items:
        rec.state()
        rec.edge()
        m = len(A[0])
        t = text(A, b)
        c = code(A, b, 'ip.Rohn(A, b)')
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        with rec.case('uni', 'Rohn of ' + t, c):
            try:
                r = ip.Rohn(ia, ibb)
            except (np.linalg.LinAlgError, AssertionError):
                rec.outcome('refused')
                continue
            except Exception as e:
                if type(e) is Exception:
                    rec.outcome('no estimate')
                    if strongly_regular(ia):
                        rec.fail('uni/refused', 'no estimate for the strongly regular matrix: %s' % t, c)
                    continue
                raise
            B = box_of(ip, r, m)
            if B is None:
                rec.fail('uni/shape', 'Rohn gives %r for %s' % (r, t), c)
                continue
            V = united_hull(A, b)
            if all(abs(e) < 10 ** 300 for p in B for e in p) and unbounded(A, b):
                rec.fail('uni/unbounded', 'Rohn gives %s although the solution set is unbounded: %s' % (show(B), t), c)
            elif V and not encl(B, V, F(1, 10 ** 9)):
                rec.fail('uni', 'Rohn gives %s, solutions reach %s: %s' % (show(B), show(V), t), c)
            rec.outcome('uni %dx%d %s' % (len(A), m, 'empty' if not V else ''))
            if (repr(ia), repr(ibb)) != before:
                rec.fail('uni/operands', 'Rohn changes its arguments: %s' % t)
        rec.trace()


def strongly_regular(ia):
    """Spectral radius of |pinv(mid)| rad clearly below one."""
    M = np.array(ia.mid, dtype=float)
    R = np.linalg.inv(M.T @ M) @ M.T
    G = abs(R) @ np.array(ia.rad, dtype=float)
    return max(abs(np.linalg.eigvals(G))) < 0.9


def unbounded(A, b):
    """Is the united set unbounded: every independent part non-empty and one of them unbounded."""
    if united_hull(A, b) is None:
        return False
    return any(not R or cached(unbounded_part, tuple(tuple(A[i][j] for j in C) for i in R), tuple(b[i] for i in R)) for R, C in parts(A) if C)


def unbounded_part(A, b):
    """A non-empty orthant piece with a recession direction."""
    m = len(A[0])
    Z = [(F(0), F(0))] * len(A)
    for s in itertools.product((1, -1), repeat=m):
        G, h = halfspaces_united(A, b, s)
        if not vertices(G, h):
            continue
        # recession cone {Gd <= 0}, cut by sum s_j d_j = 1
        R = [list(map(F, s)), [F(-x) for x in s]]
        if vertices(G + R, [F(0)] * len(h) + [F(1), F(-1)]):
            return True
    return False


def tol(rec, items):
    for A, b in items:
        rec.state()
        rec.edge()
        m = len(A[0])
        t = text(A, b)
        c = code(A, b, "ip.Rohn(A, b, consistency='tol')")
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        V = tol_hull(A, b)
        with rec.case('tol', 'Rohn tol of ' + t, c):
            # how far is the system from the edge of solvability (exact maximum of the functional)
            try:
                r = ip.Rohn(ia, ibb, consistency='tol')
            except Exception as e:
                if type(e) is not Exception:
                    raise
                rec.outcome('tol refused')
                if V and tol_hull(A, [(l + F(1, 10 ** 6), u - F(1, 10 ** 6)) for l, u in b]):
                    rec.fail('tol/refused', 'Rohn refuses (%s), the tolerable set is %s: %s' % (e, show(V), t), c)
                continue
            B = box_of(ip, r, m)
            if B is None:
                rec.fail('tol/shape', 'Rohn gives %r for %s' % (r, t), c)
            elif not V:
                if not tol_hull(A, [(l - F(1, 10 ** 6), u + F(1, 10 ** 6)) for l, u in b]):
                    rec.fail('tol/empty', 'Rohn gives %s, the tolerable set is empty: %s' % (show(B), t), c)
            elif not same(B, V, F(1, 10 ** 6)):
                rec.fail('tol', 'Rohn gives %s, the tolerable set is %s: %s' % (show(B), show(V), t), c)
            rec.outcome('tol %dx%d' % (len(A), m))
        rec.trace()


def tol_bounded(A, b):
    """No direction d with A d = 0 (as a set)."""
    return all(R and cached(tol_bounded_part, tuple(tuple(A[i][j] for j in C) for i in R), tuple(b[i] for i in R)) for R, C in parts(A) if C)


def tol_bounded_part(A, b):
    m = len(A[0])
    for s in itertools.product((1, -1), repeat=m):
        G, h = halfspaces_tol(A, [(F(0), F(0))] * len(A), s)
        R = [list(map(F, s)), [F(-x) for x in s]]
        if vertices(G + R, [F(0)] * len(h) + [F(1), F(-1)]):
            return False
    return True


def explore(ctx):
    th = ctx.thorough
    S = list(sys1()) + list(sys2())[::13 if not th else 1] + list(sys3(997 if not th else 61))
    O = list(over(3, 2, 997 if not th else 61)) + list(data(2, 7 if not th else 1)) + list(data(3, 31 if not th else 5)) + list(over(2, 1, 3))
    Z = list(scaled((S + O)[::29 if not th else 5]))
    ctx.run(uni, Z + S + O + [point(A, b) for A, b in S[::5]])
    T = [s for s in list(over(3, 2, 1499 if not th else 97)) + list(over(2, 2, 61 if not th else 7)) + list(data(2, 7 if not th else 1)) + list(data(3, 61 if not th else 9)) if tol_bounded(*s)]
    wide = [(A, [(l - 2, u + 2) for l, u in b]) for A, b in T]
    ctx.run(tol, T[::2] + wide)
    D2, D3 = [s for s in sys2(4, 5, 5) if regular(s[0])][::97], [s for s in sys3(211) if regular(s[0])][::3]
    O1, O2, O3 = list(over(2, 1, 3)), list(over(3, 2, 997)), list(data(3, 31))
    W = list(blocks(D2, D3, 3 if not th else 1))
    W += [together(O1[i % len(O1)], s, p=2, q=2) for i, s in enumerate(O2[::1 if th else 5])]                 # 5 x 3
    W += [together(D2[i % len(D2)], s, p=3, q=3) for i, s in enumerate(O2[1::1 if th else 5])]                # 5 x 4
    W += [together(O1[i % len(O1)], O2[i % len(O2)], O2[(i * 7 + 3) % len(O2)], p=3, q=2) for i in range(0, len(O2), 1 if th else 9)]      # 8 x 5
    ctx.run(uni, W)
    tb = [s for s in list(over(3, 2, 1499)) + list(data(3, 61)) + [s for s in sys2(4, 5, 5)][::97] if tol_bounded(*s)]
    Y = []
    for i, s in enumerate(tb[::1 if th else 3]):
        A, b = together(tb[(i * 5 + 1) % len(tb)], s)
        k = 1 + (i % 3 != 0)
        Y.append((A, [(l - k, u + k) for l, u in b]))
    ctx.run(tol, Y)
    ctx.bounds = {'of_independent_parts_united': len(W), 'of_independent_parts_tolerable': len(Y), 'scaled_by_powers_of_two': len(Z), 'systems_united': len(S) + len(O), 'systems_tolerable': len(T) + len(wide)}
    ctx.assumptions = ['slack 1e-9 (united), 1e-6 (tolerable) relative; emptiness of tolerable sets judged outside a margin of 1e-6']
    ctx.rec.sample(text(*O[len(O) // 2]))
