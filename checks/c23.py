"""C23: Neumaier's inner estimate: inside the tolerable set and of the largest possible radius."""
from mc import boot
from mc.lsys import *
from checks.c20 import tol_i, dense_rows

ip = boot.load()
import numpy as np
ID = 'C23'
EPS = F(1, 10 ** 10)


def radius(A, b, y, w):
    """Exact largest r with A (y + r w [-1, 1]) inside b, None when y is not a solution."""
    best = None
    for row, (bl, bu) in zip(A, b):
        # per row: inf and sup of A_i x over the box are monotone in r, piecewise linear
        if tol_i(row, (bl, bu), y) < 0:
            return None
        s = sum(max(abs(l), abs(u)) * q for (l, u), q in zip(row, w))
        r = tol_i(row, (bl, bu), y) / s
        best = r if best is None else min(best, r)
    return best


def box_inside(A, b, B, slack):
    """Is {A x : x in B} inside b, up to the slack."""
    for row, (bl, bu) in zip(A, b):
        lo = sum(min(p * q for p in e for q in x) for e, x in zip(row, B))
        hi = sum(max(p * q for p in e for q in x) for e, x in zip(row, B))
        if lo < bl - slack or hi > bu + slack:
            return False
    return True


def centres(rec, items, pts):
    for A, b in items:
        n, m = len(A), len(A[0])
        if any(all(l == 0 == u for l, u in row) for row in A):
            continue
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        t = text(A, b)
        before = repr(ia), repr(ibb)
        P = list(pts[m])
        V = [[None] * m for k in range(3)]
        for R, C in parts(A):
            if len(C) > 3:
                V = []
                break
            U = sorted(tol_vertices([[A[i][j] for j in C] for i in R], [b[i] for i in R])) if R and C else [(F(0),) * len(C)]
            if not U:
                V = []
                break
            for v, u in zip(V, (U[0], U[-1], [sum(c) / len(U) for c in zip(*U)])):
                for j, q in zip(C, u):
                    v[j] = q
        P += [tuple(v) for v in V]
        for k, y in enumerate(P):
            for w in (None, [F(1)] * m, [F(j + 1, 2) for j in range(m)], [F(m - j) * 3 for j in range(m)])[k % 2::2]:
                rec.state()
                rec.edge()
                yf = np.array([float(v) for v in y])
                ye = [F(float(v)) for v in y]
                wf = None if w is None else np.array([float(v) for v in w])
                we = w or [F(1)] * m
                d = '%s, centre %s, w %s' % (t, list(yf), wf)
                c = code(A, b, 'ip.Neumaier(A, b, np.array(%r)%s)' % (list(map(float, y)), '' if w is None else ', w=np.array(%r)' % list(map(float, w))))
                margin = min(tol_i(r, e, ye) for r, e in zip(A, b))
                with rec.case('Neumaier', 'Neumaier of ' + d, c, cpu=10):
                    y0, w0 = yf.copy(), None if wf is None else wf.copy()
                    try:
                        r = ip.Neumaier(ia, ibb, yf, wf) if w is not None else ip.Neumaier(ia, ibb, yf)
                    except Exception as e:
                        if type(e) is not Exception:
                            raise
                        rec.outcome('refused')
                        if margin > EPS:
                            rec.fail('refused', 'Neumaier refuses a centre inside the tolerable set (%s): %s' % (e, d), c)
                        elif margin == 0 and all(v.denominator <= 8 and abs(v) < 100 for row in A + [b] for q in row for v in q) and all(v.denominator <= 8 for v in ye):
                            # no rounding: the centre is exactly on the boundary
                            rec.fail('boundary', 'Neumaier refuses a centre on the boundary of the tolerable set (%s): %s' % (e, d), c)
                        continue
                    if margin < -EPS:
                        rec.fail('outside', 'Neumaier returns %s for a centre outside the tolerable set: %s' % (r, d), c)
                        continue
                    B = box_of(ip, r, m)
                    if B is None or any(l > u for l, u in B):
                        rec.fail('shape', 'Neumaier gives %r: %s' % (r, d), c)
                        continue
                    if not box_inside(A, b, B, EPS):
                        rec.fail('inside', 'the box %s is not inside the tolerable set: %s' % (show(B), d), c)
                    R = radius(A, b, ye, we) if margin >= 0 else F(0)
                    want = [(p - R * q, p + R * q) for p, q in zip(ye, we)]
                    if not same(B, want, EPS):
                        rec.fail('radius', 'Neumaier gives %s, the largest box around the centre is %s: %s' % (show(B), show(want), d), c)
                    if not np.array_equal(yf, y0) or (wf is not None and not np.array_equal(wf, w0)) or (repr(ia), repr(ibb)) != before:
                        rec.fail('operands', 'Neumaier changes its arguments: %s' % d, c)
                    rec.outcome('box' if R else 'point')
        rec.trace()


def explore(ctx):
    th = ctx.thorough
    G = [F(-1), F(0), H, F(1)]
    pts = {m: list(itertools.product(G, repeat=m))[::1 if m < 3 else 7] for m in (1, 2, 3)}
    S = list(sys1()) + list(sys2())[::13 if th else 97] + list(sys3(97 if th else 2999))
    O = list(over(2, 1, 1)) + list(over(3, 2, 97 if th else 997)) + list(data(2, 1 if th else 11)) + list(data(3, 3 if th else 61))
    for m in (4, 5, 6):
        pts[m] = [tuple(G[(i + j * (1 + i % 3)) % len(G)] for j in range(m)) for i in range(4)]
    D2, D3, O1, O2 = list(sys2(4, 5, 5))[::197], list(sys3(997)), list(over(2, 1, 3)), list(over(3, 2, 2999))
    L = list(blocks(D2, D3, 3 if th else 19)) + [together(O1[i % len(O1)], s, D2[i], p=3, q=2) for i, s in enumerate(O2[::3 if th else 41][:len(D2)])]
    L += list(dense_rows(40))
    O += L
    W = [(A, [(l - 2, u + 2) for l, u in b]) for A, b in (S + O)[::3]]
    ctx.run(centres, S + O + W, pts)
    ctx.bounds = {'systems_of_4_to_6_unknowns': len(L), 'systems': len(S) + len(O) + len(W), 'centres_per_system': 'grid, two vertices and the centre of the tolerable set'}
    ctx.assumptions = ['inclusion and radius compared to 1e-10 relative; rows of zeros excluded; positive weights']
