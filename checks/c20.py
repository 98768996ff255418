"""C20: recognizing functionals: exact values, constituents and membership.

State = (system, point, weight); the model value of every constituent is a rational number.
"""
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
ID = 'C20'
EPS = F(1, 10 ** 11)


def mag(p):
    return max(abs(p[0]), abs(p[1]))


def mig(p):
    return F(0) if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1]))


def residual(row, be, x):
    """mid b - A x of one equation."""
    lo = sum(min(l * v, u * v) for (l, u), v in zip(row, x))
    hi = sum(max(l * v, u * v) for (l, u), v in zip(row, x))
    mb = (be[0] + be[1]) / 2
    return mb - hi, mb - lo


def tol_i(row, be, x):
    return (be[1] - be[0]) / 2 - mag(residual(row, be, x))


def uni_i(row, be, x):
    return (be[1] - be[0]) / 2 - mig(residual(row, be, x))


def uss_i(row, be, x):
    lo, hi = residual(row, be, x)
    return (be[1] - be[0]) / 2 + (hi - lo) / 2 - abs(lo + hi) / 2


FUN = {'Tol': (tol_i, in_tol), 'Uni': (uni_i, in_united), 'Uss': (uss_i, in_united)}


def arr(w):
    """The weight argument: an array, or a number when all weights are 5/2."""
    return None if w is None else 2.5 if set(w) == {F(5, 2)} else np.array([float(v) for v in w])


def weights(n):
    yield None
    yield [F(1)] * n
    yield [F(1 + i % 3, 2) for i in range(n)]
    yield [F(3 * (i + 1)) for i in range(n)][::-1]
    yield [F(5, 2)] * n


def values(rec, items, points):
    for A, b in items:
        n, m = len(A), len(A[0])
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        t = text(A, b)
        for x in points[m]:
            for name, (fun, member) in FUN.items():
                cl = getattr(ip, name)
                base = [fun(r, e, x) for r, e in zip(A, b)]
                # weights only matter together with the values: all of them for some points
                for w in (weights(n) if sum(map(abs, x)) % 2 else [None]):
                    rec.state()
                    rec.edge()
                    want = base if w is None else [p * q for p, q in zip(w, base)]
                    whole = all(v.denominator == 1 for v in x)
                    xf = np.array([int(v) for v in x] if whole and rec.edges % 2 else [float(v) for v in x])
                    wf = arr(w)
                    c = lambda: code(A, b, 'ip.%s.constituent(A, b, np.array(%r), weight=%s)' % (name, list(map(float, x)), None if w is None else 'np.array(%r)' % list(map(float, w))))
                    with rec.case(name, lambda: '%s at %s of %s' % (name, x, t), c, cpu=10):
                        arg = {} if w is None else {'weight': wf}
                        con = cl.constituent(ia, ibb, xf, **arg)
                        v = cl.value(ia, ibb, xf, **arg)
                        con = [val(q) for q in np.asarray(con, dtype=float).ravel()]
                        v = val(v)
                        if len(con) != n or any(q is None or abs(q - e) > EPS * (1 + abs(e)) for q, e in zip(con, want)):
                            rec.fail(name + '/constituent', '%s.constituent at %s with weight %s is %s instead of %s: %s' % (
                                name, list(map(float, x)), wf, [float(q) for q in con], [float(q) for q in want], t), c())
                        if v is None or abs(v - min(want)) > EPS * (1 + abs(min(want))):
                            rec.fail(name + '/value', '%s.value at %s with weight %s is %r instead of %s: %s' % (
                                name, list(map(float, x)), wf, v and float(v), float(min(want)), t), c())
                        elif (v > EPS * (1 + max(map(abs, want)))) and not member(A, b, x) or v < -EPS * (1 + max(map(abs, want))) and member(A, b, x):
                            rec.fail(name + '/member', 'the value %s contradicts the solution set at %s: %s' % (float(v), list(map(float, x)), t), c())
                        rec.outcome('%s %s' % (name, 'inside' if min(want) > 0 else 'boundary' if min(want) == 0 else 'outside'))
        rec.trace()
    rec.sample(t)


G = [F(-3), F(-3, 2), F(-1), -H, F(0), H, F(1), F(2), fl(0.3)]


def dense_rows(k):
    """Full rows with 4 to 6 unknowns, also fewer and more equations than unknowns."""
    for i in range(k):
        m, n = 4 + i % 3, 3 + i % 5
        yield [[OV_A[(i + p * 3 + q * (1 + i % 4)) % len(OV_A)] for q in range(m)] for p in range(n)], [OV_B[(i * 3 + p) % len(OV_B)] for p in range(n)]


def explore(ctx):
    th = ctx.thorough
    pts = {1: [(g,) for g in G], 2: list(itertools.product(G, repeat=2))[::1 if th else 3],
           3: list(itertools.product(G, repeat=3))[::11 if th else 97]}
    S = list(sys1()) + list(sys2())[::(29 if th else 499)] + list(sys3(401 if th else 7919))
    O = list(over(2, 1, 2))[::1 if th else 2] + list(over(3, 2, 307 if th else 7919)) + list(data(2, 7 if th else 31)) + list(data(3, 11 if th else 61))
    R = [([r[:] for r in A[:1]], b[:1]) for A, b in list(sys2())[::301]]      # fewer equations than unknowns
    Pt = [point(A, b) for A, b in (S + O)[::5]]
    for m in (4, 5, 6):
        pts[m] = [tuple(G[(i * 2 + j * (1 + i % 4)) % len(G)] for j in range(m)) for i in range(27 if th else 9)]
    D2, D3, O1, O2 = list(sys2(4, 5, 5))[::197], list(sys3(997)), list(over(2, 1, 3)), list(over(3, 2, 2999))
    W = list(blocks(D2, D3, 3 if th else 19)) + [together(O1[i % len(O1)], s, D2[i], p=3, q=2) for i, s in enumerate(O2[::3 if th else 41][:len(D2)])]
    W += list(dense_rows(40))
    ctx.run(values, S + O + R + Pt + W, pts)
    ctx.bounds = {'systems_of_4_to_6_unknowns': len(W), 'systems': len(S) + len(O) + len(R) + len(Pt), 'points_per_system_1_2_3': [len(pts[k]) for k in (1, 2, 3)], 'weights': 'none, ones, mixed, large'}
    ctx.assumptions = ['values compared to 1e-11 relative; membership judged outside that margin']
