"""C24: vertices of two-dimensional solution sets (lineqs, IntLinIncR2).

State = system of inequalities, or (interval system, kind of solution set, orthant, drawing window).
The model is the exact vertex set; besides each call the histories of two calls are explored,
because the drawing window is kept in a module variable.
"""
import warnings
from mc import boot
from mc.lsys import *
from checks.c16 import unbounded, tol_bounded

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C24'
TOL = 1e-7
ORT = [(1, 1), (-1, 1), (-1, -1), (1, -1)]


def near(p, q):
    return all(abs(float(x) - float(y)) <= TOL * (1 + abs(float(y))) for x, y in zip(p, q))


def matches(R, V):
    """Same set of points (each returned point is a vertex, each vertex returned once)."""
    return all(any(near(r, v) for v in V) for r in R) and all(any(near(r, v) for r in R) for v in V) and not any(near(p, q) for p, q in itertools.combinations(R, 2))


def cyclic(R):
    """Is the list a traversal of a convex polygon."""
    k = len(R)
    if k < 4:
        return True
    s = []
    for i in range(k):
        (a, b), (c, d), (e, f) = R[i], R[(i + 1) % k], R[(i + 2) % k]
        s.append((c - a) * (f - d) - (d - b) * (e - c))
    return all(v > -1e-9 for v in s) or all(v < 1e-9 for v in s)


def cone_bounded(G):
    """{G x >= b} bounded for every b."""
    m = len(G[0])
    for s in itertools.product((1, -1), repeat=m):
        R = [[-v for v in g] for g in G] + [[F(-s[j]) if i == j else F(0) for i in range(m)] for j in range(m)]
        if vertices(R + [list(map(F, s)), [F(-x) for x in s]], [F(0)] * len(R) + [F(1), F(-1)]):
            return False
    return True


def boxed(G, h, box):
    """Append lo <= x <= hi to G x <= h."""
    m = len(G[0])
    (lo, hi) = box
    E = [[F(1) if i == j else F(0) for i in range(m)] for j in range(m)]
    return G + E + [[-v for v in e] for e in E], h + [F(v) for v in hi] + [-F(v) for v in lo]


def points(r, s=1):
    """Returned points, in units of s."""
    return [tuple(float(v) / float(s) for v in p) for p in r]


def blow(box, s):
    return box and tuple(tuple(float(v * s) for v in e) for e in box)


def window(P, G, h):
    """The points of an unbounded set seen in a window: the set within their box, all vertices and edges in view."""
    V = vertices(G, h)
    snap = lambda x, k: next((v for v in [w[k] for w in V] + [F(x).limit_denominator(10 ** 5)] if abs(float(v) - x) <= 1e-9 * (1 + abs(x))), F(x))
    box = [[snap(g(p[k] for p in P), k) for k in (0, 1)] for g in (min, max)]
    if any(not any(near(p, v) for p in P) for v in V):
        return 'a vertex is out of view'
    big = vertices(*boxed(G, h, ((-10 ** 4,) * 2, (10 ** 4,) * 2)))
    for g, e in zip(G, h):
        S = [tuple(map(float, v)) for v in big if g[0] * v[0] + g[1] * v[1] == e]
        if any(g) and any(not near(p, q) for p in S for q in S):
            on = [p for p in P if abs(float(g[0]) * p[0] + float(g[1]) * p[1] - float(e)) <= 1e-7 * (1 + abs(float(e)))]
            if all(near(p, q) for p in on for q in on):
                return 'the edge %s x = %s is out of view' % (list(map(float, g)), float(e))
    W = vertices(*boxed(G, h, box))
    if not matches(P, W):
        return 'the set has the vertices %s there' % sorted((float(x), float(y)) for x, y in W)


def inequalities(rec, items):
    for G, b, box, *s in items:
        s = s[0] if s else F(1)         # the right-hand side and the bounds are multiplied by s
        rec.state()
        rec.edge()
        A_ = np.array([[float(v) for v in g] for g in G])
        b_ = np.array([float(v * s) for v in b])
        sbox = blow(box, s)
        c = 'print(ip.lineqs(np.array(%r), np.array(%r), show=False, bounds=%r))' % (A_.tolist(), b_.tolist(), sbox)
        t = 'A=%s, b=%s, bounds=%s' % (A_.tolist(), b_.tolist(), sbox)
        N, h = [[-v for v in g] for g in G], [-v for v in b]
        empty = not vertices(*boxed(N, h, ((-1000, -1000), (1000, 1000))))
        flat = [g for g in G if any(g)]
        bd = cone_bounded(flat) if flat else False
        with rec.case('lineqs', 'lineqs of ' + t, c, cpu=20):
            a0, b0 = A_.copy(), b_.copy()
            r = ip.lineqs(A_, b_, show=False, bounds=sbox)
            P = points(r, s)
            if not (np.array_equal(a0, A_) and np.array_equal(b0, b_)):
                rec.fail('lineqs/operands', 'lineqs changes its arguments: %s' % t, c)
            if len(t) % 8 == 0:
                q = points(ip.IntLinIncR2(A_, b_, show=False, bounds=sbox), s)
                if q != P:
                    rec.fail('IntLinIncR2/numbers', 'IntLinIncR2 of the numeric system gives %s, lineqs %s: %s' % (q, P, t), c)
            if empty:
                if P and not vertices(*boxed(N, [v + F(1, 10 ** 9) for v in h], ((-1000, -1000), (1000, 1000)))):
                    rec.fail('lineqs/empty', 'lineqs returns %s for an empty set: %s' % (P, t), c)
                rec.outcome('empty')
            elif bd:
                V = vertices(N, h)
                if not matches(P, V):
                    rec.fail('lineqs', 'lineqs returns %s, the vertices are %s: %s' % (P, sorted((float(x), float(y)) for x, y in V), t), c)
                elif not cyclic(P):
                    rec.fail('lineqs/order', 'the vertices are not in the order of the boundary: %s: %s' % (P, t), c)
                rec.outcome('bounded, %d vertices' % len(V))
            elif box is not None:
                V = vertices(*boxed(N, h, box))
                if not matches(P, V):
                    rec.fail('lineqs/bounds', 'lineqs returns %s, the vertices within the bounds are %s: %s' % (P, sorted((float(x), float(y)) for x, y in V), t), c)
                elif not cyclic(P):
                    rec.fail('lineqs/order', 'the vertices are not in the order of the boundary: %s: %s' % (P, t), c)
                rec.outcome('unbounded with bounds')
            else:
                bad = [p for p in P if any(sum(float(g) * v for g, v in zip(row, p)) < float(e) - 1e-6 for row, e in zip(G, b))]
                full = vertices(*boxed(N, [v - F(1, 1000) for v in h], ((-1000, -1000), (1000, 1000))))
                if bad:
                    rec.fail('lineqs/outside', 'lineqs returns %s which are not in the solution set: %s' % (bad, t), c)
                elif full and not (len(P) >= 3 and cyclic(P)):
                    rec.fail('lineqs/window', 'lineqs returns %s for an unbounded set with inner points: %s' % (P, t), c)
                elif full and any(flat):
                    msg = window(P, N, h)
                    if msg:
                        rec.fail('lineqs/window', 'lineqs returns %s, %s: %s' % (P, msg, t), c)
                rec.outcome('unbounded')
        rec.trace()
    rec.sample(t)


def pieces(A, b, cons):
    hs = halfspaces_united if cons == 'uni' else halfspaces_tol
    for s in ORT:
        yield hs(A, b, s)


def thin(A, b, cons):
    """The system with the right-hand side moved by 1e-9 both ways, to judge touching pieces."""
    e = F(1, 10 ** 9)
    return [(l - e, u + e) for l, u in b]


def one(rec, A, b, cons, box, key, note='', s=F(1)):
    rec.state()
    rec.edge()
    sb = [(l * s, u * s) for l, u in b]
    sbox = blow(box, s)
    t = '%s, %s, bounds=%s%s' % (text(A, sb), cons, sbox, note)
    c = code(A, sb, "ip.IntLinIncR2(A, b, show=False, consistency=%r, bounds=%r)" % (cons, sbox))
    unit = s
    bd = not unbounded(A, b) if cons == 'uni' else tol_bounded(A, b)
    with rec.case(key, 'IntLinIncR2 of ' + t, c, cpu=20):
        ia, ibb = to_ip(ip, A), to_ip(ip, sb)
        before = repr(ia), repr(ibb)
        r = ip.IntLinIncR2(ia, ibb, show=False, consistency=cons, bounds=sbox)
        if len(r) != 4:
            rec.fail(key + '/shape', 'IntLinIncR2 returns %d lists: %s' % (len(r), t), c)
            return
        P = [points(q, unit) for q in r]
        # the window of an unbounded set is the library's choice: the largest coordinate
        exact = [(G, h, vertices(G, h)) for G, h in pieces(A, b, cons)]
        w = F(max([0.0] + [abs(v) for (G, h, V), q in zip(exact, P) if not matches(q, V) for p in q for v in p]))
        for s, (G, h, V), q in zip(ORT, exact, P):
            ok = matches(q, V)
            if not ok and not bd:
                # with given bounds, or the window chosen by the library: the largest coordinate
                V = vertices(*boxed(G, h, box if box is not None else ((-w, -w), (w, w))))
                ok = matches(q, V)
            if not ok:
                # pieces that only touch numerically
                Vn = vertices(*(halfspaces_united if cons == 'uni' else halfspaces_tol)(A, thin(A, b, cons), s))
                ok = (not V or len(V) == 1 or degenerate(V)) and all(any(near(p, v) for v in Vn) for p in q) and all(any(near(p, v) for p in q) for v in V)
            if not ok:
                rec.fail(key, 'IntLinIncR2 returns %s in the orthant %s, the vertices are %s: %s' % (q, s, sorted((float(x), float(y)) for x, y in V), t), c)
            elif not cyclic(q):
                rec.fail(key + '/order', 'the vertices are not in the order of the boundary: %s: %s' % (q, t), c)
            rec.outcome('%s %s %d' % (cons, 'bounded' if bd else 'window', min(len(V), 6)))
        if (repr(ia), repr(ibb)) != before:
            rec.fail(key + '/operands', 'IntLinIncR2 changes its arguments: %s' % t, c)


def degenerate(V):
    V = sorted(V)
    return near(V[0], V[-1])


def systems(rec, items):
    for A, b, *s in items:
        s = s[0] if s else F(1)
        for cons in ('uni', 'tol'):
            one(rec, A, b, cons, None, 'IntLinIncR2', s=s)
            bd = not unbounded(A, b) if cons == 'uni' else tol_bounded(A, b)
            if not bd:
                one(rec, A, b, cons, ((-20, -20), (20, 20)), 'IntLinIncR2/bounds', s=s)
        rec.trace()
    rec.sample(text(A, b))


def histories(rec, items):
    """What was drawn before (a window may be left behind) has no influence."""
    for first, (A, b) in items:
        try:
            if first[0] == 'ineq':
                ip.lineqs(np.array(first[1]), np.array(first[2]), show=False)
            elif first[0] == 'ineq3':
                ip.lineqs3D(np.array(first[1]), np.array(first[2]), show=False)
            else:
                ip.IntLinIncR2(to_ip(ip, first[1]), to_ip(ip, first[2]), show=False, consistency=first[3])
        except Exception:
            pass
        cons = 'tol' if len(text(A, b)) % 2 else 'uni'
        bd = not unbounded(A, b) if cons == 'uni' else tol_bounded(A, b)
        one(rec, A, b, cons, None if bd else ((-7, -7), (7, 7)), 'IntLinIncR2/history', ', after %s' % (first,))
        # and the same answer as in a history that starts with this call
        rec.trace()


NORM = [(F(1), F(0)), (F(0), F(1)), (F(-1), F(0)), (F(0), F(-1)), (F(1), F(1)), (F(-1), F(2)), (F(-2), F(-1)), (F(3), F(-2)), (fl(0.1), fl(0.3)), (fl(-0.2), fl(-0.6))]
RH = [F(-2), F(-1), F(0), F(1), fl(0.7)]


def ineqs(k):
    i = 0
    for n in (1, 2, 3, 4, 5):
        for rows in itertools.combinations(NORM, n):
            for b in itertools.product(RH, repeat=n):
                i += 1
                if i % k == 0:
                    R, c = list(rows), list(b)
                    j = i // k
                    if j % 5 == 1:      # a repeated or scaled row
                        R, c = R + [tuple(3 * v for v in R[0])], c + [3 * c[0]]
                    if j % 7 == 1:      # a zero row, true or false
                        R, c = R + [(F(0), F(0))], c + [F(-1) if j % 2 else F(1)]
                    yield R, c


def explore(ctx):
    th = ctx.thorough
    I = []
    for j, (R, c) in enumerate(ineqs(11 if th else 101)):
        I.append((R, c, None))
        if j % 3 == 0:
            I.append((R, c, ((-10, -10), (10, 10))))
        if j % 9 == 0:
            I.append((R, c, ((-1, 2), (3, 5))))
    UN = [F(2) ** 34, F(2) ** -8, F(2) ** 24, F(10) ** 6]
    IZ = [x + (UN[j % 4],) for j, x in enumerate(I[::2 if th else 5])]
    ctx.run(inequalities, I + IZ)
    S = list(sys2())[::29 if th else 397] + list(over(3, 2, 499 if th else 9973)) + list(data(2, 5 if th else 23)) + list(over(2, 2, 7 if th else 97))
    S += [([r[:] for r in A[:1]], b[:1]) for A, b in list(sys2())[::301]]
    S += [(A + [A[0]], b + [b[0]]) for A, b in S[::9]]
    S += with_zero_row(S[::5], 2)
    SZ = [x + (UN[j % 4],) for j, x in enumerate(S[::2 if th else 5]) if any(l or u for l, u in x[1])]      # a cone has no size
    ctx.run(systems, S + SZ)
    firsts = [('ineq', [[1., 0.], [0., 1.]], [100., -300.]), ('ineq', [[1., 2.]], [1.]), ('ineq3', [[1., 0, 0], [0, 1., 0], [0, 0, 1.]], [50., 0, 0]),
              ('int', [[(F(-1), F(1)), (F(1), F(2))]], [(F(30), F(40))], 'uni'), ('int', [[(F(1), F(1)), (F(1), F(1))]], [(F(30), F(40))], 'tol')]
    Hs = [(f, s) for i, f in enumerate(firsts) for s in S[i::23 if th else 101]]
    ctx.run(histories, Hs)
    ctx.bounds = {'in_other_units': len(IZ) + len(SZ), 'systems_of_inequalities': len(I), 'interval_systems': len(S), 'histories_of_two_calls': len(Hs)}
    ctx.assumptions = ['points compared to 1e-7 relative; orthant pieces that only touch up to 1e-9 may be reported or not', 'bounds apply to unbounded sets (documented as the borders of the drawing area)']
