"""C25: faces of three-dimensional solution sets (lineqs3D, IntLinIncR3)."""
import warnings
from mc import boot
from mc.lsys import *
from checks.c16 import unbounded, tol_bounded
from checks.c24 import near, cone_bounded, boxed, blow

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C25'
ORT = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1), (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]
TOL = F(1, 10 ** 6)


def facets(G, h, V):
    """Vertex sets of the faces {g x = h} with at least three vertices, without multiples."""
    out = []
    for g, e in zip(G, h):
        S = frozenset(v for v in V if sum(p * q for p, q in zip(g, v)) == e)
        if any(g) and len(S) >= 3 and S not in out:
            out.append(S)
    return out


def spread(S):
    """Not within 1e-9 of a point or a line."""
    Q = np.array([[float(v) for v in p] for p in S])
    w = np.linalg.svd(Q - Q.mean(0), compute_uv=False)
    return w[1] > 1e-9 * (1 + np.abs(Q).max())


def same_points(P, V):
    return all(any(near(p, v) for v in V) for p in P) and all(any(near(p, v) for p in P) for v in V)


def in_order(P):
    """A closed or open traversal of a convex plane polygon."""
    Q = P[:-1] if len(P) > 1 and near(P[0], P[-1]) else P
    if len(Q) < 4:
        return True
    Q = np.array(Q)
    k = len(Q)
    n = None
    for i in range(k):
        c = np.cross(Q[(i + 1) % k] - Q[i], Q[(i + 2) % k] - Q[(i + 1) % k])
        if np.linalg.norm(c) < 1e-9:
            continue
        if n is None:
            n = c
        elif n @ c < 0:
            return False
    return True


def compare(rec, key, faces, G, h, t, c):
    V = vertices(G, h)
    if not near_consistent(G, h, V):
        rec.outcome('numerically touching')
        return
    P = [[tuple(float(v) for v in p) for p in f] for f in faces]
    if not V:
        if any(P):
            rec.fail(key + '/empty', 'returns %s for an empty piece: %s' % (P, t), c)
        rec.outcome('empty')
        return
    if not same_points([p for f in P for p in f], V):
        rec.fail(key, 'the points are %s, the vertices %s: %s' % (sorted(set(p for f in P for p in f)), sorted(tuple(map(float, v)) for v in V), t), c)
        return
    FS = [S for S in facets(G, h, V) if spread(S)]
    for S in FS:
        if not any(same_points(p, S) for p in P):
            rec.fail(key + '/face', 'the face %s is missing: %s' % (sorted(tuple(map(float, v)) for v in S), t), c)
            return
    for p in P:
        # every returned polygon lies in one of the bounding planes
        if not any(all(abs(sum(float(a) * b for a, b in zip(g, x)) - float(e)) <= 1e-6 * (1 + abs(float(e))) for x in p) for g, e in zip(G, h)):
            rec.fail(key + '/plane', 'the polygon %s is not part of the boundary: %s' % (p, t), c)
        elif not in_order(p):
            rec.fail(key + '/order', 'the polygon %s is not traversed in order: %s' % (p, t), c)
    rec.outcome('%d vertices' % min(len(V), 12))


def near_consistent(G, h, V):
    """Moving the planes by 1e-9 changes no vertex noticeably (otherwise rounding decides)."""
    e = F(1, 10 ** 9)
    for d in (e, -e):
        W = vertices(G, [v + d for v in h])
        if V and d < 0:
            # sets without inner points vanish when shrunk; their data must be exact
            if not W:
                continue
        if not (all(any(near6(p, v) for v in V) for p in W) and all(any(near6(p, v) for p in W) for v in V)):
            return False
    return True


def near6(p, q):
    return all(abs(x - y) <= TOL * (1 + abs(y)) for x, y in zip(p, q))


def inequalities(rec, items):
    for G, b, box, *s in items:
        s = s[0] if s else F(1)         # the right-hand side and the bounds are multiplied by s
        rec.state()
        rec.edge()
        A_ = np.array([[float(v) for v in g] for g in G])
        b_ = np.array([float(v * s) for v in b])
        sbox = blow(box, s)
        t = 'A=%s, b=%s, bounds=%s' % (A_.tolist(), b_.tolist(), sbox)
        c = 'print(ip.lineqs3D(np.array(%r), np.array(%r), show=False, bounds=%r))' % (A_.tolist(), b_.tolist(), sbox)
        N, h = [[-v for v in g] for g in G], [-v for v in b]
        with rec.case('lineqs3D', 'lineqs3D of ' + t, c, cpu=20):
            a0, b0 = A_.copy(), b_.copy()
            r = [np.array(f) / float(s) for f in ip.lineqs3D(A_, b_, show=False, bounds=sbox)]
            if not (np.array_equal(a0, A_) and np.array_equal(b0, b_)):
                rec.fail('lineqs3D/operands', 'lineqs3D changes its arguments: %s' % t, c)
            if len(t) % 8 == 0:
                q = [np.array(f) / float(s) for f in ip.IntLinIncR3(A_, b_, show=False, bounds=sbox)]
                if [f.tolist() for f in q] != [f.tolist() for f in r]:
                    rec.fail('IntLinIncR3/numbers', 'IntLinIncR3 of the numeric system gives %s, lineqs3D %s: %s' % (q, r, t), c)
            if cone_bounded(G):
                compare(rec, 'lineqs3D', r, N, h, t, c)
            else:
                compare(rec, 'lineqs3D/bounds', r, *boxed(N, h, box), t, c)
        rec.trace()
    rec.sample(t)


def seen(rec, key, faces, N, h, t, c, wide):
    """The part of an unbounded set in a window chosen by the library: exactly the set within the box of the returned
    points, with every face of the set in view."""
    P = np.array([p for f in faces for p in f], dtype=float)
    big = vertices(*boxed(N, h, wide))
    if not big or not near_consistent(*boxed(N, h, wide), big):
        if not big and len(P):
            rec.fail(key + '/empty', 'returns %s for an empty set: %s' % (P.tolist(), t), c)
        return
    if len(P) == 0 or P.shape[-1] != 3 or not np.isfinite(P).all():
        rec.fail(key + '/window', 'returns %s for an unbounded set: %s' % (P.tolist(), t), c)
        return
    V = vertices(N, h)
    snap = lambda x, k: next((v for v in [w[k] for w in V] + [F(x).limit_denominator(10 ** 5)] if abs(float(v) - x) <= 1e-9 * (1 + abs(x))), F(x))
    box = [[snap(float(g(P[:, k])), k) for k in range(3)] for g in (np.min, np.max)]
    for g, e in dict.fromkeys(zip(map(tuple, N), h)):
        S = [v for v in big if sum(p * q for p, q in zip(g, v)) == e]
        if not any(any((b[i] - a[i]) * (d[j] - a[j]) != (b[j] - a[j]) * (d[i] - a[i]) for i, j in ((0, 1), (0, 2), (1, 2)))
                   for a, b, d in itertools.combinations(S, 3)):
            continue        # not a face
        if not any(len(f) >= 3 and all(abs(sum(float(p) * q for p, q in zip(g, x)) - float(e)) <= 1e-6 * (1 + abs(float(e))) for x in f) for f in faces):
            rec.fail(key + '/window', 'the face %s x = %s is out of view: %s, the points are %s' % (tuple(map(float, g)), float(e), t, P.tolist()), c)
            return
    if any(not any(near(p, v) for p in P) for v in V):
        rec.fail(key + '/window', 'a vertex is out of view: %s, the points are %s' % (t, P.tolist()), c)
        return
    compare(rec, key + '/window', faces, *boxed(N, h, box), t, c)


WIDE = ((-10 ** 4,) * 3, (10 ** 4,) * 3)


def windows(rec, items):
    for G, b in items:
        rec.state()
        rec.edge()
        A_ = np.array([[float(v) for v in g] for g in G])
        b_ = np.array([float(v) for v in b])
        t = 'A=%s, b=%s without bounds' % (A_.tolist(), b_.tolist())
        c = 'print(ip.lineqs3D(np.array(%r), np.array(%r), show=False))' % (A_.tolist(), b_.tolist())
        with rec.case('lineqs3D/window', 'lineqs3D of ' + t, c, cpu=20):
            r = [np.array(f) for f in ip.lineqs3D(A_, b_, show=False)]
            seen(rec, 'lineqs3D', r, [[-v for v in g] for g in G], [-v for v in b], t, c, WIDE)
        rec.trace()
    rec.sample(t)


def unbounded_systems(rec, items):
    for A, b, cons in items:
        hs = halfspaces_united if cons == 'uni' else halfspaces_tol
        t = '%s, %s, without bounds' % (text(A, b), cons)
        c = code(A, b, 'ip.IntLinIncR3(A, b, show=False, consistency=%r)' % cons)
        rec.state()
        rec.edge()
        box = ((-9, -7, -5), (8, 6, 11)) if len(t) % 2 else ((-6, -12, -8), (5, 14, 3))
        with rec.case('IntLinIncR3/bounds', 'IntLinIncR3 of %s with bounds %s' % (t, box), c, cpu=30):
            cb = code(A, b, 'ip.IntLinIncR3(A, b, show=False, consistency=%r, bounds=%r)' % (cons, box))
            r = ip.IntLinIncR3(to_ip(ip, A), to_ip(ip, b), show=False, consistency=cons, bounds=box)
            for o, f in zip(ORT, r):
                G, h = hs(A, b, o)
                if not cone_bounded([[-v for v in g] for g in G if any(g)]):
                    G, h = boxed(G, h, box)
                compare(rec, 'IntLinIncR3/bounds', [np.array(x) for x in f], G, h, '%s, orthant %s, bounds %s' % (t, o, box), cb)
        with rec.case('IntLinIncR3/window', 'IntLinIncR3 of ' + t, c, cpu=30):
            r = ip.IntLinIncR3(to_ip(ip, A), to_ip(ip, b), show=False, consistency=cons)
            if len(r) != 8:
                rec.fail('IntLinIncR3/shape', 'IntLinIncR3 returns %d lists: %s' % (len(r), t), c)
                continue
            for o, f in zip(ORT, r):
                seen(rec, 'IntLinIncR3', [np.array(x) for x in f], *hs(A, b, o), '%s, orthant %s' % (t, o), c, WIDE)
        rec.trace()
    rec.sample(t)


def systems(rec, items):
    for A, b, *s in items:
        s = s[0] if s else F(1)
        sb = [(l * s, u * s) for l, u in b]
        for cons in ('uni', 'tol'):
            bd = not unbounded(A, b) if cons == 'uni' else tol_bounded(A, b)
            if not bd:
                continue
            hs = halfspaces_united if cons == 'uni' else halfspaces_tol
            t = '%s, %s' % (text(A, sb), cons)
            c = code(A, sb, 'ip.IntLinIncR3(A, b, show=False, consistency=%r)' % cons)
            rec.state()
            rec.edge()
            with rec.case('IntLinIncR3', 'IntLinIncR3 of ' + t, c, cpu=30):
                ia, ibb = to_ip(ip, A), to_ip(ip, sb)
                before = repr(ia), repr(ibb)
                r = ip.IntLinIncR3(ia, ibb, show=False, consistency=cons)
                if len(r) != 8:
                    rec.fail('IntLinIncR3/shape', 'IntLinIncR3 returns %d lists: %s' % (len(r), t), c)
                    continue
                for o, f in zip(ORT, r):
                    compare(rec, 'IntLinIncR3', [np.array(x) / float(s) for x in f], *hs(A, b, o), '%s, orthant %s' % (t, o), c)
                if (repr(ia), repr(ibb)) != before:
                    rec.fail('IntLinIncR3/operands', 'IntLinIncR3 changes its arguments: %s' % t, c)
        rec.trace()


def rows(rec, items):
    """The helpers that clean a system: unique, non_repeat, clear_zero_rows."""
    for S in items:
        rec.state()
        rec.edge(3)
        a = np.array([r[:-1] for r in S], dtype=float)
        b = np.array([r[-1] for r in S], dtype=float)
        t = 'a=%s, b=%s' % (a.tolist(), b.tolist())
        with rec.case('rows', 'cleaning %s' % t, cpu=5):
            first = list(dict.fromkeys(S))
            x, y = ip.non_repeat(a, b)
            if [tuple(r) + (z,) for r, z in zip(x.tolist(), y.tolist())] != first:
                rec.fail('rows/non_repeat', 'non_repeat gives %s, %s: %s' % (x.tolist(), y.tolist(), t), 'print(ip.non_repeat(np.array(%r), np.array(%r)))' % (a.tolist(), b.tolist()))
            u = ip.unique(a)
            if [tuple(r) for r in u.tolist()] != list(dict.fromkeys(r[:-1] for r in S)):
                rec.fail('rows/unique', 'unique gives %s: %s' % (u.tolist(), t), 'print(ip.unique(np.array(%r)))' % a.tolist())
            x, y, ok = ip.clear_zero_rows(a, b, ndim=a.shape[1])
            zero = [r for r in S if not any(r[:-1])]
            if [tuple(r) + (z,) for r, z in zip(x.tolist(), y.tolist())] != [r for r in S if any(r[:-1])] or bool(ok) != all(r[-1] <= 0 for r in zero):
                rec.fail('rows/clear_zero_rows', 'clear_zero_rows gives %s, %s, %s: %s' % (x.tolist(), y.tolist(), ok, t), 'print(ip.clear_zero_rows(np.array(%r), np.array(%r), ndim=%d))' % (a.tolist(), b.tolist(), a.shape[1]))
            rec.outcome('rows')
        rec.trace()


NORM = [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(0), F(1)), (F(-1), F(0), F(0)), (F(0), F(-1), F(0)), (F(0), F(0), F(-1)),
        (F(-1), F(-1), F(-1)), (F(1), F(2), F(-1)), (F(-2), F(1), F(1)), (F(1), F(2), F(1))]
RH = [F(-2), F(-1), F(0), F(1)]


def ineqs(k):
    i = 0
    for n in (4, 5, 6):
        for rows in itertools.combinations(NORM, n):
            for b in itertools.product(RH, repeat=n):
                i += 1
                if i % k == 0:
                    R, c = list(rows), list(b)
                    if (i // k) % 5 == 1:
                        R, c = R + [tuple(2 * v for v in R[0])], c + [2 * c[0]]
                    elif (i // k) % 5 == 2:
                        # a row of zeros: it holds everywhere or nowhere
                        p = (i // k) // 5 % (n + 1)
                        R, c = R[:p] + [(F(0),) * 3] + R[p:], c[:p] + [F((i // k) // 5 % 3 - 1)] + c[p:]
                    yield R, c


def wide_systems(k):
    """Systems of one, two and three rows with unbounded sets of solutions."""
    R = [[(F(1), F(2)), (F(-1), F(1)), (F(0), F(1))], [(F(1), F(1)), (F(2), F(2)), (F(-1), F(-1))], [(F(-1), F(2)), (F(-2), F(1)), (F(-1), F(1))],
         [(F(1), F(2)), (F(1), F(3)), (F(1), F(1))], [(F(0), F(0)), (F(1), F(2)), (F(0), F(0))]]
    B = [(F(1), F(2)), (F(-2), F(3)), (F(-4), F(-3)), (F(20), F(24))]
    i = 0
    for n in (1, 2, 3):
        for rows in itertools.combinations(R, n):
            for b in itertools.product(B, repeat=n):
                i += 1
                if i % (k * n) == 0:
                    yield [list(r) for r in rows], list(b)


def explore(ctx):
    th = ctx.thorough
    BOX = [((-9, -9, -9), (9, 9, 9)), ((-9, -7, -5), (8, 6, 11)), ((-6, -12, -8), (5, 14, 3)), ((-3, 1, -20), (9, 4, -2))]
    I = [(R, c, BOX[j % 4]) for j, (R, c) in enumerate(ineqs(101 if th else 1009))]
    I += [(R, c, None) for R, c in ineqs(103 if th else 499) if cone_bounded(R)]
    UN = [F(2) ** 34, F(2) ** -8, F(2) ** 24, F(10) ** 6]
    IZ = [x + (UN[j % 4],) for j, x in enumerate(I[::3 if th else 7])]
    ctx.run(inequalities, I + IZ, chunk=8)
    S = list(sys3(601 if th else 2503)) + list(data(3, 3 if th else 19)) + [point(A, b) for A, b in sys3(20011)]
    S += with_zero_row(S[::11], 3)
    W = [(A, [(l - 1, u + 1) for l, u in b]) for A, b in S[::3]]
    SZ = [x + (UN[j % 4],) for j, x in enumerate((S + W)[::3 if th else 7])]
    ctx.run(systems, S + W + SZ, chunk=4)
    U = [(R, [v * q for v in c]) for n in (1, 2, 3, 4) for R in itertools.combinations(NORM, n) if not cone_bounded(R)
         for c in ([x for x in itertools.product(RH, repeat=n)][::1 if n < 3 or th else 11]) for q in ((F(1), F(31, 2)) if n < 3 else (F(31, 2) if sum(c) > 0 else F(1),))]
    U = U[::1 if th else 2]
    ctx.run(windows, U, chunk=8)
    Q = [(A, b, c) for A, b in wide_systems(1 if th else 3) for c in ('uni', 'tol') if (unbounded(A, b) if c == 'uni' else not tol_bounded(A, b))]
    ctx.run(unbounded_systems, Q, chunk=2)
    pool2 = [r + (c,) for r in itertools.product((0.0, 1.0, -2.0), repeat=2) for c in (0.0, 1.0, -2.0)]
    pool3 = [(0.0, 1.0, 0.0, 0.0), (1.0, 2.0, 1.0, 1.0), (0.0, 1.0, 0.0, 1.0), (-1.0, 0.0, -1.0, -1.0), (0.0, 0.0, 0.0, 1.0), (0.0, 0.0, 0.0, -1.0), (0.5, 0.25, 3.0, 7.0)]
    T = list(itertools.product(pool2, repeat=2)) + list(itertools.product(pool2, repeat=3))[::1 if th else 7] + list(itertools.product(pool3, repeat=3))
    ctx.run(rows, T)
    ctx.bounds = {'in_other_units': len(IZ) + len(SZ), 'lists_of_rows': len(T), 'systems_of_inequalities': len(I), 'interval_systems': len(S) + len(W), 'unbounded_without_bounds': len(U) + len(Q)}
    ctx.assumptions = ['points compared to 1e-7 relative', 'systems whose vertices change when the planes move by 1e-9 are not judged']
