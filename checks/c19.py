"""C19: the subdifferential Newton method finds the formal solution."""
from mc import boot
from mc.lsys import *
from mc.kern import k_mul, k_add

ip = boot.load()
import numpy as np
ID = 'C19'
EPS = F(1, 10 ** 9)


def residual(A, b, B):
    """Largest endpoint difference between A x and b in exact Kaucher arithmetic."""
    m = F(0)
    for row, e in zip(A, b):
        s = (F(0), F(0))
        for a, x in zip(row, B):
            s = k_add(s, k_mul(a, x))
        m = max(m, abs(s[0] - e[0]), abs(s[1] - e[1]))
    return m


def dominant_any(A):
    """Strict diagonal dominance after some order of the rows, part by part."""
    return all(len(R) == len(C) and dominant_part([[A[i][j] for j in C] for i in R]) for R, C in parts(A))


def dominant_part(A):
    n = len(A)
    pro = [[(min(e), max(e)) for e in r] for r in A]
    return any(dominant([pro[p] for p in perm]) for perm in itertools.permutations(range(n)))


def systems(rec, items):
    for A, b in items:
        n = len(A)
        if not dominant_any(A):
            continue
        rec.state()
        rec.edge()
        t = text(A, b)
        c = code(A, b, 'ip.Subdiff(A, b)')
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        before = repr(ia), repr(ibb)
        with rec.case('Subdiff', 'Subdiff of ' + t, c):
            r = ip.Subdiff(ia, ibb)
            B = box_of(ip, r, n)
            if B is None:
                rec.fail('Subdiff/shape', 'Subdiff gives %r for %s' % (r, t), c)
                continue
            e = residual(A, b, B)
            if e > EPS * (1 + max(abs(v) for q in b for v in q)):
                rec.fail('Subdiff', 'Subdiff gives %s, A x differs from b by %g: %s' % (show(B), float(e), t), c)
            if (repr(ia), repr(ibb)) != before:
                rec.fail('Subdiff/operands', 'Subdiff changes its arguments: %s' % t)
            rec.outcome('%d %s' % (n, ' '.join('i' if l > u else 'p' for l, u in B)))
        rec.trace()
    rec.sample(t)


D = [(F(3), F(4)), (F(4), F(3)), (F(-4), F(-3)), (F(-3), F(-4)), (fl(3.3), fl(3.7))]
O = [(F(1), F(-1)), (F(-1), F(1)), (F(-1), H), (H, F(-1)), (H, F(1)), (F(-1), -H), (F(0), F(1)), (F(1), F(0)), (F(0), F(0)), (fl(-0.3), fl(0.1)), (F(1), H)]
BB = [(F(-2), F(2)), (F(2), F(-2)), (F(1), F(-3)), (F(-1), F(3)), (F(1), F(2)), (F(-1), F(-2)), (F(0), F(0)), (F(3), F(0)), (fl(0.7), fl(0.9))]


def gen1():
    for d in D + [(F(1), F(2)), (F(-7), F(-1))]:
        for b in BB:
            yield [[d]], [b]


def gen2():
    i = 0
    for d in itertools.product(D, repeat=2):
        for o in itertools.product(O, repeat=2):
            for b in itertools.product(BB, repeat=2):
                i += 1
                A = [[d[0], o[0]], [o[1], d[1]]]
                yield (A[::-1] if i % 7 == 0 else A), list(b)


def gen3(k):
    i = 0
    for d in itertools.product(D, repeat=3):
        for o in itertools.product(O, repeat=3):
            for b in itertools.product(BB, repeat=3):
                i += 1
                if i % k:
                    continue
                A = [[d[0], o[0], o[1]], [o[2], d[1], o[0]], [o[1], o[2], d[2]]]
                yield (A[1:] + A[:1] if i // k % 5 == 0 else A), list(b)


def dense(n, k):
    """Full matrices of n rows whose diagonal outweighs the rest."""
    for i in range(k):
        A = [[O[(i * 3 + p * 5 + q * 7 + p * q) % len(O)] for q in range(n)] for p in range(n)]
        for p in range(n):
            l, u = D[(i + p * (1 + i % 3)) % len(D)]
            A[p][p] = (l * (n - 1), u * (n - 1))
        s = i % n
        yield A[s:] + A[:s], [BB[(i * 2 + p * (1 + i % 4)) % len(BB)] for p in range(n)]


def explore(ctx):
    th = ctx.thorough
    S1 = list(gen1())
    S2 = list(gen2())[::1 if th else 3]
    S3 = list(gen3(211 if th else 4001))
    S = [(A, b) for A, b in sys2() if True][::2 if th else 17]
    Z = list(scaled((S1 + S2 + S3 + S)[::41]))
    W = list(blocks(S2[::101], S3[::3], 1 if th else 11)) + [s for n in (4, 5, 6) for s in dense(n, 990 if th else 99)]
    for s in (W, S1, S2, S3, S, Z):
        ctx.run(systems, s)
    ctx.bounds = {'scaled_by_powers_of_two': len(Z), 'systems_1': len(S1), 'systems_2': len(S2) + len(S), 'systems_3': len(S3), 'systems_4_to_6': len(W), 'matrices': 'strictly diagonally dominant up to row order, proper and improper'}
    ctx.assumptions = ['residual below 1e-9 relative to the right-hand side']
