"""C27: Hansen-Sengupta and Krawczyk never lose a root, whatever the iteration budget.

State = (polynomial or elementary system with interval coefficients, start box, method, budget).
The exact roots are known: constructed, on a rational grid, or vertices of a linear solution set.
"""
import warnings
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C27'
BUD = (0, 1, 2, 3, 6, None)
REFUSE = (Exception, ValueError, ZeroDivisionError, np.linalg.LinAlgError, AssertionError)


# polynomials in m variables: {exponents: (lo, hi)} -----------------------------------------
def mul(p, q):
    v = [a * b for a in p for b in q]
    return min(v), max(v)


def power(x, k):
    lo, hi = x[0] ** k, x[1] ** k
    if k % 2 == 0 and k:
        return (F(0) if x[0] <= 0 <= x[1] else min(lo, hi)), max(lo, hi)
    return lo, hi


def exact(p, X):
    """Exact natural interval extension over the box X."""
    lo = hi = F(0)
    for e, c in p.items():
        t = c
        for x, k in zip(X, e):
            t = mul(t, power(x, k))
        lo, hi = lo + t[0], hi + t[1]
    return lo, hi


def deriv(p, j):
    return {tuple(k - (i == j) for i, k in enumerate(e)): (c[0] * e[j], c[1] * e[j]) for e, c in p.items() if e[j]}


def coef(c):
    return float(c[0]) if c[0] == c[1] else ip.Interval(float(c[0]), float(c[1]))


def evaluate(p, x):
    r = ip.Interval(0.0, 0.0)
    for e, c in p.items():
        t = coef(c)
        for v, k in zip(x, e):
            if k:
                t = t * v ** k
        r = r + t
    return r


def inverse(M):
    n = len(M)
    W = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        k = next((k for k in range(i, n) if W[k][i] != 0), None)
        if k is None:
            return None
        W[i], W[k] = W[k], W[i]
        W[i] = [v / W[i][i] for v in W[i]]
        for r in range(n):
            if r != i:
                W[r] = [a - W[r][i] * b for a, b in zip(W[r], W[i])]
    return [r[n:] for r in W]


def ratio(P, X):
    """Norm of |I - inv(mid J) J| over the box, None for a singular midpoint."""
    n = len(P)
    J = [[exact(deriv(p, j), X) for j in range(n)] for p in P]
    R = inverse([[(l + u) / 2 for l, u in r] for r in J])
    if R is None:
        return None
    rad = [[(u - l) / 2 for l, u in r] for r in J]
    return max(sum(sum(abs(R[i][k]) * rad[k][j] for k in range(n)) for j in range(n)) for i in range(n))


def ptext(P):
    g = lambda c: '%g' % float(c[0]) if c[0] == c[1] else 'ip.Interval(%r, %r)' % (float(c[0]), float(c[1]))
    return ', '.join(' + '.join('*'.join([g(c)] + ['x[%d]**%d' % (j, k) for j, k in enumerate(e) if k]) for e, c in p.items()) for p in P)


def pcode(P, X, call, scalar):
    n = len(P)
    if scalar:
        return 'f = lambda t: (lambda x: %s)([t])\nJ = lambda t: (lambda x: %s)([t])\nx0 = Interval(%r, %r)\nprint(%s)' % (
            ptext(P), ptext([deriv(P[0], 0)]) or '0', float(X[0][0]), float(X[0][1]), call)
    return 'f = lambda x: asinterval([%s])\nJ = lambda x: asinterval([%s])\nx0 = Interval(%r, %r)\nprint(%s)' % (
        ptext(P), ', '.join('[%s]' % ', '.join(ptext([deriv(p, j)]) or '0' for j in range(n)) for p in P),
        [float(l) for l, u in X], [float(u) for l, u in X], call)


def boxes(r, m, scalar):
    """Exact endpoints, None for an empty (nan) answer, False for something else."""
    if scalar:
        L = [r]
    else:
        if not isinstance(r, ip.ArrayInterval) or tuple(r.shape) != (m,):
            return False
        L = list(r.data)
    try:
        B = [(val(x.a), val(x.b)) for x in L]
    except AttributeError:
        return False
    return None if any(l is None or u is None for l, u in B) else B


def explore_case(rec, key, f, J, X, roots, must, sharp, t, mk, scalar):
    """All budgets of both methods.  roots: exact points of the box that are solutions."""
    m = len(X)
    for name in ('HansenSengupta', 'Krawczyk'):
        fun = getattr(ip, name)
        last = None
        for q in BUD:
            rec.state()
            rec.edge()
            kw = {} if q is None else {'maxiter': q}
            c = mk('%s(f, J, x0%s)' % (name, '' if q is None else ', maxiter=%d' % q))
            k = '%s/%s' % (key, name)
            with rec.case(k, '%s, maxiter=%s of %s' % (name, q, t), c, cpu=20):
                if scalar:
                    x0 = ip.Interval(float(X[0][0]), float(X[0][1]))
                else:
                    x0 = ip.Interval([float(l) for l, u in X], [float(u) for l, u in X])
                before = repr(x0)
                try:
                    r = fun(f, J, x0, **kw)
                except REFUSE as e:
                    if isinstance(e, (TypeError, AttributeError, NameError)):
                        raise
                    none = type(e) is Exception and ('solution' in str(e) or 'решений' in str(e))
                    if none and roots:
                        rec.fail(k + '/lost', '%s, maxiter=%s says %r although %s is a solution: %s' % (name, q, str(e), list(map(float, roots[0])), t), c)
                    elif must and roots:
                        rec.fail(k + '/refused', '%s, maxiter=%s refuses (%s: %s) although the problem is regular: %s' % (name, q, type(e).__name__, e, t), c)
                    rec.outcome('refused')
                    continue
                if repr(x0) != before:
                    rec.fail(k + '/x0', '%s changes the start box to %r: %s' % (name, x0, t), c)
                B = boxes(r, m, scalar)
                if B is False:
                    rec.fail(k + '/shape', '%s returns %r: %s' % (name, r, t), c)
                    continue
                if B is None:
                    if roots:
                        rec.fail(k + '/lost', '%s, maxiter=%s finds nothing although %s is a solution: %s' % (name, q, list(map(float, roots[0])), t), c)
                    rec.outcome('empty')
                    continue
                bad = next((z for z in roots if any(v < l or v > u for v, (l, u) in zip(z, B))), None)
                if bad is not None:
                    rec.fail(k + '/lost', '%s, maxiter=%s returns %r without the solution %s: %s' % (name, q, r, list(map(float, bad)), t), c)
                if any(l < x - F(1, 10 ** 14) * (1 + abs(x)) or u > y + F(1, 10 ** 14) * (1 + abs(y)) for (l, u), (x, y) in zip(B, X)):
                    rec.fail(k + '/outside', '%s, maxiter=%s returns %r, not part of the start box: %s' % (name, q, r, t), c)
                if last is not None and any(l < x or u > y for (l, u), (x, y) in zip(B, last)):
                    rec.fail(k + '/wider', '%s, maxiter=%s returns %r, more than with fewer iterations: %s' % (name, q, r, t), c)
                last = B
                if q is None and sharp and roots and any(u - l > F(1, 10 ** 9) * max([1] + [abs(v) for v in roots[0]]) for l, u in B):
                    rec.fail(k + '/sharp', '%s returns %r for a single regular solution: %s' % (name, r, t), c)
                rec.outcome('%s %s' % (name, 'root inside' if roots else 'no known root'))
    rec.trace()


def polynomials(rec, items):
    for P, X, known, scalar in items:
        n = len(P)
        f = (lambda x: evaluate(P[0], [x])) if scalar else lambda x: ip.asinterval([evaluate(p, x) for p in P])
        D = [[deriv(p, j) for j in range(n)] for p in P]
        J = (lambda x: evaluate(D[0][0], [x])) if scalar else lambda x: ip.asinterval([[evaluate(d, x) for d in r] for r in D])
        roots = [z for z in known if all(l <= v <= u for v, (l, u) in zip(z, X))]
        q = ratio(P, X)
        must = q is not None and q < F(9, 10)
        sharp = must and all(c[0] == c[1] for p in P for c in p.values())
        t = '%s in %s' % (ptext(P), ['[%g, %g]' % (float(l), float(u)) for l, u in X])
        explore_case(rec, 'poly', f, J, X, roots, must, sharp, t, lambda call: pcode(P, X, call, scalar), scalar)
    rec.sample(t)


def linear(rec, items):
    """The linear system A x = b as a nonlinear one: nothing of the solution set inside the box is lost."""
    for (A, b), X in items:
        m = len(A)
        roots = sorted(clipped_points(A, b, X))
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        E = lambda j: tuple(int(i == j) for i in range(m))
        P = [{**{E(j): A[i][j] for j in range(m)}, (0,) * m: (-b[i][1], -b[i][0])} for i in range(m)]
        q = ratio(P, X)
        t = text(A, b) + ' as a nonlinear system in %s' % (['[%g, %g]' % (float(l), float(u)) for l, u in X],)
        mk = lambda call: code(A, b, call).replace('print(', 'f, J, x0 = (lambda x: A @ x - b), (lambda x: A), Interval(%r, %r)\nprint(' % (
            [float(l) for l, u in X], [float(u) for l, u in X]))
        explore_case(rec, 'linear', lambda x: ia @ x - ibb, lambda x: ia, X, roots, q is not None and q < F(9, 10), False, t, mk, False)


def clipped_points(A, b, X):
    """Vertices of the orthant pieces of the united solution set cut by the box."""
    out = set()
    m = len(A[0])
    for s in itertools.product((1, -1), repeat=m):
        G, h = halfspaces_united(A, b, s)
        E = [[F(int(i == j)) for i in range(m)] for j in range(m)]
        for v in vertices(list(G) + E + [[-z for z in e] for e in E], list(h) + [u for l, u in X] + [-l for l, u in X]):
            out.add(tuple(v))
    return out


ELEM = {
    'sin': ('np.sin(x)', 'np.cos(x)', [F(0)]),
    'exp': ('np.exp(x) - 1', 'np.exp(x)', [F(0)]),
    'log': ('np.log(x)', '1 / x', [F(1)]),
    'sqrt': ('np.sqrt(x) - 1', '0.5 / np.sqrt(x)', [F(1)]),
    'expx': ('x * np.exp(x)', '(1 + x) * np.exp(x)', [F(0)]),
    'sin2': ('2 * x - np.sin(x)', '2 - np.cos(x)', [F(0)]),
    'inv': ('1 / x - 2', '-1 / x**2', [H]),
    'cosx': ('1 - np.cos(x) + x', 'np.sin(x) + 1', [F(0)]),
    'tanlike': ('x / (1 + x**2)', '(1 - x**2) / (1 + x**2)**2', [F(0)]),
}


def elementary(rec, items):
    for name, X in items:
        fs, js, known = ELEM[name]
        f, J = eval('lambda x: ' + fs, {'np': np}), eval('lambda x: ' + js, {'np': np})
        roots = [(z,) for z in known if X[0] <= z <= X[1]]
        t = '%s in [%g, %g]' % (fs, float(X[0]), float(X[1]))
        mk = lambda call: 'f = lambda x: %s\nJ = lambda x: %s\nx0 = Interval(%r, %r)\nprint(%s)' % (fs, js, float(X[0]), float(X[1]), call)
        explore_case(rec, 'elementary', f, J, [X], roots, False, False, t, mk, True)


def from_roots(R, a):
    p = [a]
    for r in R:
        q = [F(0)] * (len(p) + 1)
        for i, v in enumerate(p):
            q[i + 1] += v
            q[i] -= r * v
        p = q
    return p


ENDS = [F(-3), F(-2), F(-5, 4), -H, F(0), F(1, 8), F(3, 4), F(1), F(5, 2), F(4)]
ROOTS = [F(-2), F(-1), -H, F(0), F(1, 4), F(1), F(3)]


def scalars(k):
    i = 0
    for n in (1, 2, 3):
        for R in itertools.combinations(ROOTS, n):
            for a in (F(1), F(-3), H):
                for w in ((F(0), F(0)), (F(-1, 8), F(1, 8)), (F(0), F(1))):
                    p = from_roots(R, a)
                    P = {(j,): (c, c) for j, c in enumerate(p) if c}
                    P[(0,)] = (p[0] + w[0], p[0] + w[1])
                    known = sorted(set(R) | ({g for g in (F(j, 16) for j in range(-48, 65)) if -w[1] <= sum(c * g ** j for j, c in enumerate(p)) <= -w[0]} if w[0] != w[1] else set()))
                    for X in itertools.combinations(ENDS, 2):
                        i += 1
                        if i % k == 0:
                            yield [P], [X], [(z,) for z in known], (i // k) % 4 != 0


E2 = {'x': (1, 0), 'y': (0, 1), 'xx': (2, 0), 'yy': (0, 2), 'xy': (1, 1), 'xxx': (3, 0), 'xyy': (1, 2)}
FORMS = [{'xx': 1, 'yy': 1}, {'x': 1, 'yy': -1}, {'xy': 1, 'x': 2}, {'xx': 1, 'y': -3}, {'xxx': 1, 'y': 1}, {'x': 2, 'y': 1}, {'xyy': -1, 'y': 2, 'x': 4}, {'x': -3, 'xy': F(1, 4)}]
PTS = [(H, F(3, 4)), (F(1), F(1)), (F(-1), H), (F(0), F(0)), (F(3, 2), F(-1, 4))]
SIZES = [(F(1, 4), F(1, 4)), (H, F(1, 8)), (F(1, 16), F(0)), (F(1), F(3, 4)), (F(0), F(1, 4))]
WID = [(F(0), F(0)), (F(1, 8), F(1, 8)), (F(0), F(1, 2))]


def point_value(g, z):
    return sum(F(c) * z[0] ** E2[e][0] * z[1] ** E2[e][1] for e, c in g.items())


def planes(k):
    i = 0
    for g1, g2 in itertools.permutations(FORMS, 2):
        for z in PTS:
            for w1, w2 in itertools.product(WID, repeat=2):
                for s1, s2 in itertools.product(SIZES, repeat=2):
                    i += 1
                    if i % k:
                        continue
                    P, V = [], []
                    for g, w in ((g1, w1), (g2, w2)):
                        v = point_value(g, z)
                        p = {E2[e]: (F(c), F(c)) for e, c in g.items()}
                        p[(0, 0)] = (-v - w[0], -v + w[1])
                        P.append(p)
                        V.append((v - w[1], v + w[0]))
                    X = [(z[0] - s1[0], z[0] + s1[1]), (z[1] - s2[0], z[1] + s2[1])]
                    if any(l == u for l, u in X):
                        continue
                    known = [z]
                    if w1 != WID[0] or w2 != WID[0]:
                        G = [[l + (u - l) * F(j, 8) for j in range(9)] for l, u in X]
                        for y in itertools.product(*G):
                            if all(lo <= point_value(g, y) <= hi for g, (lo, hi) in zip((g1, g2), V)):
                                known.append(y)
                    yield P, X, known, False


def spaces(k):
    """Three variables: x_i^2-type diagonal with weak coupling."""
    i = 0
    for z in itertools.product((H, F(1), F(-3, 4)), repeat=3):
        for a in itertools.product((F(0), F(1, 4), F(-1, 2)), repeat=3):
            for s in SIZES[:3]:
                i += 1
                if i % k:
                    continue
                P = []
                for r in range(3):
                    e2, en = [0] * 3, [0] * 3
                    e2[r], en[(r + 1) % 3] = 2, 1
                    v = z[r] ** 2 + a[r] * z[(r + 1) % 3]
                    p = {tuple(e2): (F(1), F(1)), (0, 0, 0): (-v, -v)}
                    if a[r]:
                        p[tuple(en)] = (a[r], a[r])
                    P.append(p)
                yield P, [(v - s[0], v + s[1] + F(1, 32)) for v in z], [z], False


SCALES = (F(2) ** 12, F(2) ** -12, F(2) ** 21)


def rescaled(S):
    """The same problems in a variable measured in other units: wide or tiny boxes."""
    for i, (P, X, known, scalar) in enumerate(S):
        s = SCALES[i % len(SCALES)]
        yield [{e: tuple(v / s ** sum(e) for v in c) for e, c in p.items()} for p in P], \
            [(l * s, u * s) for l, u in X], [tuple(v * s for v in z) for z in known], scalar


def explore(ctx):
    th = ctx.thorough
    S = list(scalars(3 if th else 37))
    N = list(planes(7 if th else 149))
    D = list(spaces(1 if th else 9))
    Z = list(rescaled((S + N + D)[::3 if th else 7]))
    ctx.run(polynomials, S + N + D)
    ctx.run(polynomials, Z)
    W = [[(F(-9), F(9))] * 2, [(F(-1), H), (F(0), F(3))], [(F(0), F(1)), (F(-2), F(-1, 4))]]
    Ls = [(s, X) for i, s in enumerate(list(sys2())[::11 if th else 199]) for X in W[i % 3:i % 3 + 1]]
    ctx.run(linear, Ls)
    El = [(n, X) for n in ELEM for X in itertools.combinations(ENDS, 2) if n not in ('log', 'sqrt', 'inv') or X[0] > 0]
    ctx.run(elementary, El)
    ctx.bounds = {'problems_in_other_units': len(Z), 'scalar_problems': len(S), 'plane_problems': len(N), 'space_problems': len(D), 'linear_problems': len(Ls), 'elementary_problems': len(El), 'budgets': [q for q in BUD]}
    ctx.assumptions = ['func and J return intervals or interval arrays that enclose the exact values', 'an answer is required when |I - inv(mid J) J| is below 0.9']
