"""C31: the measure of variability ive, over all corner matrices the random search may meet."""
import math
import warnings
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
warnings.simplefilter('ignore')
ID = 'C31'


def systems(rec, items):
    for A, b in items:
        n, m = len(A), len(A[0])
        ia, ibb = to_ip(ip, A), to_ip(ip, b)
        t = text(A, b)
        before = repr(ia), repr(ibb)
        free = sorted({(i, j) for i in range(n) for j in range(m) if A[i][j][0] != A[i][j][1]})
        conds = []
        for pick in itertools.product((0, 1), repeat=len(free)):
            M = [[float(A[i][j][0]) for j in range(m)] for i in range(n)]
            for (i, j), p in zip(free, pick):
                M[i][j] = float(A[i][j][p])
            conds.append(float(np.linalg.cond(np.array(M))))
        mags = [max(abs(l), abs(u)) for l, u in b]
        if not any(mags):
            continue
        c = code(A, b, 'ip.ive(A, b, N=%d)')
        with rec.case('ive', 'ive of ' + t, c % 40):
            xr, fr = ip.Tol.maximize(ia, ibb)[:2]
            base = math.sqrt(m) * float(fr) * float(np.linalg.norm(xr)) / math.sqrt(sum(float(v) ** 2 for v in mags))
            legal = [base * q for q in conds if math.isfinite(q)]
            best = min(conds)
            state = np.random.get_state()
            # one, two, the default number, and so many corners that every one is met
            for N in (1, 2, None, 40 * len(conds)):
                rec.state()
                rec.edge()
                np.random.seed(N or 5)
                r = float(ip.ive(ia, ibb) if N is None else ip.ive(ia, ibb, N=N))
                ok = lambda w: abs(r - w) <= 1e-6 * (abs(w) + 1e-9)
                if math.isfinite(r) and math.isfinite(best) and not any(ok(w) for w in legal):
                    rec.fail('formula', 'ive(N=%s) is %r; with the condition numbers of the corner matrices it is one of %s: %s' % (N, r, sorted(legal)[:8], t), c % (N or 40))
                if math.isfinite(r) and abs(r) < abs(base) * best * (1 - 1e-6) - 1e-12:
                    rec.fail('below', 'ive(N=%s) is %r, below the value %r for the best corner: %s' % (N, r, base * best, t), c % (N or 40))
                if N and N >= 40 * len(conds) and math.isfinite(best) and not ok(base * best):
                    rec.fail('minimum', 'ive(N=%d) is %r; the smallest condition number of a corner gives %r: %s' % (N, r, base * best, t), c % N)
                if not math.isfinite(r) and all(map(math.isfinite, conds)):
                    rec.fail('finite', 'ive(N=%s) is %r: %s' % (N, r, t), c % (N or 40))
                rec.outcome('ive %s' % ('positive' if r > 0 else 'not positive'))
            np.random.set_state(state)
            if (repr(ia), repr(ibb)) != before:
                rec.fail('operands', 'ive changes its arguments: %s' % t, c % 40)
        rec.trace()
    rec.sample(t)


def explore(ctx):
    th = ctx.thorough
    S = list(over(2, 1, 2)) + list(sys1())[::2] + list(sys2())[::97 if th else 997] + list(data(2, 31 if th else 101))
    S = [(A, b) for A, b in S if sum(l != u for r in A for l, u in r) <= 4]
    S += [(A, [(l - 9, u + 9) for l, u in b]) for A, b in S[::4]]
    S += [point(A, b) for A, b in S[::9]]
    ctx.run(systems, S, chunk=2)
    ctx.bounds = {'systems': len(S), 'corner_matrices_per_system': '2 to 16, all of them'}
    ctx.assumptions = ['with 40 samples per corner every corner is met (probability of a miss below 1e-16)', 'the point of the maximum is the one Tol.maximize returns']
