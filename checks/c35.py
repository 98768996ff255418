"""C35: overlapping calls do not disturb each other.

Two calls of the public API run as two threads under a scheduler of ours: trace events hand
control over at chosen lines of the library, so that every execution is one exactly chosen
schedule.  With one preemption, A is stopped at each line of the library that it reaches (its first and
its last visit; thorough: the first six and the last), B runs to its end, A goes on.  With two,
B is stopped as well and finishes after A.  Re-entrance is explored in the same way: at every
call of a callback (objective of ralgb5 and globopt, function and derivative of the root
finders) another call runs inside it, in the same thread.

Reduction: the variables that two calls may share belong to a file of the library and are reached
by code of that file.  So A is stopped at lines of the files that it has in common with B, and B
ranges over the calls that have the file in common with A (quick: those that use the fewest files);
for the files of the kernel, which all calls share, B is one sequence of all calls of the kernel.
"""
import os
import sys
import threading
from mc import boot
from checks.c12 import *

ID = 'C35'
ROOT = os.path.join(os.path.realpath(boot.REPO), 'intvalpy') + os.sep
KERNEL = {'real_intervals.py', 'utils.py', 'preprocessing.py', 'new_objects.py', 'elementary_functions.py', 'abstract.py'}


def K3():
    return I([[4, -1, 0], [0, 3, -1], [-1, 0, 5]], [[5, 1, 0.5], [1, 4, -0.5], [0, 0.5, 4.5]], sortQ=False)


def optimum(f, how, **kw):
    def go(A, b, x, w):
        return f.value(A, b, x, weight=w), getattr(f, how)(A, b, x0=x, weight=w, maxiter=2, **kw)
    return go


def bounded(f, how):
    return lambda A, b, c: getattr(f, how)(A, b, linear_constraint=c, maxiter=2)


def light(basis, order, **kw):
    def go(X, y, w):
        m = ip.ISPAE(alpha=0.25, beta=2, basis=basis)
        X, y, w = X[:2], y[:2], w[:2]
        m.fit(X, y, order=order, weight=w, maxiter=1, **kw)
        return dict(m.estimator), m.predict(X)
    return go


def big(a):
    return I(np.array([[30.0 * (i == j) - 1.5 + 0.25 * i for j in range(4)] for i in range(4)]) + a,
             np.array([[30.0 * (i == j) + 1 + 0.125 * j for j in range(4)] for i in range(4)]) + a)


def b4():
    return I([1, -7, 20, 3], [2, 9, 25, 3.5])


def A43():
    return I([[1, -2, 0], [0.5, 3, 1], [2, 2, -1], [-4, 0, 1]], [[2, -1, 0.5], [1, 4, 1], [2.5, 3, 0], [-3, 1, 2]])


def x3():
    return np.array([0.3, -0.2, 0.1])


def w4():
    return np.array([2.0, 1.0, 0.25, 3.0])


def root(fun, jac, **kw):
    return lambda x: getattr(ip, fun)(*jac, x, **kw)


def g2(x):
    return ip.asinterval([x[0] - x[1] ** 2 / 4 - 1, x[1] - x[0] / 8])


def J2b(x):
    return ip.asinterval([[1, -x[1] / 2], [-0.125, 1]])


def bowl(x):
    d = x - [-4, 3, 0.5]
    return float(3 * np.max(abs(d))), np.where(abs(d) == np.max(abs(d)), 3 * np.sign(d), 0)


MORE = {
    'Gauss4': (lambda: [big(0), b4()], ip.Gauss, 1e-9),
    'HBR4': (lambda: [big(0), b4()], ip.HBR, 1e-9),
    'Gauss_Seidel4': (lambda: [big(0), b4()], lambda A, b: ip.Gauss_Seidel(A, b, maxiter=4), 1e-9),
    'Rohn3': (lambda: [A43(), 3 * b4()], ip.Rohn, 1e-7),
    'PSS': (lambda: [A2(), b2()], lambda A, b: ip.PSS(A, b, maxiter=2), 1e-7),
    'PSS over': (lambda: [A32(), bb(), np.array([1])], lambda A, b, nu: ip.PSS(A, b, nu=nu, maxiter=2), 1e-7),
    'PPS': (lambda: [A2(), b2()], lambda A, b: ip.PPS(A, b, maxiter=1), 1e-7),
    'PPS b': (lambda: [3 * A2(), b2() + I([10, -4], [11, -4])], lambda A, b: ip.PPS(A, b, maxiter=1), 1e-7),
    'Subdiff3': (lambda: [K3(), b3()], ip.Subdiff, 1e-9),
    'Neumaier3': (lambda: [A43(), b4(), x3(), w4()], ip.Neumaier, 1e-9),
    'ralgb5': (lambda: [np.array([5.0, -3.0])], lambda x: ip.ralgb5(quad, x, maxiter=3), 1e-7),
    'ralgb5 3': (lambda: [np.array([5.0, -3.0, 1.0])], lambda x: ip.ralgb5(bowl, x, maxiter=3), 1e-7),
    'lineqs3D unbounded': (lambda: [np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]]), np.array([3.0, -2, 7])], lambda A, b: ip.lineqs3D(A, b, show=False), 1e-7),
    'IntLinIncR2 far': (lambda: [I([[1, 0.5]], [[1.5, 2]]), I([-90], [-70])], lambda A, b: ip.IntLinIncR2(A, b, show=False), 1e-7),
    'IntLinIncR3': (lambda: [I([[1, 0, 0]], [[1, 0, 0]]), I([2], [3])], lambda A, b: ip.IntLinIncR3(A, b, show=False), 1e-7),
    'HansenSengupta2b': (lambda: [I([0.5, -1], [2, 1])], root('HansenSengupta', (g2, J2b), maxiter=3), 1e-9),
    'HansenSengupta2': (lambda: [I([0.5, 0.5], [1, 1])], root('HansenSengupta', (f2, J2), maxiter=3), 1e-9),
    'Krawczyk2b': (lambda: [I([0.5, -1], [2, 1])], root('Krawczyk', (g2, J2b), maxiter=3), 1e-9),
    'globopt': (lambda: [I([-1, -2], [2, 1])], lambda x: ip.globopt(lambda t: t[0] ** 2 + t[1] - t[0] * t[1], x, maxiter=3), 1e-9),
    'globopt1': (lambda: [I([3], [9])], lambda x: ip.globopt(lambda t: (t[0] - 5) ** 2 + 7, x, maxiter=2), 1e-9),
    'WILS': (lambda: [A32(), bb(), w3(), cons()], wils(maxiter=2), 1e-6),
    'WILS l1': (lambda: [A32(), bb(), w3()], wils('Uss', 'l1', maxiter=2), 1e-6),
    'WILS 3': (lambda: [A43(), b4(), w4()], wils('Uni', 'inf', maxiter=2), 1e-6),
    'ISPAE': (lambda: [XD(), y4(), np.array([1.0, 2, 1, 3])], light('monom', 2), 1e-6),
    'ISPAE laguerre': (lambda: [XD(), y4(), np.array([1.0, 2, 1, 3])], light('laguerre', 1, objective='Uni', norm='l1', bias=False), 1e-6),
    'ISPAE hermite': (lambda: [XD(), 2 * y4(), np.array([1.0, 2, 1, 3])], light('hermite', 1, norm='l1'), 1e-6),
}
for _n, _f in (('Tol', ip.Tol), ('Uni', ip.Uni), ('Uss', ip.Uss), ('ChebNorm', ip.ChebNorm)):
    _how = 'minimize' if _n == 'ChebNorm' else 'maximize'
    MORE[_n] = (lambda: [A32(), bb(), np.array([0.1, 0.2]), w3()], optimum(_f, _how), 1e-7)
    MORE[_n + '3'] = (lambda: [A43(), b4(), x3(), w4()], optimum(_f, _how), 1e-7)
    if _n != 'Uni':
        MORE[_n + ' constrained'] = (lambda: [8 * A32(), bb(), cons()], bounded(_f, _how), 1e-7)
TABLE = {k: v for k, v in CALLS.items() if k not in RANDOM}
TABLE.update(MORE)
ALL = sorted(TABLE)


def run_call(name, args=None):
    make, f, tol = TABLE[name]
    args = make() if args is None else args
    try:
        return canon(f(*args))
    except Exception as e:
        return ('raises', type(e).__name__, str(e)[:80])


# one traced call ---------------------------------------------------------------------------------
class Stop:
    """Trace the lines of the library in this thread until `target` (file, line, visit)."""

    def __init__(self, target, action):
        self.target, self.action = target, action
        self.seen = {}
        self.files = set()
        self.hit = False

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(ROOT):
            return None
        self.files.add(os.path.basename(fn))
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            k = frame.f_code.co_filename[len(ROOT):], frame.f_lineno
            n = self.seen[k] = self.seen.get(k, 0) + 1
            if self.target is None:
                if self.action is not None:
                    self.action(k, n)
            elif (k, n) == self.target:
                sys.settrace(None)
                self.hit = True
                self.action()
                return None
        return self.line


def traced(name, target, action, args=None):
    s = Stop(target, action)
    sys.settrace(s.glob)
    try:
        out = run_call(name, args)
    finally:
        sys.settrace(None)
    return out, s


def profile(rec, items):
    """The lines that each call visits, in a process that has called nothing else."""
    for name in items:
        out = run_call(name)
        o, s = traced(name, None, None, TABLE[name][0]())
        rec.succ[name] = (out, o, sorted(s.seen.items()), sorted(s.files))
        rec.state()
        rec.edge()


class Other(threading.Thread):
    """The second thread: the calls `names`, stopped at `target` of the first of them if given."""
    wait = 3.0

    def __init__(self, names, target=None, args=None):
        super().__init__(daemon=True)
        self.names, self.target, self.args = names, target, args
        self.out = []
        self.paused, self.resume = threading.Event(), threading.Event()

    def run(self):
        try:
            for k, n in enumerate(self.names):
                if self.target is not None and k == 0:
                    out, s = traced(n, self.target, self.pause, TABLE[n][0]())
                else:
                    out = run_call(n, self.args if k == 0 else None)
                self.out.append((n, out))
            self.out.append(('rounding', rounding()))
        finally:
            self.paused.set()

    def pause(self):
        self.paused.set()
        self.resume.wait(60)

    def step(self):
        """Run until it stops at its own point or ends.  A library that excludes overlap by a lock
        makes this thread wait: the first one goes on then."""
        self.start()
        if not self.paused.wait(Other.wait):
            Other.wait = 0.02

    def finish(self):
        self.resume.set()
        self.join(120)
        return self.out if not self.is_alive() else self.out + [('stuck', None)]


def rounding():
    return environment()[:6]


def compare(rec, key, what, out, others, base, env):
    name = key[0]
    if not same_canon(out, base[name], TABLE[name][2]):
        rec.fail('disturbed/%s' % name, 'the call %s gives %s, alone it gives %s' % (what, out, base[name]))
    for n, o in others:
        if n == 'rounding':
            if o != env:
                rec.fail('rounding/thread', 'rounding in the second thread, the call %s: %s' % (what, o))
        elif n == 'stuck':
            rec.fail('stuck/%s' % name, 'the second thread does not finish, the call %s' % what)
        elif not same_canon(o, base[n], TABLE[n][2]):
            rec.fail('disturbed/%s' % n, 'the call %s gives %s, alone it gives %s; it overlaps in time as follows: %s' % (n, o, base[n], what))
    if rounding() != env:
        rec.fail('rounding', 'rounding after the call %s: %s' % (what, rounding()))


def points(prof, name, visits):
    """Schedule points of a call: the first visits of each line and the last one."""
    out = []
    for k, n in prof[name][2]:
        v = set(range(1, min(n, visits) + 1)) | ({n} if visits else set())
        out += [(k, i) for i in sorted(v)]
    return out


def one(rec, items, prof, base, env):
    """One preemption: A up to a point, the others completely, the rest of A."""
    for name, others, target, shared in items:
        rec.state()
        rec.edge(1 + len(others))
        what = '%s stopped at %s:%d (visit %d) while %s %s' % (name, target[0][0], target[0][1], target[1], ', '.join(others[:4]), 'with the same arguments runs' if shared else 'run')
        with rec.case('overlap', 'the call ' + what, cpu=90):
            args = TABLE[name][0]()
            before = canon(args)
            t = Other(others, None, args if shared else None)
            out, s = traced(name, target, t.step, args)
            got = t.finish() if s.hit else []
            if not s.hit:
                rec.outcome('point not reached')
            compare(rec, (name,), what, out, got, base, env)
            if canon(args) != before:
                rec.fail('operands/%s' % name, 'the call %s changes its arguments: %s -> %s' % (what, before, canon(args)))
        rec.trace()
        rec.outcome('one preemption')
    rec.sample(what)


def two(rec, items, prof, base, env):
    """Two preemptions: A up to p, B up to q, the rest of A, the rest of B."""
    for name, other, ps, qs in items:
        for p in ps:
            for q in qs:
                rec.state()
                rec.edge(2)
                what = '%s stopped at %s:%d (visit %d), %s stopped at %s:%d (visit %d), then the rest of both' % (
                    name, p[0][0], p[0][1], p[1], other, q[0][0], q[0][1], q[1])
                with rec.case('overlap2', 'the call ' + what, cpu=90):
                    t = Other([other], q)
                    out, s = traced(name, p, t.step, TABLE[name][0]())
                    got = t.finish() if s.hit else []
                    compare(rec, (name,), what, out, got, base, env)
                rec.trace()
        rec.outcome('two preemptions', len(ps) * len(qs))
    rec.sample(what)


def intact(rec, items, prof, base, env):
    """At every visited line of the call: its arguments as given, rounding to nearest."""
    for name in items:
        args = TABLE[name][0]()
        before = canon(args)
        bad = []

        def look(k, n):
            if n <= 3 and not bad:
                rec.state()
                rec.edge()
                sys.settrace(None)
                if canon(args) != before:
                    bad.append((k, 'arguments', before, canon(args)))
                elif rounding() != env:
                    bad.append((k, 'rounding', env, rounding()))
                sys.settrace(s.glob)
        with rec.case('during', 'during the call %s' % name, cpu=90):
            s = Stop(None, look)
            sys.settrace(s.glob)
            try:
                run_call(name, args)
            finally:
                sys.settrace(None)
            for k, w, x, y in bad:
                rec.fail('during/%s' % name, 'while %s is at %s:%d, its %s are not as before: %s -> %s' % (name, k[0], k[1], w, x, y))
        rec.trace()
        rec.outcome('observed')


# re-entrance ----------------------------------------------------------------------------------------
def hooked(kind):
    """The same problems, with `tick` called in each callback."""
    def make(tick):
        def w(f):
            def g(*a):
                r = f(*a)
                tick()
                return r
            return g

        def pre(f):
            def g(*a):
                tick()
                return f(*a)
            return g
        x = TABLE[kind][0]()[0]
        if kind.startswith('ralgb5'):
            f = bowl if kind.endswith('3') else quad
            return lambda d: ip.ralgb5(d(f), x, maxiter=3), (w, pre)
        if kind.startswith('globopt'):
            f = (lambda t: (t[0] - 5) ** 2 + 7) if kind.endswith('1') else (lambda t: t[0] ** 2 + t[1] - t[0] * t[1])
            return lambda d: ip.globopt(d(f), x, maxiter=2 if kind.endswith('1') else 3), (w, pre)
        fun = 'HansenSengupta' if kind.startswith('H') else 'Krawczyk'
        f, j, kw = {'2b': (g2, J2b, {'maxiter': 3}), '2': (f2, J2, {'maxiter': 3 if fun[0] == 'H' else 4})}.get(
            kind[len(fun):], (fsq, lambda t: 2 * t, {}))
        return lambda d: getattr(ip, fun)(d(f), d(j), x, **kw), (w, pre)
    return make


CALLBACKS = ['ralgb5', 'ralgb5 3', 'globopt', 'globopt1', 'HansenSengupta', 'HansenSengupta2', 'HansenSengupta2b', 'Krawczyk', 'Krawczyk2', 'Krawczyk2b']


def nested(rec, items, base, env, light_ones, limit):
    for kind, inner in items:
        for side in (0, 1):
            n = [0]

            def count():
                n[0] += 1
            with rec.case('nested', '%s' % kind, cpu=60):
                go, deco = hooked(kind)(count)
                go(deco[side])
            total = n[0]
            if not total:
                rec.fail('nested/none/%s' % kind, '%s never calls its function' % kind)
                continue
            for at in sorted(set(range(1, min(total, limit) + 1)) | {total}):
                rec.state()
                rec.edge(2)
                inside = light_ones if inner is None else [inner]
                what = '%s with a call of %s inside its callback number %d' % (kind, ', '.join(inside[:4]), at)
                with rec.case('nested', what, cpu=90):
                    n[0] = 0
                    got = []

                    def tick():
                        n[0] += 1
                        if n[0] == at:
                            got.extend((q, run_call(q)) for q in inside)
                    go, deco = hooked(kind)(tick)
                    try:
                        out = canon(go(deco[side]))
                    except Exception as e:
                        out = ('raises', type(e).__name__, str(e)[:80])
                    compare(rec, (kind,), what, out, got, base, env)
                rec.trace()
                rec.outcome('nested')


HEAVY = {'IntLinIncR3', 'PPS', 'PPS b', 'ISPAE hermite'}


def cover(prof, f, names):
    """A few of the calls that together visit every line of file f that any of them visits."""
    lines = {n: {k for k, v in prof[n][2] if os.path.basename(k[0]) == f} for n in names}
    cost = {n: sum(v for k, v in prof[n][2]) for n in names}
    got, out = set(), []
    while True:
        left = [n for n in names if lines[n] - got]
        if not left:
            return out
        n = max(left, key=lambda n: (len(lines[n] - got) / (500 + cost[n]), n))
        out.append(n)
        got |= lines[n]


def explore(ctx):
    th = ctx.thorough
    env = rounding()
    prof = {}
    for r in ctx.run(profile, ALL, chunk=1, collect=True):
        prof.update(r.succ)
    base = {}
    for n in ALL:
        if n not in prof:
            ctx.rec.fail('alone/%s' % n, 'the call %r alone gives no answer' % n)
            return
        base[n] = prof[n][0]
        if not same_canon(prof[n][0], prof[n][1], TABLE[n][2]):
            ctx.rec.fail('repeat/%s' % n, 'the call %r gives %s the first and %s the second time' % (n, prof[n][0], prof[n][1]))
            return
    files = {n: set(prof[n][3]) - KERNEL for n in ALL}
    kernel = [n for n in ALL if not files[n]]
    items, pairs = [], []
    for n in ALL:
        ps = points(prof, n, 6 if th else 1)
        first = ps if th else [p for p in ps if p[1] == 1]
        if n in HEAVY and not th:
            first = [p for p in first if os.path.basename(p[0][0]) in files[n]]
        for p in first:
            items.append((n, (n,), p, True))
            if os.path.basename(p[0][0]) in KERNEL:
                items.append((n, tuple(m for m in kernel if m != n), p, False))
        for f in sorted(files[n]):
            sharing = [m for m in ALL if f in files[m]]
            least = min(len(files[m]) for m in sharing)
            mates = [m for m in sharing if m != n and (th or m != 'IntLinIncR3' and len(files[m]) == least)]
            here = [p for p in ps if os.path.basename(p[0][0]) == f]
            alone = mates if th else cover(prof, f, mates)[:1 if n in HEAVY else 5]
            for p in here:
                if len(mates) > 1 and (th or n not in HEAVY):
                    items.append((n, tuple(mates), p, False))
                if p in first:
                    items += [(n, (m,), p, False) for m in alone]
            pairs += [(n, m, f) for m in cover(prof, f, mates)[:4] + [n]]
    ctx.bounds = {'calls': len(ALL), 'schedules with one preemption': len(items), 'pairs of calls with a file in common': len(pairs)}
    ctx.run(one, items, prof, base, env, chunk=60)
    ctx.run(intact, ALL, prof, base, env, chunk=1)
    ctx.run(nested, [(k, m) for k in CALLBACKS for m in CALLBACKS + [None]], base, env, [n for n in ALL], 30 if th else 3, chunk=1)
    if th:
        deep = []
        for n, m, f in pairs:
            if n in HEAVY or m in HEAVY:
                continue
            ps, qs = ([p for p in points(prof, k, 1) if p[1] == 1 and os.path.basename(p[0][0]) == f] for k in (n, m))
            deep += [(n, m, [p], qs) for p in ps]
        ctx.bounds['schedules with two preemptions'] = sum(len(d[3]) for d in deep)
        ctx.run(two, deep, prof, base, env, chunk=4)
    ctx.assumptions = ['the second thread starts where the first one is stopped: points are lines of Python code of the library, the compiled kernel runs without interruption (it holds the interpreter lock)',
                       'kernel results are compared exactly, results of solvers and optimizers up to 1e-9 and 1e-6']
