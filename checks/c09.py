"""C09: construction and conversion: every documented input form gives the documented intervals."""
import itertools
from mc import boot
from mc.kern import *
from mc import kspace as S
from checks.c01 import q

ip = boot.load()
import numpy as np
ID = 'C09'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic


def cell(r, E, cls=True):
    if ends(r) != E:
        return False
    if isinstance(r, C) and E[0] > E[1]:
        return False
    return isinstance(r, (C, K))


def check(rec, key, f, want, desc):
    """want: exact interval, or nested lists of exact intervals (as an object array)."""
    rec.edge()
    with rec.case(key, desc, 'print(%s)' % desc):
        r = f()
        if isinstance(want, tuple):
            if not cell(r, want):
                rec.fail(key, '%s is %r, expected [%s, %s]' % (desc, r, float(want[0]), float(want[1])), 'print(%s)' % desc)
            rec.outcome(key)
            return
        if not isinstance(r, ip.ArrayInterval) or tuple(r.shape) != want.shape:
            rec.fail(key, '%s: %s of shape %r, expected shape %r' % (desc, type(r).__name__, getattr(r, 'shape', None), want.shape), 'print(%s)' % desc)
            return
        if r.ndim != want.ndim or [len(g) for g in r.ranges] != list(want.shape):
            rec.fail(key, '%s: ndim %r ranges %r' % (desc, r.ndim, r.ranges), 'print(%s)' % desc)
        for i in np.ndindex(*want.shape):
            if not cell(r.data[i], want[i]):
                rec.fail(key, '%s at %r is %r, expected [%s, %s]' % (desc, i, r.data[i], float(want[i][0]), float(want[i][1])), 'print(%s)' % desc)
                break
        rec.outcome(key)


def arr(nested_pairs, shape):
    out = np.empty(shape, dtype=object)
    for i, p in zip(np.ndindex(*shape), nested_pairs):
        out[i] = p
    return out


def srt(E):
    return (min(E), max(E))


def singles(rec, items):
    for a, b in items:
        rec.state()
        A, B = num(a), num(b)
        la, lb = lit(a), lit(b)
        check(rec, 'Interval(a,b)', lambda: ip.Interval(a, b), srt((A, B)), 'Interval(%s, %s)' % (la, lb))
        check(rec, 'Interval(a,b,unsorted)', lambda: ip.Interval(a, b, sortQ=False), (A, B), 'Interval(%s, %s, sortQ=False)' % (la, lb))
        check(rec, 'Interval([a,b])', lambda: ip.Interval([a, b]), srt((A, B)), 'Interval([%s, %s])' % (la, lb))
        check(rec, 'Interval([a,b],unsorted)', lambda: ip.Interval([a, b], sortQ=False), (A, B), 'Interval([%s, %s], sortQ=False)' % (la, lb))
        check(rec, 'Interval((a,b))', lambda: ip.Interval((a, b)), srt((A, B)), 'Interval((%s, %s))' % (la, lb))
        check(rec, 'Interval(nparray)', lambda: ip.Interval(np.array([a, b])), srt((A, B)) if type(a) == type(b) else srt((num(np.array([a, b])[0]), num(np.array([a, b])[1]))), 'Interval(np.array([%s, %s]))' % (la, lb))
        check(rec, 'SingleInterval', lambda: ip.SingleInterval(a, b), srt((A, B)), 'SingleInterval(%s, %s)' % (la, lb))
        check(rec, 'Interval(a)', lambda: ip.Interval(a), (A, A), 'Interval(%s)' % la)
        check(rec, 'asinterval(a)', lambda: ip.asinterval(a), (A, A), 'asinterval(%s)' % la)
        x = ip.Interval(a, b, sortQ=False)
        rec.edge(2)
        if ip.Interval(x) is not x or ip.asinterval(x) is not x:
            rec.fail('identity', 'Interval(x), asinterval(x) of an interval %r is not x' % x)
        if B >= 0 and not isinstance(a, np.float32) and not isinstance(b, np.float32):
            rec.edge()
            desc = 'Interval(%s, %s, midRadQ=True)' % (la, lb)
            with rec.case('midrad', desc, 'print(%s)' % desc):
                for r in (ip.Interval(a, b, midRadQ=True), ip.Interval([a, b], midRadQ=True)):
                    if not tight(r, (A - B, A + B), 1) or r.a > r.b:
                        rec.fail('midrad', '%s is %r' % (desc, r), 'print(%s)' % desc)
        elif B < 0:
            rec.edge()
            try:
                r = ip.Interval(a, b, midRadQ=True)
            except AssertionError:
                rec.outcome('negative radius refused')
            else:
                rec.fail('midrad', 'negative radius %s accepted: %r' % (lb, r))
        rec.trace()


def arrays(rec, items):
    for shape, lo, hi in items:
        rec.state()
        n = int(np.prod(shape))
        for kind in ('float', 'int', 'list'):
            l = np.array([(lo * (i + 1)) % 7 - 3 for i in range(n)], dtype=float if kind != 'int' else int).reshape(shape)
            h = np.array([(hi * (i + 2)) % 5 - 1 for i in range(n)], dtype=float if kind != 'int' else int).reshape(shape)
            if kind == 'float':
                l, h = l + 0.1, h / 3
            L, H = (l.tolist(), h.tolist()) if kind == 'list' else (l, h)
            pr = [(num(u), num(v)) for u, v in zip(l.flat, h.flat)]
            pairs = np.stack([l, h], axis=-1)
            PR = pairs.tolist() if kind == 'list' else pairs
            d = '%r, %r' % (l.tolist(), h.tolist())
            check(rec, 'Interval(arr,arr)', lambda: ip.Interval(L, H), arr(map(srt, pr), shape), 'Interval(%s)' % d)
            check(rec, 'Interval(arr,arr,unsorted)', lambda: ip.Interval(L, H, sortQ=False), arr(pr, shape), 'Interval(%s, sortQ=False)' % d)
            check(rec, 'Interval(pairs)', lambda: ip.Interval(PR), arr(map(srt, pr), shape), 'Interval(%r)' % pairs.tolist())
            check(rec, 'Interval(pairs,unsorted)', lambda: ip.Interval(PR, sortQ=False), arr(pr, shape), 'Interval(%r, sortQ=False)' % pairs.tolist())
            check(rec, 'asinterval(array)', lambda: ip.asinterval(L), arr([(p[0], p[0]) for p in pr], shape), 'asinterval(%r)' % l.tolist())
            mixed = np.array([ip.Interval(u, v, sortQ=False) if i % 2 else u for i, (u, v) in enumerate(zip(l.flat, h.flat))] + [None], dtype=object)[:-1].reshape(shape)
            check(rec, 'asinterval(mixed)', lambda: ip.asinterval(mixed), arr([p if i % 2 else (p[0], p[0]) for i, p in enumerate(pr)], shape), 'asinterval(%r)' % (mixed.tolist(),))
            check(rec, 'asinterval(mixed list)', lambda: ip.asinterval(mixed.tolist()), arr([p if i % 2 else (p[0], p[0]) for i, p in enumerate(pr)], shape), 'asinterval(%r)' % (mixed.tolist(),))
            rad = abs(h)
            rec.edge()
            with rec.case('midrad', d):
                X = ip.Interval(l, rad, midRadQ=True)
                for i in np.ndindex(*shape):
                    if not tight(X[i], (num(l[i]) - num(rad[i]), num(l[i]) + num(rad[i])), 1):
                        rec.fail('midrad', 'Interval(%r, %r, midRadQ=True) at %r is %r' % (l.tolist(), rad.tolist(), i, X[i]))
                        break
                if not (X.shape == tuple(shape)):
                    rec.fail('midrad', 'shape')
            A = ip.Interval(l, h)
            rec.edge(2)
            if ip.Interval(A) is not A or ip.asinterval(A) is not A:
                rec.fail('identity', 'Interval(A), asinterval(A) of an interval array is not A')
            # the new array does not share memory with the input
            keep = l.copy(), h.copy()
            B = ip.Interval(l, h, sortQ=False)
            l.flat[0] += 1
            if num(B.a.flat[0]) != num(keep[0].flat[0]):
                rec.fail('alias', 'Interval(l, h) follows later changes of l')
        rec.trace()


def factories(rec, items):
    for shape in items:
        rec.state()
        full = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(full))
        check(rec, 'zeros', lambda: ip.zeros(shape), arr([(F(0), F(0))] * n, full), 'zeros(%r)' % (shape,))
        for a, b in ((-1, 2), (2, -1), (0.1, 0.1), (-3.5, -3)):
            check(rec, 'full', lambda: ip.full(shape, a, b), arr([(num(a), num(b))] * n, full), 'full(%r, %r, %r)' % (shape, a, b))
        rec.trace()


def eyes(rec, items):
    for N, M, k in items:
        rec.state()
        cols = N if M is None else M
        want = arr([(F(int(j - i == k)),) * 2 for i in range(N) for j in range(cols)], (N, cols))
        check(rec, 'eye', lambda: ip.eye(N, M=M, k=k), want, 'eye(%r, M=%r, k=%r)' % (N, M, k))
        if k == 0 and M is None:
            check(rec, 'eye', lambda: ip.eye(N), want, 'eye(%r)' % N)
        if k == 0 and M is not None:
            check(rec, 'eye', lambda: ip.eye(N, M), want, 'eye(%r, %r)' % (N, M))
        rec.trace()


def nested(shape, leaf, seq):
    return leaf if not shape else seq(nested(shape[1:], leaf, seq) for _ in range(shape[0]))


def shapes_of(rec, items):
    """get_shape: the shape NumPy gives; rows of different lengths are refused."""
    for shape in items:
        rec.state()
        for seq in (list, tuple):
            for leaf in (1, 2.5, np.float64(0.5), np.int64(3)):
                rec.edge()
                v = nested(shape, leaf, seq)
                with rec.case('get_shape', repr(v), 'print(ip.get_shape(%r))' % (v,)):
                    r = ip.get_shape(v)
                    if tuple(r) != shape:
                        rec.fail('get_shape', 'get_shape(%r) is %r' % (v, r), 'print(ip.get_shape(%r))' % (v,))
        rec.edge()
        with rec.case('get_shape', 'array of shape %r' % (shape,)):
            if tuple(ip.get_shape(np.zeros(shape))) != shape:
                rec.fail('get_shape', 'get_shape of an array of shape %r is %r' % (shape, ip.get_shape(np.zeros(shape))))
        if len(shape) > 1 and shape[0] > 1:
            for k in range(shape[0]):
                v = nested(shape, 1, list)
                v[k] = v[k] + v[k][:1]
                rec.edge()
                try:
                    r = ip.get_shape(v)
                except ValueError:
                    rec.outcome('ragged refused')
                else:
                    rec.fail('get_shape/ragged', 'get_shape(%r) is %r' % (v, r), 'print(ip.get_shape(%r))' % (v,))
        rec.trace()


def refused(rec, items):
    for desc, f in [(d, BAD[d]) for d in items]:
        rec.state()
        rec.edge()
        try:
            r = f()
        except Exception as e:
            rec.outcome(type(e).__name__)
        else:
            rec.fail('refused', '%s is accepted: %r' % (desc, r), 'print(%s)' % desc)
        rec.trace()


BAD = {
    'Interval(1, 2, 3)': lambda: ip.Interval(1, 2, 3),
    'Interval("a", "b")': lambda: ip.Interval('a', 'b'),
    'SingleInterval(1, "b")': lambda: ip.SingleInterval(1, 'b'),
    'SingleInterval(None, 1)': lambda: ip.SingleInterval(None, 1),
    'asinterval("1")': lambda: ip.asinterval('1'),
    'asinterval(["a", 1])': lambda: ip.asinterval(['a', 1]),
    'asinterval([None])': lambda: ip.asinterval([None]),
    'asinterval([[1, 2], [3]])': lambda: ip.asinterval([[1, 2], [3]]),
    'Interval([1, 2], [1, 2, 3])': lambda: ip.Interval([1, 2], [1, 2, 3]),
    'Interval([1, 2], [-1, 2], midRadQ=True)': lambda: ip.Interval([1, 2], [-1, 2], midRadQ=True),
    'asinterval(None)': lambda: ip.asinterval(None),
}


def explore(ctx):
    vals = S.signed([0.0, 0.1, 1.0, 2.5, 1e16 + 2, 1e-300]) + [-128, -3, 0, 1, 7, 200]
    nums = []
    for s in S.scalars(vals):
        nums.append(s)
    items = [(a, b) for a in nums for b in nums]
    ctx.run(singles, items)
    shapes = [(1,), (3,), (4,), (2, 3), (3, 1), (3, 3), (2, 2), (2, 2, 2), (1, 2, 3), (2,), (1, 1), (3, 2)]
    ctx.run(arrays, [(s, l, h) for s in shapes for l in (1, 2, 3, 5) for h in (1, 2, 3)])
    ctx.run(factories, [1, 2, 5, (1,), (2, 3), (3, 1), (2, 2, 2), (4, 4), [2, 3]])
    ctx.run(eyes, [(N, M, k) for N in range(1, 6) for M in (None, 1, 2, 3, 5) for k in range(-4, 5)])
    ctx.run(shapes_of, [t for d in (1, 2, 3) for t in itertools.product((1, 2, 3), repeat=d)])
    ctx.run(refused, list(BAD))
    ctx.bounds = {'numbers': len(nums), 'shapes': [repr(s) for s in shapes]}
    ctx.assumptions = ['midpoint-radius construction is claimed to one ulp, not rounded outwards']
    ctx.rec.sample('Interval(%r, %r) in every form' % items[77])
