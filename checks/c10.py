"""C10: ArrayInterval as a container, against a NumPy object array of intervals.

Breadth-first search over histories of container operations on the real object.  The model
is a NumPy array of exact endpoint pairs; every model operation is NumPy's own, so the claim
is: an interval array behaves as the NumPy array of its elements, results are arrays of their
own (later changes do not travel), and shape, ndim, ranges, len and iteration stay consistent.
"""
import copy
import itertools
from mc import boot
from mc.kern import *

ip = boot.load()
import numpy as np
ID = 'C10'


def iv(p):
    return ip.Interval(p[0], p[1], sortQ=False)


class P(tuple):
    """An exact element: a pair that numpy keeps as one object."""


def model(shape, seed=0):
    n = int(np.prod(shape))
    m = np.empty(n, dtype=object)
    for i in range(n):
        m[i] = P((float(i + seed), float((i * 5 + seed) % 7 - 2)))
    return m.reshape(shape)


def build(m):
    obj = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape):
        obj[i] = iv(m[i])
    return ip.ArrayInterval(obj)


def pairs_of(A):
    """The content of a library array as a nested structure."""
    return tuple((float(x.a), float(x.b)) for x in A.data.flat)


def agree(A, m):
    if not isinstance(A, ip.ArrayInterval):
        return 'not an interval array but %s' % type(A).__name__
    if tuple(A.shape) != m.shape:
        return 'shape %r, expected %r' % (A.shape, m.shape)
    if A.ndim != m.ndim:
        return 'ndim %r, expected %r' % (A.ndim, m.ndim)
    if [list(r) for r in A.ranges] != [list(range(s)) for s in m.shape]:
        return 'ranges %r for shape %r' % (A.ranges, m.shape)
    if tuple(A.data.shape) != m.shape:
        return 'data of shape %r' % (A.data.shape,)
    if len(A) != len(m):
        return 'len %r' % len(A)
    if pairs_of(A) != tuple(tuple(p) for p in m.flat):
        return 'content %r, expected %r' % (pairs_of(A), tuple(m.flat))
    for i in np.ndindex(*m.shape):
        if ends(A[i]) != tuple(map(num, m[i])):
            return 'A[%r] is %r' % (i, A[i])
    if m.ndim >= 1:
        its = list(A)
        if len(its) != len(m):
            return 'iteration yields %d items' % len(its)
        for k, it in enumerate(its):
            w = m[k]
            if isinstance(w, P):
                if ends(it) != tuple(map(num, w)):
                    return 'item %d of the iteration is %r' % (k, it)
            elif tuple((float(x.a), float(x.b)) for x in np.asarray(it, dtype=object).flat) != tuple(map(tuple, w.flat)):
                return 'item %d of the iteration is %r' % (k, it)
    return None


KEYS = [0, -1, 1, slice(None), slice(1, None), slice(None, None, -1), slice(0, 1), [0], [1, 0], [0, 0],
        np.array([0, 1]), (0, 0), (1, -1), (0, slice(None)), (slice(None), 0), (slice(None), slice(1, None)), (slice(None), [0, 1]),
        (Ellipsis, 0), np.int64(1), (np.int64(0), np.int64(1)), 'mask', 'mask2', ([0, 1], [1, 0]), (slice(None), None), ([1], [0])]


def key(k, m):
    if isinstance(k, str) and k == 'mask':
        return np.arange(len(m)) % 2 == 0
    if isinstance(k, str) and k == 'mask2':
        return (np.arange(m.size) % 3 == 0).reshape(m.shape)
    return k


def setm(m, k, v):
    """NumPy assignment of pair-valued v (P or array of P)."""
    if isinstance(v, P) and not isinstance(m[k], P):
        e = np.empty((), dtype=object)
        e[()] = v
        v = e
    m[k] = v


def np_ok(f):
    try:
        return True, f()
    except (IndexError, ValueError, TypeError):
        return False, None


def wrap(x):
    """A numpy result as an object array or a P."""
    return x


VALS = [('interval', lambda m: (iv((9.0, 4.0)), P((9.0, 4.0)))), ('number', lambda m: (2.5, P((2.5, 2.5)))),
        ('int', lambda m: (3, P((3.0, 3.0)))), ('np', lambda m: (np.float64(-1.5), P((-1.5, -1.5))))]


def getitems(A, m, rec, hist):
    """All reads in one state."""
    for k in KEYS:
        kk = key(k, m)
        ok, want = np_ok(lambda: m[kk])
        rec.edge()
        desc = '%s then A[%r]' % (hist, k)
        if ok and not isinstance(want, P) and want.ndim == 0:
            continue
        with rec.case('getitem', desc):
            try:
                got = A[kk]
            except (IndexError, ValueError, TypeError):
                if ok:
                    rec.fail('getitem', '%s raises' % desc)
                else:
                    rec.outcome('index refused')
                continue
            if not ok:
                rec.fail('getitem', '%s: NumPy refuses the index, the library returns %r' % (desc, got))
            elif isinstance(want, P):
                if hasattr(got, 'shape') or ends(got) != tuple(map(num, want)):
                    rec.fail('getitem', '%s is %r, expected %r' % (desc, got, want))
                rec.outcome('element')
            else:
                if want.size == 0:
                    continue
                msg = agree(got, want)
                if msg:
                    rec.fail('getitem', '%s: %s' % (desc, msg))
                # a result is an array of its own
                before = pairs_of(A)
                got.data.flat[0] = iv((77.0, 78.0))
                if pairs_of(A) != before:
                    rec.fail('getitem/alias', '%s: changing the result changes A' % desc)
                rec.outcome('subarray')


PROBES = [0.0, 1, -0.5, 2.5, np.float64(1.0), np.int64(3), 100.0, (0.0, 1.0), (1.0, 1.0), (-1.0, 5.0), (2.0, 3.0), (-50.0, 50.0)]


def within(p, q):
    """The model of containment of a proper interval p in a proper interval q."""
    return q[0] <= p[0] and p[1] <= q[1]


def proper(p):
    return P((min(p), max(p)))


def contains(m, rec, hist):
    """`x in A` for numbers, intervals and arrays; deletion with keys out of range."""
    w = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape):
        w[i] = proper(m[i])
    A = build(w)
    for x in PROBES:
        rec.edge()
        p = P((float(x), float(x))) if not isinstance(x, tuple) else P(x)
        want = any(within(p, q) for q in w.flat)
        with rec.case('in', '%r in the array %s' % (x, hist)):
            got = (iv(x) if isinstance(x, tuple) else x) in A
            if got is not want:
                rec.fail('in', '%r in %r gives %r' % (x, A, got))
            rec.outcome('in %s' % got)
    for sh, f in (('same', lambda q: q), ('wider', lambda q: P((q[0] - 1, q[1] + 1))), ('shifted', lambda q: P((q[1] + 1, q[1] + 2))), ('swapped', None), ('one', None)):
        rec.edge()
        o = np.empty(w.shape, dtype=object)
        flat = list(w.flat)
        for k, i in enumerate(np.ndindex(*w.shape)):
            o[i] = f(w[i]) if f else flat[-1 - k] if sh == 'swapped' else w[i] if k == len(flat) - 1 else P((w[i][0] - 2, w[i][1] + 2))
        want = any(within(o[i], w[i]) for i in np.ndindex(*w.shape))
        with rec.case('in', 'array (%s) in the array %s' % (sh, hist)):
            got = build(o) in A
            if got is not want:
                rec.fail('in/array', '%r in %r gives %r' % (build(o), A, got))
            num = np.empty(w.shape)
            for i in np.ndindex(*w.shape):
                num[i] = o[i][0]
            want = any(within((num[i], num[i]), w[i]) for i in np.ndindex(*w.shape))
            got = num in A
            if got is not want:
                rec.fail('in/array', '%r in %r gives %r' % (num, A, got))
            rec.outcome('array in %s' % got)
    for k in (len(m), -len(m) - 1, (0, 99), [len(m)], 1.5, 'a'):
        rec.edge()
        with rec.case('del', 'del A[%r] of %s' % (k, hist)):
            B = build(m)
            try:
                del B[k]
            except Exception:
                msg = agree(B, m)
                if msg:
                    rec.fail('del/refused', 'the refused del A[%r] leaves %s: %s' % (k, msg, hist))
                rec.outcome('del refused')
                continue
            rec.fail('del/invalid', 'del A[%r] of %r leaves %r' % (k, build(m), B))
    with rec.case('in', 'number in an empty array'):
        E = build(m)
        del E[:]
        if 1.0 in E or iv((0.0, 1.0)) in E or E in E or len(E) or tuple(E.shape) != (0,) + m.shape[1:] or list(E) != []:
            rec.fail('in/empty', 'the emptied array %r is not empty' % (E,))


def events(m):
    """Enabled mutations / derivations in the state with model m: (name, impl, model)."""
    ev = []
    for k in KEYS:
        kk = key(k, m)
        ok, want = np_ok(lambda: m[kk])
        if not ok or (not isinstance(want, P) and (want.size == 0 or want.ndim == 0)):
            continue
        if isinstance(k, tuple) and None in [x for x in k if x is None]:
            continue
        for vn, vf in VALS:
            def imp(A, kk=kk, vf=vf):
                A[kk] = vf(None)[0]
                return A

            def mod(mm, kk=kk, vf=vf):
                setm(mm, kk, vf(None)[1])
                return mm
            ev.append(('A[%r]=%s' % (k, vn), imp, mod))
        if not isinstance(want, P):
            w2 = model(want.shape, 20)

            def imp(A, kk=kk, w2=w2):
                A[kk] = build(w2)
                return A

            def mod(mm, kk=kk, w2=w2):
                mm[kk] = w2
                return mm
            ev.append(('A[%r]=array' % (k,), imp, mod))

            def imp(A, kk=kk, w2=w2):
                A[kk] = np.arange(w2.size, dtype=float).reshape(w2.shape)
                return A

            def mod(mm, kk=kk, w2=w2):
                z = np.empty(w2.size, dtype=object)
                for i in range(w2.size):
                    z[i] = P((float(i), float(i)))
                mm[kk] = z.reshape(w2.shape)
                return mm
            ev.append(('A[%r]=numbers' % (k,), imp, mod))

            def imp(A, kk=kk, w2=w2):
                A[kk] = np.arange(w2.size, dtype=float).reshape(w2.shape).tolist()
                return A
            ev.append(('A[%r]=list' % (k,), imp, mod))
    for k in (0, -1, 1, slice(0, 1), slice(None, None, 2), [0], np.array([0]), np.int64(1), (0,), (slice(None), 0), (0, 1), (1, [0]), (0, slice(None)), ([1], slice(None), slice(None)), (slice(None), 0, slice(None))):
        # the last entry that is not a full slice names what is deleted
        axis = max([i for i, x in enumerate(k) if not (isinstance(x, slice) and x == slice(None))], default=len(k) - 1) if isinstance(k, tuple) else 0
        kk = k[axis] if isinstance(k, tuple) else k
        ok, want = np_ok(lambda: np.delete(m, kk, axis=axis))
        if not ok or want.size == 0:
            continue

        def imp(A, k=k):
            del A[k]
            return A

        def mod(mm, kk=kk, axis=axis):
            return np.delete(mm, kk, axis=axis)
        ev.append(('del A[%r]' % (k,), imp, mod))
    ev.append(('T', lambda A: A.T, lambda mm: mm.T.copy()))
    ev.append(('copy', lambda A: A.copy(), lambda mm: mm.copy()))
    ev.append(('deepcopy', lambda A: copy.deepcopy(A), lambda mm: mm.copy()))
    ev.append(('ArrayInterval', lambda A: ip.ArrayInterval(A.data), lambda mm: mm.copy()))
    n = m.size
    for shape in ((n,), (n, 1), (1, n), (2, n // 2), (-1,), (3, n // 3), n):
        ok, want = np_ok(lambda: m.reshape(shape))
        if ok:
            ev.append(('reshape%r' % (shape,), lambda A, s=shape: A.reshape(s), lambda mm, s=shape: mm.reshape(s).copy()))
    for nm in ('+=', '-=', '*='):
        def imp(A, nm=nm):
            B = A
            if nm == '+=':
                B += 1
            elif nm == '-=':
                B -= 2.0
            else:
                B *= 2
            if B is not A:
                raise AssertionError('%s rebinds' % nm)
            return B

        def mod(mm, nm=nm):
            f = {'+=': lambda p: P((p[0] + 1, p[1] + 1)), '-=': lambda p: P((p[0] - 2, p[1] - 2)), '*=': lambda p: P((2 * p[0], 2 * p[1]))}[nm]
            o = np.empty(mm.shape, dtype=object)
            for i in np.ndindex(*mm.shape):
                o[i] = f(mm[i])
            return o
        ev.append((nm, imp, mod))

    def grow(A):
        A += build(model((2,) + m.shape, 3))
        return A

    def growm(mm):
        w = model((2,) + m.shape, 3)
        o = np.empty(w.shape, dtype=object)
        for i in np.ndindex(*w.shape):
            o[i] = P((mm[i[1:]][0] + w[i][0], mm[i[1:]][1] + w[i][1]))
        return o
    if m.ndim == 1:
        ev.append(('+= broadcast', grow, growm))
    return ev


def canon(m):
    return (m.shape, tuple(tuple(p) for p in m.flat))


def decode(st):
    m = np.empty(len(st[1]), dtype=object)
    for i, p in enumerate(st[1]):
        m[i] = P(p)
    return m.reshape(st[0])


def expand(rec, items, last):
    for st, hist in items:
        rec.state()
        m = decode(st)
        A = build(m)
        getitems(A, m, rec, hist)
        contains(m, rec, hist)
        rec.edge()
        msg = agree(A, m)
        if msg:
            rec.fail('state', '%s: %s' % (hist, msg))
            continue
        with rec.case('reversed', str(hist)):
            rev = list(reversed(A))
            if len(rev) != len(m) or any(
                    (ends(r) != tuple(map(num, w))) if isinstance(w, P)
                    else tuple((float(x.a), float(x.b)) for x in np.asarray(r, dtype=object).flat) != tuple(map(tuple, w.flat))
                    for r, w in zip(rev, m[::-1])):
                rec.fail('reversed', '%s: reversed(A) is %r' % (hist, rev))
        for i, (name, imp, mod) in enumerate(events(m)):
            rec.edge()
            desc = '%s then %s' % (list(hist), name)
            A = build(m)
            src = A.copy()
            mm = decode(st)
            with rec.case(name.split('[')[0], desc, '# ' + desc):
                B = imp(A)
                w = mod(mm)
                msg = agree(B, w)
                if msg:
                    rec.fail(name, '%s: %s' % (desc, msg), '# ' + desc)
                    continue
                if B is not A:
                    # derived object: independent of its source, in both directions
                    if pairs_of(A) != pairs_of(src):
                        rec.fail(name + '/source', '%s changes its source' % desc)
                    keep = pairs_of(B)
                    first = tuple(0 for _ in A.shape)
                    A[first] = iv((55.0, 56.0))
                    if pairs_of(B) != keep:
                        rec.fail(name + '/alias', '%s: the result follows later changes of the source' % desc)
                    keep = pairs_of(A)
                    B[tuple(0 for _ in B.shape)] = iv((57.0, 58.0))
                    if pairs_of(A) != keep:
                        rec.fail(name + '/alias', '%s: changes of the result reach the source' % desc)
                rec.outcome(name.split('[')[0])
                if not last:
                    k = canon(w)
                    if w.size <= 8:
                        rec.succ.setdefault(k, hist + (name,))
        rec.trace()


def explore(ctx):
    depth = 3
    starts = [(3,), (2, 2), (2, 3), (1,), (3, 1)] + [(2, 2, 2)]
    seen = {canon(model(s)): ('array%r' % (s,),) for s in starts}
    front = list(seen.items())
    ctx.bounds = {'depth': depth, 'shapes': [repr(s) for s in starts], 'elements_at_most': 8,
                  'cap_per_level': 60000, 'of_the_states_at_depth_2_extended': 'all' if ctx.thorough else 'every 5th'}
    for d in range(depth):
        nxt = {}
        for r in ctx.run(expand, front, d == depth - 1):
            for k, h in r.succ.items():
                if k not in seen:
                    nxt.setdefault(k, h)
        seen.update(nxt)
        ctx.bounds['new_states_at_depth_%d' % (d + 1)] = len(nxt)
        front = list(nxt.items())
        if d == 1 and not ctx.thorough:
            front = front[::5]
        if ctx.rec.viol:
            break
        if front:
            ctx.rec.sample('%s' % (front[len(front) // 2][1],))
    ctx.bounds.pop('cap_per_level')
