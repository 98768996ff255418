"""C01: enclosure of + - * / on proper intervals and numbers."""
import itertools
from mc import boot
from mc.kern import *
from mc import kspace as S

ip = boot.load()
ID = 'C01'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic


def mk(cls, p):
    return cls(p[0], p[1])


def q(p):
    return (num(p[0]), num(p[1]))


def step(rec, op, x, y, X, Y, key):
    """One transition: op on the implementation objects x, y with exact contents X, Y."""
    rec.edge()
    desc = '%s %s %s' % (lit(x) if not hasattr(x, 'a') else ilit(x), op,
                         lit(y) if not hasattr(y, 'a') else ilit(y))
    code = 'print(%s)' % desc
    if op == '/' and zero_in(Y):
        try:
            r = impl_op(op, x, y)
        except (ValueError, ZeroDivisionError):
            rec.outcome('refused')
            return None
        rec.fail(key + '/zero-division', '%s = %r: division by an interval containing zero '
                 'is not refused' % (desc, r), code)
        return None
    with rec.case(key, desc, code):
        r = impl_op(op, x, y)
        E = OPS[op](X, Y)
        if not isinstance(r, (C, K)):
            rec.fail(key + '/type', '%s is %r, not an interval' % (desc, type(r)), code)
            return None
        if not encloses(r, E):
            rec.fail(key, '%s = [%r, %r] does not contain the exact result\n  [%r, %r]' % (
                desc, r.a, r.b, float_s(E[0]), float_s(E[1])), code)
            return None
        rec.outcome('exact' if ends(r) == E else 'rounded')
        return r, E
    return None


def float_s(qv):
    try:
        return float(qv)
    except OverflowError:
        return 'out of range'


def pairs(rec, items, Y, cls):
    """All pairs of intervals, both operations orders, both classes on the right."""
    for x in items:
        X = q(x)
        ix = mk(C, x)
        rec.state()
        for y in Y:
            YY = q(y)
            for c in cls:
                iy = mk(c, y)
                for op in OPS:
                    step(rec, op, ix, iy, X, YY, 'interval%sinterval' % op)
                if c is K:
                    for op in OPS:
                        step(rec, op, iy, ix, YY, X, 'interval%sinterval' % op)
            rec.trace()


def numbers(rec, items, consts, cls):
    for x in items:
        X = q(x)
        rec.state()
        for c in cls:
            ix = mk(c, x)
            for s in consts:
                Q = (num(s), num(s))
                for op in OPS:
                    step(rec, op, ix, s, X, Q, 'interval%snumber' % op)
                    step(rec, op, s, ix, Q, X, 'number%sinterval' % op)
                rec.trace()


def chains(rec, items, starts, operands, depth):
    """Operation histories: the exact state follows the exact semantics, the bound state the
    library's own results; the library's state must enclose the exact one all along."""
    for first in items:
        (start, fop, foperand) = first
        X0 = q(start)

        def rec_run(hist, impl, exact, d):
            rec.state()
            if d == 0:
                rec.trace()
                return
            for op, o in itertools.product('+-*/', operands):
                go(hist, impl, exact, op, o, d)

        def go(hist, impl, exact, op, o, d):
            if isinstance(o, tuple) and o[0] == 'r':       # operand on the left
                left, val = True, o[1]
            else:
                left, val = False, o
            io = mk(C, val) if isinstance(val, tuple) else val
            O = q(val) if isinstance(val, tuple) else (num(val), num(val))
            den = ends(impl) if left else O
            if op == '/' and (zero_in(exact if left else O) or zero_in(den)):
                return
            rec.edge()
            desc = hist + [(op, o)]
            code = '# ' + repr(desc)
            with rec.case('chain', repr(desc), code):
                r = impl_op(op, io, impl) if left else impl_op(op, impl, io)
                E = OPS[op](O, exact) if left else OPS[op](exact, O)
                if not encloses(r, E):
                    rec.fail('chain' + op, 'after %r the interval [%r, %r] does not contain the exact '
                             '[%r, %r]' % (desc, r.a, r.b, float_s(E[0]), float_s(E[1])), code)
                    return
                rec.outcome('chain')
                rec_run(desc, r, E, d - 1)
        go([start], mk(C, start), X0, fop, foperand, depth)


def explore(ctx):
    th = ctx.thorough
    mod = S.signed(S.MODERATE + ([6.02e23, 1e-20, 0.7] if th else []))
    ext = S.signed([0.0] + S.EXTREME + [1.0, 0.1])
    ints = [-2 ** 52, -3037000501, -10, -3, -1, 0, 1, 2, 7, 3037000501, 2 ** 52]
    P = S.proper_pairs(mod)
    ctx.bounds = {'moderate_endpoints': [repr(v) for v in mod], 'extreme_endpoints': [repr(v) for v in ext],
                  'integer_endpoints': ints, 'chain_depth': 4 if th else 3}
    ctx.assumptions = ['endpoints are finite doubles or integers of magnitude at most 2**52']
    ctx.run(pairs, P, P, (C,))
    ctx.run(pairs, P if th else P[::3], P if th else P[1::3], (K,))
    E = S.proper_pairs(ext)
    ctx.run(pairs, E, E, (C, K))
    small = S.proper_pairs(S.signed([0.0, 0.1, 3.0, 5e-324, S.MAX]))
    ctx.run(pairs, small, small, (C, K))
    IP = S.proper_pairs(ints)
    ctx.run(pairs, IP, IP, (C,))
    ctx.run(pairs, IP, P[::7], (C,))
    ctx.run(pairs, P[::7], IP, (C,))
    cs = S.scalars(mod + ext) + S.scalars(ints)
    ctx.run(numbers, P + E[::2] + IP, cs, (C,))
    ctx.run(numbers, P[::3], cs[::2], (K,))
    operands = [(0.1, 1 / 3), (-0.1, 3.0), (-7.0, -0.3), 0.1, 3, ('r', 0.7), ('r', (1.1, 2.2)), ('r', -3)]
    starts = [(0.1, 0.1), (-1 / 3, 7.0), (-2.0, -0.1), (1, 3)]
    if th:
        operands += [(1e-160, 1.0), (0, 2)]
    items = [(s, op, o) for s in starts for op in '+-*/' for o in operands]
    ctx.run(chains, items, starts, operands, 3 if th else 2, chunk=2)
    ctx.rec.sample('all pairs of %d intervals under + - * /, e.g. %r / %r' % (len(P), P[7], P[-9]))
    ctx.rec.sample('history %r' % (items[5],))
