"""C02: tightness of + - * / on proper intervals and numbers (no needless widening)."""
from mc import boot
from mc.kern import *
from mc import kspace as S
from checks.c01 import mk, q, float_s

ip = boot.load()
ID = 'C02'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic
ULP = 4


def step(rec, op, x, y, X, Y, key):
    if op == '/' and zero_in(Y):
        return
    rec.edge()
    desc = '%s %s %s' % (lit(x) if not hasattr(x, 'a') else ilit(x), op,
                         lit(y) if not hasattr(y, 'a') else ilit(y))
    code = 'print(%s)' % desc
    with rec.case(key, desc, code):
        r = impl_op(op, x, y)
        E = OPS[op](X, Y)
        if not tight(r, E, ULP):
            rec.fail(key, '%s = [%r, %r] is not within %d ulp of the exact result\n  [%r, %r]' % (
                desc, r.a, r.b, ULP, float_s(E[0]), float_s(E[1])), code)
            return
        if op != '/' and all(exact_double(e) for e in E) and small(E) and small(X) and small(Y):
            # sums and products of small integers are exact
            if ends(r) != E:
                rec.fail(key + '/exact', '%s = [%r, %r], the exact result [%r, %r] is representable'
                         % (desc, r.a, r.b, float(E[0]), float(E[1])), code)
        rec.outcome('exact' if ends(r) == E else 'rounded')


def exact_double(e):
    return F(float(e)) == e


def small(E):
    return all(e.denominator == 1 and abs(e) < 2 ** 26 for e in E)


def pairs(rec, items, Y, cls):
    for x in items:
        X = q(x)
        ix = mk(C, x)
        rec.state()
        for y in Y:
            YY = q(y)
            for c in cls:
                iy = mk(c, y)
                for op in OPS:
                    step(rec, op, ix, iy, X, YY, 'interval%sinterval' % op)
                if c is K:
                    for op in OPS:
                        step(rec, op, iy, ix, YY, X, 'interval%sinterval' % op)
            rec.trace()


def numbers(rec, items, consts, cls):
    for x in items:
        X = q(x)
        rec.state()
        for c in cls:
            ix = mk(c, x)
            for s in consts:
                Q = (num(s), num(s))
                for op in OPS:
                    step(rec, op, ix, s, X, Q, 'interval%snumber' % op)
                    step(rec, op, s, ix, Q, X, 'number%sinterval' % op)
                rec.trace()


def explore(ctx):
    th = ctx.thorough
    mod = S.signed(S.MODERATE + [2.0, 1e-20, 6.02e23] + ([0.7, 1e60, 1e-60] if th else []))
    ints = [-2 ** 52, -3037000501, -10, -3, -1, 0, 1, 2, 7, 3037000501, 2 ** 52]
    P = S.proper_pairs(mod)
    ctx.bounds = {'endpoints': [repr(v) for v in mod], 'integer_endpoints': ints, 'ulp': ULP}
    ctx.assumptions = ['operands between 1e-60 and 1e60 in magnitude, or zero: no under- or overflow']
    IP = S.proper_pairs(ints)
    ctx.run(pairs, P, P if th else P[::2], (C,))
    ctx.run(pairs, P if th else P[::3], P[1::3], (K,))
    ctx.run(pairs, IP, IP, (C, K))
    ctx.run(pairs, IP, P[::7], (C,))
    ctx.run(pairs, P[::7], IP, (C,))
    cs = S.scalars(mod) + S.scalars(ints)
    ctx.run(numbers, P + IP, cs if th else cs[::2], (C,))
    ctx.run(numbers, P[::3] + IP, cs if th else cs[1::4], (K,))
    ctx.rec.sample('all pairs of %d intervals under + - * /, e.g. %r * %r' % (len(P), P[7], P[-9]))
