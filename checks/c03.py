"""C03: Kaucher arithmetic is the definition, whatever the class of the operands."""
from mc import boot
from mc.kern import *
from mc import kspace as S
from checks.c01 import q, float_s

ip = boot.load()
ID = 'C03'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic
ULP = 4


def forms(p):
    """The library objects that stand for the (proper or improper) interval p."""
    out = [K(p[0], p[1])]
    if p[0] <= p[1]:
        out.append(C(p[0], p[1]))
    return out


def outward(r, E):
    a, b = ends(r)
    return not isnan(a) and not isnan(b) and a <= E[0] and b >= E[1]


def judge(rec, r, E, desc, key, tightQ=True):
    code = 'print(%s)' % desc
    if not isinstance(r, (C, K)):
        rec.fail(key + '/type', '%s is %r' % (desc, type(r)), code)
        return False
    if isinstance(r, C) and num(r.a) > num(r.b):
        rec.fail(key + '/class', '%s: improper interval [%r, %r] of the classical class' % (desc, r.a, r.b), code)
        return False
    if not outward(r, E):
        rec.fail(key, '%s = [%r, %r], exact [%r, %r]: not rounded outwards' % (
            desc, r.a, r.b, float_s(E[0]), float_s(E[1])), code)
        return False
    if tightQ and not tight(r, E, ULP):
        rec.fail(key, '%s = [%r, %r], exact [%r, %r]' % (
            desc, r.a, r.b, float_s(E[0]), float_s(E[1])), code)
        return False
    return True


def binary(rec, items, Y, moderate):
    for x in items:
        X = q(x)
        rec.state()
        fx = forms(x)
        for y in Y:
            YY = q(y)
            proper = x[0] <= x[1] and y[0] <= y[1]
            for ix in fx:
                for iy in forms(y):
                    for op in OPS:
                        desc = '%s %s %s' % (ilit(ix), op, ilit(iy))
                        rec.edge()
                        if op == '/' and zero_in(YY):
                            try:
                                r = ix / iy
                            except (ValueError, ZeroDivisionError):
                                rec.outcome('refused')
                            else:
                                rec.fail('zero-division', '%s = %r is not refused' % (desc, r), 'print(%s)' % desc)
                            continue
                        with rec.case(op, desc, 'print(%s)' % desc):
                            E = OPS[op](X, YY)
                            if judge(rec, impl_op(op, ix, iy), E, desc, op, moderate):
                                rec.outcome('proper' if E[0] <= E[1] else 'improper')
            rec.trace()


def scalar(rec, items, consts, moderate):
    for x in items:
        X = q(x)
        rec.state()
        for ix in forms(x):
            for s in consts:
                Q = (num(s), num(s))
                for op in OPS:
                    for left in (0, 1):
                        A, B = (Q, X) if left else (X, Q)
                        desc = '%s %s %s' % ((lit(s), op, ilit(ix)) if left else (ilit(ix), op, lit(s)))
                        rec.edge()
                        if op == '/' and zero_in(B):
                            try:
                                r = impl_op(op, s, ix) if left else impl_op(op, ix, s)
                            except (ValueError, ZeroDivisionError):
                                rec.outcome('refused')
                            else:
                                rec.fail('zero-division', '%s = %r is not refused' % (desc, r), 'print(%s)' % desc)
                            continue
                        with rec.case('scalar' + op, desc, 'print(%s)' % desc):
                            r = impl_op(op, s, ix) if left else impl_op(op, ix, s)
                            judge(rec, r, OPS[op](A, B), desc, 'scalar' + op, moderate)
                rec.trace()


def laws(rec, items, Y):
    """opp, inv, dual, pro: values, class, and the group laws."""
    for x in items:
        X = q(x)
        rec.state()
        for ix in forms(x):
            t = ilit(ix)
            with rec.case('laws', t, 'x = %s; print(x.dual, x.pro, x.opp, -x)' % t):
                for name, E, val in (('dual', (X[1], X[0]), ix.dual), ('pro', (min(X), max(X)), ix.pro),
                                     ('opp', (-X[0], -X[1]), ix.opp), ('neg', (-X[1], -X[0]), -ix)):
                    rec.edge()
                    if ends(val) != E:
                        rec.fail(name, '%s of %s is [%r, %r]' % (name, t, val.a, val.b), 'print(%s.%s)' % (t, name))
                    if isinstance(val, C) and E[0] > E[1]:
                        rec.fail(name + '/class', '%s of %s is improper but classical' % (name, t), 'print(type(%s.%s))' % (t, name))
                if ends(ix.dual.dual) != X:
                    rec.fail('dual', 'dual of dual of %s is %r' % (t, ix.dual.dual))
                o = ix.opp
                z = ix + o
                # X + opp X = 0: exact, the endpoints cancel
                if ends(z) != (0, 0):
                    rec.fail('opp', '%s + opp = [%r, %r], not zero' % (t, z.a, z.b), 'x = %s; print(x + x.opp)' % t)
                if not zero_in(X):
                    v = ix.inv
                    E = (1 / X[0], 1 / X[1])
                    a, b = ends(v)
                    if not (a <= E[0] and E[1] <= b and tight(v, E, ULP)):
                        rec.fail('inv', '%s.inv = [%r, %r], exact [%r, %r]' % (t, v.a, v.b, float(E[0]), float(E[1])), 'print(%s.inv)' % t)
                    if isinstance(v, C) and v.a > v.b:
                        rec.fail('inv/class', '%s.inv improper but classical' % t)
                    rec.edge()
                    one = ix * v
                    judge_near(rec, one, (F(1), F(1)), '%s * inv' % t, 'inv')
        for y in Y:
            YY = q(y)
            for ix in forms(x):
                for iy in forms(y):
                    with rec.case('dual-law', '%s %s' % (ilit(ix), ilit(iy))):
                        for op in '+-*':
                            # dual(x op y) = dual x op dual y
                            rec.edge()
                            judge_near(rec, impl_op(op, ix.dual, iy.dual), OPS[op](X, YY)[::-1],
                                       '%s.dual %s %s.dual' % (ilit(ix), op, ilit(iy)), 'dual' + op)
                        # inverse operations undo
                        judge_near(rec, (ix + iy) + iy.opp, X, '(%s + %s) + opp' % (ilit(ix), ilit(iy)), 'undo+',
                                   abs_=max(map(abs, X + YY)))
                        judge_near(rec, ix - iy.dual, (X[0] - YY[0], X[1] - YY[1]),
                                   '%s - %s.dual' % (ilit(ix), ilit(iy)), 'internal-')
                        if not zero_in(X) and not zero_in(YY):
                            judge_near(rec, ix * iy * iy.inv, X, '%s * %s * inv' % (ilit(ix), ilit(iy)), 'undo*')
            rec.trace()


def judge_near(rec, r, E, desc, key, abs_=None):
    a, b = ends(r)
    for v, e in ((a, E[0]), (b, E[1])):
        tol = F(1, 10 ** 14) * (abs_ if abs_ is not None else abs(e))
        if isnan(v) or isinstance(v, float) or abs(v - e) > tol:
            rec.fail(key, '%s = [%r, %r], expected about [%r, %r]' % (desc, r.a, r.b, float(E[0]), float(E[1])),
                     'print(%s)' % desc if 'opp' not in desc and 'inv' not in desc else '')
            return


def explore(ctx):
    th = ctx.thorough
    base = S.signed([0.0, 0.1, 1 / 3, 1.0, 3.0, 7.0, 123456.789] + [1.0000000000000002, 2.5] + ([1e-9, 1e16 + 2] if th else []))
    ints = [-5, -1, 0, 2, 3]
    ext = S.signed([0.0, 0.1, S.MAX, 5e-324])
    P, I, X = S.all_pairs(base), S.all_pairs(ints), S.all_pairs(ext)
    Y = P if th else P[::1]
    ctx.bounds = {'endpoints': [repr(v) for v in base], 'integers': ints, 'extreme': [repr(v) for v in ext]}
    ctx.assumptions = ['finite endpoints']
    ctx.run(binary, P, Y, True)
    ctx.run(binary, I, I, True)
    ctx.run(binary, I, P[::5], True)
    ctx.run(binary, X, X, False)
    cs = S.scalars(base) + S.scalars(ints)
    ctx.run(scalar, P + I, cs if th else cs[::2], True)
    ctx.run(scalar, X, ext, False)
    ctx.run(laws, P + I, P if th else P[::9])
    ctx.rec.sample('all pairs of %d proper and improper intervals, both classes' % len(P))
