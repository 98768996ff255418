"""C04: histories of operations on single intervals against the exact Kaucher model.

Explicit-state search.  Endpoints are dyadic with few bits, so every model operation is
exactly representable and the library must agree endpoint for endpoint; a reached library
object whose class contradicts its orientation is a bug even if its endpoints are right,
because the next operation would use the wrong formula.
"""
import itertools
from mc import boot
from mc.kern import *

ip = boot.load()
import numpy as np
ID = 'C04'
C, K = ip.ClassicalArithmetic, ip.KaucherArithmetic
LIM, DEN = 256, 64


def ok(E):
    return all(abs(e) <= LIM and e.denominator <= DEN and (e.denominator & (e.denominator - 1)) == 0 for e in E)


def mk(E):
    return ip.Interval(float(E[0]), float(E[1]), sortQ=False)


OPERANDS = [(F(1, 2), F(2)), (F(2), F(-1)), (F(-1), F(1)), (F(4), F(2)), (F(-2), F(-1)), (F(-1), F(-4))]
NUMBERS = [2, -1.0, np.float64(0.5), np.int64(-4)]


def p_pow(E, n):
    """Endpoint rule for natural powers (proper: range; improper: the library's endpoint rule)."""
    a, b = E
    if n % 2 or (a >= 0 and b >= 0):
        return (a ** n, b ** n)
    if a <= b <= 0:
        return (b ** n, a ** n)
    if a <= b:
        return (F(0), max(a ** n, b ** n))
    return None


def events():
    ev = []
    for o in OPERANDS:
        for op in '+-*/':
            ev.append(('x %s %s' % (op, o), lambda x, o=o, op=op: impl_op(op, x, mk(o)),
                       lambda E, o=o, op=op: None if op == '/' and zero_in(o) else OPS[op](E, o)))
            ev.append(('%s %s x' % (o, op), lambda x, o=o, op=op: impl_op(op, mk(o), x),
                       lambda E, o=o, op=op: None if op == '/' and zero_in(E) else OPS[op](o, E)))
    for s in NUMBERS:
        q = (num(s), num(s))
        for op in '+-*/':
            ev.append(('x %s %s' % (op, lit(s)), lambda x, s=s, op=op: impl_op(op, x, s),
                       lambda E, q=q, op=op: OPS[op](E, q)))
            ev.append(('%s %s x' % (lit(s), op), lambda x, s=s, op=op: impl_op(op, s, x),
                       lambda E, q=q, op=op: None if op == '/' and zero_in(E) else OPS[op](q, E)))
    ev += [
        ('dual', lambda x: x.dual, lambda E: (E[1], E[0])),
        ('opp', lambda x: x.opp, lambda E: (-E[0], -E[1])),
        ('pro', lambda x: x.pro, lambda E: (min(E), max(E))),
        ('neg', lambda x: -x, lambda E: (-E[1], -E[0])),
        ('inv', lambda x: x.inv, lambda E: None if zero_in(E) else (1 / E[0], 1 / E[1])),
        ('copy', lambda x: x.copy(), lambda E: E),
        ('to_float', lambda x: x.to_float(), lambda E: E),
        ('asinterval', lambda x: ip.asinterval(x), lambda E: E),
        ('Interval()', lambda x: ip.Interval(x.a, x.b, sortQ=False), lambda E: E),
        ('Interval(sorted)', lambda x: ip.Interval(x.a, x.b), lambda E: (min(E), max(E))),
        ('abs', lambda x: abs(x), lambda E: None if E[0] > E[1] else
            (F(0) if zero_in(E) else min(map(abs, E)), max(map(abs, E)))),
        ('square', lambda x: x ** 2, lambda E: p_pow(E, 2)),
        ('cube', lambda x: x ** 3, lambda E: p_pow(E, 3)),
        ('x*x', lambda x: x * x, lambda E: k_mul(E, E)),
        ('x-x', lambda x: x - x, lambda E: k_sub(E, E)),
        ('x/x', lambda x: x / x, lambda E: None if zero_in(E) else k_div(E, E)),
        ('x+=x', lambda x: iadd(x), lambda E: k_add(E, E)),
        ('array', lambda x: (ip.Interval([x, x]) if False else ip.ArrayInterval([x, x]))[1], lambda E: E),
    ]
    return ev


def iadd(x):
    x += x
    return x


EV = events()


def canon(x):
    return (type(x).__name__, float(x.a), float(x.b))


def rebuild(state):
    cls, a, b = state
    return (C if cls == 'ClassicalArithmetic' else K)(a, b)


def expand(rec, items, out_of):
    """Fire every event in each state; successors are collected in rec.succ."""
    for state, hist in items:
        rec.state()
        E = (F(state[1]), F(state[2]))
        for name, fi, fm in EV:
            M = fm(E)
            if M is None or not ok(M):
                continue
            x = rebuild(state)
            rec.edge()
            desc = '%s then %s' % (list(hist), name)
            with rec.case(name.split()[0], desc, '# ' + desc):
                r = fi(x)
                if not isinstance(r, (C, K)):
                    rec.fail('type', '%s gives %r' % (desc, type(r)))
                    continue
                if ends(r) != M:
                    rec.fail(name, '%s: library [%r, %r], model [%s, %s]' % (desc, r.a, r.b, M[0], M[1]),
                             'x = %s(%r, %r)  # %s' % (state + (name,)))
                    continue
                if isinstance(r, C) and r.a > r.b:
                    rec.fail(name + '/class', '%s: [%r, %r] is improper but of the classical class' % (desc, r.a, r.b))
                    continue
                if ends(x) != E or type(x).__name__ != state[0]:
                    rec.fail(name + '/mutated', '%s changed its operand to %r' % (desc, x))
                rec.outcome(type(r).__name__)
                rec.succ[canon(r)] = hist + (name,)


def explore(ctx):
    depth = 5 if ctx.thorough else 4
    starts = [(F(0), F(0)), (F(1), F(2)), (F(2), F(1)), (F(-1), F(2)), (F(2), F(-1)), (F(-2), F(-1)), (F(-1), F(-2))]
    seen = {}
    for E in starts:
        seen[canon(mk(E))] = (str((float(E[0]), float(E[1]))),)
    front = list(seen.items())
    ctx.bounds = {'depth': depth, 'events': len(EV), 'start_states': len(starts),
                  'endpoint_limit': LIM, 'denominator_limit': DEN}
    ctx.assumptions = ['endpoints dyadic with at most %d fractional halvings: model operations are exact' % 6]
    for d in range(depth):
        nxt = {}
        for r in ctx.run(expand, front, None, collect=True) or []:
            for k, h in r.succ.items():
                if k not in seen and k not in nxt:
                    nxt[k] = h
        seen.update(nxt)
        ctx.bounds['states_at_depth_%d' % (d + 1)] = len(nxt)
        front = list(nxt.items())
        if ctx.rec.viol:
            break
        if front:
            ctx.rec.sample('%s -> %s' % (front[-1][1], front[-1][0]))
    ctx.rec.trace(len(seen))
