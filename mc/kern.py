"""Exact models for interval arithmetic.

A model state is an exact interval (lo, hi) of Fractions, possibly improper (lo > hi);
the bound implementation state is the object computed by the library.
"""
import math
from fractions import Fraction as F

import numpy as np

INF = math.inf
MAXF = F(1.7976931348623157e308)
TINY = 5e-324


def num(x):
    """Implementation number -> comparable exact value (Fraction, or +-inf float, or nan)."""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return F(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    return F(x)


def fl_down(q):
    """Largest double <= q (q a Fraction); -inf if none."""
    try:
        x = float(q)
    except OverflowError:
        return -INF if q < 0 else float(MAXF)
    if math.isinf(x):
        return -INF if x < 0 else float(MAXF)
    if F(x) > q:
        x = math.nextafter(x, -INF)
    return x


def fl_up(q):
    return -fl_down(-q)


def shift(x, k):
    d = INF if k > 0 else -INF
    for _ in range(abs(k)):
        x = math.nextafter(x, d)
    return x


def hexs(x):
    try:
        return '%r' % (x,)
    except Exception:
        return str(x)


# ---------------------------------------------------------------- exact operations
def k_add(X, Y):
    return (X[0] + Y[0], X[1] + Y[1])


def k_sub(X, Y):
    return (X[0] - Y[1], X[1] - Y[0])


def k_mul(X, Y):
    """Kaucher product, from the case definition by zones (independent of the library's
    formula): proper*proper as min/max; otherwise by Kaucher's table."""
    a, b = X
    c, d = Y

    def zone(l, h):
        if l >= 0 and h >= 0:
            return 'P'
        if l <= 0 and h <= 0:
            return 'N'
        return 'Z' if l < h else 'D'       # contains zero / contained in zero
    zx, zy = zone(a, b), zone(c, d)
    t = zx + zy
    if t == 'PP':
        return (a * c, b * d)
    if t == 'PN':
        return (b * c, a * d)
    if t == 'NP':
        return (a * d, b * c)
    if t == 'NN':
        return (b * d, a * c)
    if t == 'PZ':
        return (b * c, b * d)
    if t == 'PD':
        return (a * c, a * d)
    if t == 'NZ':
        return (a * d, a * c)
    if t == 'ND':
        return (b * d, b * c)
    if t == 'ZP':
        return (a * d, b * d)
    if t == 'ZN':
        return (b * c, a * c)
    if t == 'DP':
        return (a * c, b * c)
    if t == 'DN':
        return (b * d, a * d)
    if t == 'ZZ':
        return (min(a * d, b * c), max(a * c, b * d))
    if t == 'DD':
        return (max(a * c, b * d), min(a * d, b * c))
    return (F(0), F(0))                    # ZD, DZ


def k_inv(Y):
    return (1 / Y[1], 1 / Y[0])


def k_div(X, Y):
    return k_mul(X, k_inv(Y))


OPS = {'+': k_add, '-': k_sub, '*': k_mul, '/': k_div}


def impl_op(op, x, y):
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    return x / y


def zero_in(Y):
    return min(Y) <= 0 <= max(Y)


def ends(r):
    return num(r.a), num(r.b)


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def encloses(r, E):
    """Outward: r.a <= E.lo and E.hi <= r.b, no NaN."""
    a, b = ends(r)
    return not isnan(a) and not isnan(b) and a <= E[0] and E[1] <= b


def tight(r, E, k):
    """Endpoints of r within k ulp of the exact ones, on the outer side or the inner one."""
    a, b = float(r.a), float(r.b)
    if math.isnan(a) or math.isnan(b):
        return False
    return shift(fl_down(E[0]), -k) <= a <= shift(fl_up(E[0]), k) and \
        shift(fl_down(E[1]), -k) <= b <= shift(fl_up(E[1]), k)


def lit(v):
    """Source text of a number."""
    if isinstance(v, np.generic):
        return 'np.%s(%r)' % (type(v).__name__, v.item())
    return repr(v)


def ilit(x):
    return '%s(%r, %r)' % (type(x).__name__, x.a, x.b)
