"""Alphabets of the kernel explorations."""
import numpy as np

from . import boot

MAX = 1.7976931348623157e308
# moderate values whose sums/products/quotients neither overflow nor underflow
MODERATE = [0.0, 0.1, 1 / 3, 1.0, 1.0000000000000002, 2.5, 3.0, 7.0, 49.0, 1e16 + 2, 1e-9, 123456.789]
EXTREME = [5e-324, 2.2250738585072014e-308, 1.1e-160, 3.3e155, 9.9e307, MAX]
INTS = [0, 1, 2, 3, 10, 3037000501, 2 ** 52]


def signed(vals):
    out = []
    for v in vals:
        for w in (v, -v):
            if w not in out:
                out.append(w)
    return sorted(out)


def proper_pairs(vals):
    vals = sorted(vals)
    return [(a, b) for i, a in enumerate(vals) for b in vals[i:]]


def all_pairs(vals):
    return [(a, b) for a in vals for b in vals]


def scalars(vals):
    """The same number in every numeric type that represents it exactly."""
    out = []
    for v in vals:
        if isinstance(v, int):
            out.append(v)
            if abs(v) < 2 ** 63:
                out.append(np.int64(v))
            if abs(v) < 2 ** 31:
                out.append(np.int32(v))
            # types in which negatives, sums or differences need not exist
            if 0 < v < 256:
                out.append(np.uint8(v))
            if -128 <= v < 0:
                out.append(np.int8(v))
            if 2 ** 31 < v < 2 ** 64:
                out.append(np.uint64(v))
        else:
            out.append(v)
            out.append(np.float64(v))
            with np.errstate(all='ignore'):
                f = np.float32(v)
            if float(f) == v:
                out.append(f)
            elif 1e-30 < abs(v) < 1e30:
                out.append(f)          # the float32 neighbour is a number of its own
    return out
