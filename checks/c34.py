"""C34: drawings show exactly the data and the solution sets.

State = (system or list of pairs of intervals, drawing options, figures that exist already).  The
model is a list of shapes: points, segments, rectangles, polygons.  The shapes are read back from
the Matplotlib figure (backend Agg, no display), files are written in a scratch directory only.
"""
import os
import shutil
import tempfile
import warnings
import matplotlib
matplotlib.use('Agg')
from mc import boot
from mc.lsys import *

ip = boot.load()
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, PolyCollection
from matplotlib.colors import to_rgba
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
warnings.simplefilter('ignore')
ID = 'C34'

_init = Poly3DCollection.__init__


def _recording(self, verts, *a, **k):
    self.mc_verts = [[tuple(map(float, p)) for p in v] for v in verts]
    _init(self, verts, *a, **k)


Poly3DCollection.__init__ = _recording


def close(p, q):
    return all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(p, q))


def opened(P):
    """The traversal without the repeated first point."""
    P = [tuple(map(float, p)) for p in P]
    while len(P) > 1 and close(P[0], P[-1]):
        P = P[:-1]
    return P


def compact(P):
    out = []
    for p in opened(P):
        if not out or not close(p, out[-1]):
            out.append(p)
    return out


def same_ring(P, Q):
    """The same closed polygon: equal up to the start point and the direction."""
    P, Q = compact(P), compact(Q)
    n = len(P)
    if n != len(Q):
        return False
    R = Q[::-1]
    return any(all(close(P[i], S[(i + k) % n]) for i in range(n)) for S in (Q, R) for k in range(n))


def shapes(ax):
    """(dots, filled polygons, outlines) of flat axes."""
    dots, full, lines = [], [], []
    for p in ax.patches:
        xy = p.get_patch_transform().transform(p.get_path().vertices)
        (full if p.get_fill() else lines).append(([tuple(v) for v in xy], p))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            dots += [(tuple(map(float, v)), c) for v in c.get_offsets()]
        else:
            for g in c.get_paths():
                (full if len(c.get_facecolor()) else lines).append(([tuple(v) for v in g.vertices], c))
    for l in ax.lines:
        lines.append(([tuple(v) for v in l.get_xydata()], l))
    return dots, full, lines


def pair_off(want, have, eq):
    """Match the two lists one to one; returns the unmatched of both."""
    have, miss = list(have), []
    for w in want:
        k = next((k for k, h in enumerate(have) if eq(w, h[0])), None)
        if k is None:
            miss.append(w)
        else:
            have.pop(k)
    return miss, [h[0] for h in have]


# scatter ------------------------------------------------------------------------------------
GRIDS = [(None, None), (1, 3), (2, 1), (2, 2)]


def places(g):
    n, m = g[0] or 1, g[1] or 1
    if n * m == 1:
        return [(None, 0)]
    if n == 1 or m == 1:
        return [(None, 0)] + [(k, k) for k in range(n * m)]
    return [(None, 0)] + [((i, j), i * m + j) for i in range(n) for j in range(m)]


def model(boxes):
    dots, full, lines = [], [], []
    for (a, b), (c, d) in boxes:
        if a == b and c == d:
            dots.append((a, c))
        elif a == b or c == d:
            lines.append([(a, c), (b, d)])
        else:
            full.append([(a, c), (a, d), (b, d), (b, c)])
    return dots, full, lines


def segment(P, Q):
    Q = [tuple(map(float, q)) for q in Q]
    return all(any(close(p, q) for q in Q) for p in P) and all(any(close(q, p) for p in P) for q in Q)


def judge(rec, key, want, ax, t, c, exact_dots=True):
    dots, full, lines = shapes(ax)
    for kind, w, h, eq in (('points', want[0], dots, close), ('areas', want[1], full, same_ring), ('segments', want[2], lines, segment)):
        miss, extra = pair_off(w, h, eq)
        if kind == 'points' and not exact_dots:
            # vertices may be marked more than once
            extra = [e for e in extra if not any(close(e, v) for v in w)]
        if miss or extra:
            rec.fail('%s/%s' % (key, kind), '%s not drawn: %s, drawn instead: %s: %s' % (kind, miss, extra, t), c)


def scatter(rec, items):
    for boxes, shape, g in items:
        X = [b[0] for b in boxes]
        Y = [b[1] for b in boxes]
        try:
            iplt = ip.IPlot(figsize=(3, 3))
            args = () if g[0] is None else g
            fig, ax = iplt.subplots(*args)
            axes = list(np.ravel(np.array(ax, dtype=object)))
            for index, where in places(g):
                rec.state()
                rec.edge()
                for a in axes:
                    a.clear()
                t = 'boxes %s of shape %s on a grid %s, axindex=%s' % (boxes, shape, g, index)
                c = 'x, y = Interval(%r, %r).reshape(%r), Interval(%r, %r).reshape(%r)\niplt = ip.IPlot()\niplt.subplots%r\niplt.scatter(x, y, axindex=%r)' % (
                    [v[0] for v in X], [v[1] for v in X], shape, [v[0] for v in Y], [v[1] for v in Y], shape, args, index)
                with rec.case('scatter', t, c, cpu=20):
                    x = ip.Interval(np.array([v[0] for v in X]), np.array([v[1] for v in X]), sortQ=False).reshape(shape)
                    y = ip.Interval(np.array([v[0] for v in Y]), np.array([v[1] for v in Y]), sortQ=False).reshape(shape)
                    before = repr(x), repr(y)
                    iplt.scatter(x, y, axindex=index)
                    judge(rec, 'scatter', model(boxes), axes[where], t, c)
                    for k, a in enumerate(axes):
                        if k != where and any(shapes(a)):
                            rec.fail('scatter/axes', 'the axes %d are drawn on instead of %d: %s' % (k, where, t), c)
                    if (repr(x), repr(y)) != before:
                        rec.fail('scatter/operands', 'scatter changes the data: %s' % t, c)
                    rec.outcome('%d dots %d areas %d segments' % tuple(len(v) for v in model(boxes)))
        finally:
            plt.close('all')
        rec.trace()
    rec.sample(str(boxes))


def plain(r):
    """Nested lists of points, whatever the containers are."""
    return float(r) if not isinstance(r, (list, tuple, np.ndarray)) else [plain(v) for v in r]


# solution sets ------------------------------------------------------------------------------
def draw(rec, key, call, t, c, polygons, opts, three=False, partial=None):
    """Run call(show=True, ...) next to an existing figure and compare the new figure with polygons."""
    plt.close('all')
    own, oax = plt.subplots()
    oax.fill([0, 1, 1], [0, 0, 1])
    oax.scatter([0.5], [0.5])
    old = shapes(oax)
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='c34-')
    try:
        os.chdir(tmp)
        with rec.case(key, t, c, cpu=40):
            quiet = call(show=False, **opts)
            if plt.get_fignums() != [own.number]:
                rec.fail(key + '/show', 'a figure is made although show=False: %s' % t, c)
            r = call(show=True, **opts)
            if plain(quiet) != plain(r):
                rec.fail(key + '/result', 'with show=True the result is %s, without %s: %s' % (r, quiet, t), c)
            want = polygons(r)
            new = [n for n in plt.get_fignums() if n != own.number]
            files = sorted(os.listdir(tmp))
            if not want:
                rec.outcome('empty')
                return
            if len(new) != 1:
                rec.fail(key + '/figures', '%d new figures: %s' % (len(new), t), c)
                return
            now = shapes(oax)
            if [[v for v, _ in s] for s in now] != [[v for v, _ in s] for s in old] or len(own.axes) != 1:
                rec.fail(key + '/other', 'an existing figure is changed: %s' % t, c)
            fig = plt.figure(new[0])
            if len(fig.axes) != 1:
                rec.fail(key + '/axes', '%d axes: %s' % (len(fig.axes), t), c)
                return
            ax = fig.axes[0]
            if 'size' in opts and tuple(fig.get_size_inches()) != tuple(opts['size']):
                rec.fail(key + '/size', 'the figure has the size %s: %s' % (fig.get_size_inches(), t), c)
            if three:
                polys = [(v, pc) for pc in ax.collections if hasattr(pc, 'mc_verts') for v in pc.mc_verts]
                miss, extra = pair_off([list(map(tuple, p)) for p in want], polys, same_ring)
                if partial:
                    miss = [m for m in miss if not partial(m)]
                if miss or extra:
                    rec.fail(key + '/faces', 'faces not drawn: %s, drawn instead: %s: %s' % (miss, extra, t), c)
                for l in ax.lines:
                    d = list(zip(*l.get_data_3d()))
                    if not any(same_ring(d, p) for p in want):
                        rec.fail(key + '/edges', 'the line %s is not the boundary of a face: %s' % (d, t), c)
                if opts.get('bounds') is not None:
                    lim = [ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]
                    if any(not close(l, (lo, hi)) for l, lo, hi in zip(lim, *opts['bounds'])):
                        rec.fail(key + '/limits', 'the axes show %s: %s' % (lim, t), c)
            else:
                judge(rec, key, ([tuple(map(float, p)) for P in want for p in opened(P)], want, []), ax, t, c, exact_dots=False)
                if 'title' in opts and ax.get_title() != opts['title']:
                    rec.fail(key + '/title', 'the title is %r: %s' % (ax.get_title(), t), c)
                if 'color' in opts:
                    col = to_rgba(opts['color'], opts['alpha'])
                    for v, p in shapes(ax)[1]:
                        if not close(np.ravel(p.get_facecolor())[:4], col):
                            rec.fail(key + '/color', 'the area has the colour %s instead of %s: %s' % (p.get_facecolor(), col, t), c)
                if opts.get('save'):
                    name = opts['title'] + '.png'
                    if files != [name] or open(name, 'rb').read(8) != b'\x89PNG\r\n\x1a\n':
                        rec.fail(key + '/save', 'files written: %s: %s' % (files, t), c)
            if not opts.get('save') and files:
                rec.fail(key + '/save', 'files written without save=True: %s: %s' % (files, t), c)
            rec.outcome('%d polygons%s' % (min(len(want), 9), ' saved' if opts.get('save') else ''))
    finally:
        os.chdir(here)
        shutil.rmtree(tmp)
        plt.close('all')


OPTS = [{}, {'size': (4, 3), 'title': 'set A', 'color': 'blue', 'alpha': 0.25}, {'bounds': ((-9, -8), (7, 9)), 'color': 'C1', 'alpha': 1.0, 's': 20},
        {'title': 'saved', 'save': True, 'size': (2, 2)}]


def plane(rec, items):
    for kind, G, b, o in items:
        rec.state()
        rec.edge()
        opts = dict(OPTS[o])
        if kind == 'ineq':
            A_, b_ = np.array(G, dtype=float), np.array(b, dtype=float)
            t = 'lineqs of A=%s, b=%s, %s' % (A_.tolist(), b_.tolist(), opts)
            c = 'print(ip.lineqs(np.array(%r), np.array(%r), **%r))' % (A_.tolist(), b_.tolist(), opts)
            draw(rec, 'lineqs', lambda **k: ip.lineqs(A_, b_, **k), t, c, lambda r: [r] if len(r) else [], opts)
        elif kind == 'iplot':
            t = 'IPlot.IntLinIncR2 of %s' % text(G, b)
            c = code(G, b, "ip.IPlot")
            with rec.case('IPlot', t, c, cpu=20):
                r = ip.IntLinIncR2(to_ip(ip, G), to_ip(ip, b), show=False)
                for two in (False, True):
                    iplt = ip.IPlot()
                    fig, ax = iplt.subplots(1, 2)
                    P = [p for p in r if len(p)]
                    if two:
                        P = P[:1]
                        for p in P:
                            iplt.lineqs(p, axindex=1)
                    else:
                        iplt.IntLinIncR2(r, axindex=1)
                    judge(rec, 'IPlot', ([tuple(map(float, p)) for Q in P for p in opened(Q)], P, []), ax[1], t, c, exact_dots=False)
                    if any(shapes(ax[0])):
                        rec.fail('IPlot/axes', 'other axes are drawn on: %s' % t, c)
            plt.close('all')
        else:
            opts['consistency'] = kind
            t = 'IntLinIncR2 of %s, %s' % (text(G, b), opts)
            c = code(G, b, 'ip.IntLinIncR2(A, b, **%r)' % opts)
            draw(rec, 'IntLinIncR2', lambda **k: ip.IntLinIncR2(to_ip(ip, G), to_ip(ip, b), **k), t, c, lambda r: [p for p in r if len(p)], opts)
        rec.trace()
    rec.sample(t)


OPTS3 = [{}, {'size': (3, 3), 'color': 'C2', 'alpha': 0.3}, {'bounds': ((-9, -8, -7), (9, 8, 7))}]


def in_coordinate_plane(face):
    return any(all(abs(p[j]) <= 1e-9 for p in face) for j in range(3))


def space(rec, items):
    for kind, G, b, o in items:
        rec.state()
        rec.edge()
        opts = dict(OPTS3[o])
        if kind == 'ineq':
            A_, b_ = np.array(G, dtype=float), np.array(b, dtype=float)
            t = 'lineqs3D of A=%s, b=%s, %s' % (A_.tolist(), b_.tolist(), opts)
            c = 'print(ip.lineqs3D(np.array(%r), np.array(%r), **%r))' % (A_.tolist(), b_.tolist(), opts)
            draw(rec, 'lineqs3D', lambda **k: ip.lineqs3D(A_, b_, **k), t, c, lambda r: list(r), opts, three=True)
        else:
            opts['consistency'] = kind
            t = 'IntLinIncR3 of %s, %s' % (text(G, b), opts)
            c = code(G, b, 'ip.IntLinIncR3(A, b, **%r)' % opts)
            draw(rec, 'IntLinIncR3', lambda **k: ip.IntLinIncR3(to_ip(ip, G), to_ip(ip, b), **k), t, c,
                 lambda r: [f for q in r for f in q], opts, three=True, partial=in_coordinate_plane)
        rec.trace()
    rec.sample(t)


IV = [(0.0, 0.0), (1.0, 1.0), (-1.0, 2.0), (0.5, 3.0)]


def explore(ctx):
    from checks.c24 import ineqs
    from checks import c25
    from checks.c16 import unbounded, tol_bounded
    th = ctx.thorough
    B = list(itertools.product(IV, repeat=2))
    S = [([b], (1,), g) for b in B for g in GRIDS]
    S += [(list(p), (2,), GRIDS[i % 4]) for i, p in enumerate(itertools.product(B, repeat=2))][::1 if th else 5]
    S += [(list(p), (3,), GRIDS[i % 4]) for i, p in enumerate(itertools.product(B, repeat=3))][::5 if th else 151]
    S += [(list(p), (2, 2), (None, None)) for i, p in enumerate(itertools.product(B, repeat=4))][::997 if th else 5003]
    ctx.run(scatter, S, chunk=4)
    I = [('ineq', R, c, i % 4) for i, (R, c) in enumerate(list(ineqs(101 if th else 907)))]
    L = list(sys2())[::211 if th else 1511] + list(data(2, 5 if th else 37)) + list(sys2(5, 6, 4))[::353 if th else 2003]
    P = [(k, A, b, i % 4) for i, (A, b) in enumerate(L) for k in ('uni', 'tol')] + [('iplot', A, b, 0) for A, b in L[::2]]
    ctx.run(plane, I + P, chunk=4)
    I3 = [('ineq', R, c, 1 + i % 2) for i, (R, c) in enumerate(c25.ineqs(997 if th else 5003)) if i % 2 or c25.cone_bounded(R)]
    I3 = [x if c25.cone_bounded(x[1]) or x[3] == 2 else (x[0], x[1], x[2], 2) for x in I3]
    L3 = [(A, b) for A, b in list(sys3(2503 if th else 9001)) + list(data(3, 19 if th else 101))]
    # boxes in special positions: every combination of intervals on, beside and across zero
    E = [(F(-1), F(1)), (F(1), F(2)), (F(0), F(2)), (F(-3), F(-1))]
    one, zero = (F(1), F(1)), (F(0), F(0))
    L3 += [([[one if i == j else zero for j in range(3)] for i in range(3)], list(b)) for b in itertools.product(E, repeat=3)]
    P3 = [(k, A, b, (i + i // 3) % 3) for i, (A, b) in enumerate(L3) for k in ('uni', 'tol')]
    # without bounds the window depends on the set, its choice is checked in C25
    P3 = [p if not (unbounded(p[1], p[2]) if p[0] == 'uni' else not tol_bounded(p[1], p[2])) else p[:3] + (2,) for p in P3]
    ctx.run(space, I3 + P3, chunk=2)
    ctx.bounds = {'scatter_plots': len(S), 'plane_sets': len(I) + len(P), 'solid_sets': len(I3) + len(P3)}
    ctx.assumptions = ['shapes are read from the Matplotlib artists (vertices, offsets), not from pixels', 'IntLinIncR3 may leave out faces in the coordinate planes (walls between orthants)']
