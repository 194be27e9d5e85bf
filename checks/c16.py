"""C16: bilinear table lookup"""
import itertools

import numpy as np

from numerous.utils.interpolation.bilinear_interpolation import bilinear_interpolation

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['tables of 1-5 by 1-5 nodes with equally spaced axes, as the format (length, minimum, maximum) describes them; the table '
               'values, the arguments and (in the scenarios named free) origin and spacing of the axes are symbolic',
               'the table lies between two other tables whose values are different symbols, so a read outside the table changes the result']


def axis(ctx, n, which, free):
    if free:
        a = ctx.real('%s_min' % which, -10, 10)
        h = 2.0 if free == 1 else ctx.real('%s_step' % which, 0.5, 4)
    else:
        a, h = {'x': (-2.0, 0.5), 'y': (4.0, 2.0)}[which]
    return [a + h * i for i in range(n)]


def table(ctx, nm, ax, ay):
    q = [[ctx.real('%s_%d_%d' % (nm, i, j), -100, 100) for i in range(len(ax))] for j in range(len(ay))]
    return q, [float(len(ax)), float(len(ay)), ax[0], ax[-1], ay[0], ay[-1]] + ax + ay + [v for r in q for v in r]


def lookup(ax, ay, q, i, j, x, y):
    """value in cell (i, j): i, j is the index of the lower node, None where the value does not change along the axis"""
    def along(lo, hi, a, b, v):
        return lo + (hi - lo) * (v - a) / (b - a)
    i2 = i if len(ax) == 1 or x is None else i + 1
    j2 = j if len(ay) == 1 or y is None else j + 1
    lo = q[j][i] if i2 == i else along(q[j][i], q[j][i2], ax[i], ax[i2], x)
    if j2 == j:
        return lo
    hi = q[j2][i] if i2 == i else along(q[j2][i], q[j2][i2], ax[i], ax[i2], x)
    return along(lo, hi, ay[j], ay[j2], y)


def place(ctx, ax, which, kind, k):
    """an argument: at node k / inside cell k / below / above.  -> (argument, index of the cell, argument within the cell or None)"""
    if kind == 'node':
        return ax[k], k, None
    v = ctx.real('arg_' + which, -1000, 1000)
    if kind == 'cell':
        ctx.assume(v > ax[k])
        ctx.assume(v < ax[k + 1])
        return v, k, v
    if kind == 'closed':          # including both ends: neighbouring cells agree there
        ctx.assume(v >= ax[k])
        ctx.assume(v <= ax[k + 1])
        return v, k, v
    if kind == 'below':
        ctx.assume(v < ax[0])
        return v, 0, None
    ctx.assume(v > ax[-1])
    return v, len(ax) - 1, None


def scn(nx, ny, kx, ky, free=0, pos=1):
    def f(ctx):
        ax, ay = axis(ctx, nx, 'x', free), axis(ctx, ny, 'y', free)
        q, d = table(ctx, 'q', ax, ay)
        _, d0 = table(ctx, 'before', [0.0, 1.0], [0.0, 3.0])
        _, d2 = table(ctx, 'after', [0.0, 1.0], [0.0, 3.0])
        parts = [d0, d2]
        parts.insert(pos, d)
        defs, data = [], []
        for p in parts:
            defs.append(len(data))
            data += p
        def rng(kind, n):
            return list(range(n)) if kind == 'node' else list(range(n - 1)) if kind in ('cell', 'closed') else [0]
        i = ctx.choice('i', rng(kx, nx))
        j = ctx.choice('j', rng(ky, ny))
        x, i, xv = place(ctx, ax, 'x', kx, i)
        y, j, yv = place(ctx, ay, 'y', ky, j)
        z = bilinear_interpolation(pos, x, y, np.array(defs, dtype=np.int64), np.array(data))
        ctx.eq(z, lookup(ax, ay, q, i, j, xv, yv), 'value at %s/%s (%d, %d)' % (kx, ky, i, j))
    return f


# ------------------------------------------------------------------ arguments at a node, index computed with a rounding error
def noisy_node(nx, ny):
    """at a node of an axis whose spacing is not a float the computed position may be off by a rounding error to either side:
    the arguments are the stored nodes, and the axes limits carry a small symbolic deviation"""
    def f(ctx):
        i = ctx.choice('i', list(range(nx)))
        j = ctx.choice('j', list(range(ny)))
        sx, sy = ctx.choice('sx', [0, 1, 2]), ctx.choice('sy', [0, 1, 2])
        q = [[ctx.real('q_%d_%d' % (a, b), -100, 100) for a in range(nx)] for b in range(ny)]
        if ctx.symbolic:
            ax, ay = [], []
            for out, n, w, s in ((ax, nx, 'x', sx), (ay, ny, 'y', sy)):
                e = ctx.real('dev_' + w, 0, 1e-9)
                k = i if w == 'x' else j
                for a in range(n):
                    # the ends are exact; a node between them may deviate
                    out.append(float(a) + (0 if a in (0, n - 1) or s == 0 or a != k else e if s == 1 else -e))
        else:
            ax, ay = floataxis(nx, i, sx), floataxis(ny, j, sy)
        data = [float(nx), float(ny), ax[0], ax[-1], ay[0], ay[-1]] + ax + ay + [v for r in q for v in r]
        z = bilinear_interpolation(0, ax[i], ay[j], np.array([0], dtype=np.int64), np.array(data))
        ctx.eq(z, q[j][i], 'value at node (%d, %d) of an axis with rounding' % (i, j), tol=1e-4)
    return f


def floataxis(n, k, s):
    """an equally spaced axis of floats where the computed position of node k is exact / above / below k (the nearest there is)"""
    import random
    r = random.Random(3)
    for _ in range(20000):
        h, a = r.choice([0.1, 0.3, 0.7, r.random()]), r.choice([0.0, 0.1, r.random()])
        ax = [a + h * i for i in range(n)]
        p = (ax[k] - ax[0]) / (ax[-1] - ax[0]) * (n - 1) if n > 1 else 0.0
        if (s == 0 and p == k) or (s == 1 and p > k) or (s == 2 and p < k):
            return ax
    return [0.1 * i for i in range(n)]


SCENARIOS = []
KINDS = ('node', 'cell', 'closed', 'below', 'above')
for _nx, _ny in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (3, 3), (5, 4), (4, 5)):
    for _kx, _ky in itertools.product(KINDS, KINDS):
        if (_nx == 1 and _kx in ('cell', 'closed')) or (_ny == 1 and _ky in ('cell', 'closed')):
            continue
        SCENARIOS.append(Scn('t%dx%d_%s_%s' % (_nx, _ny, _kx, _ky), scn(_nx, _ny, _kx, _ky, pos=(_nx + _ny) % 3), tier='quick' if _nx * _ny <= 8 else 'thorough',
                             witness=_nx * _ny <= 6, bounds='table %d by %d, every argument of this kind' % (_nx, _ny)))
for _nx, _ny in ((2, 3), (3, 3)):
    for _kx, _ky in itertools.product(KINDS, KINDS):
        SCENARIOS.append(Scn('free%dx%d_%s_%s' % (_nx, _ny, _kx, _ky), scn(_nx, _ny, _kx, _ky, free=1), tier='quick' if _nx == 2 else 'thorough',
                             witness=_nx == 2, bounds='table %d by %d with symbolic origin of the axes' % (_nx, _ny)))
for _nx, _ny in ((2, 2), (4, 3), (8, 7)):
    SCENARIOS.append(Scn('rounding%dx%d' % (_nx, _ny), noisy_node(_nx, _ny), tier='quick' if _nx < 8 else 'thorough', bounds='all nodes of a %d by %d table, position computed too low, exact or too high' % (_nx, _ny)))
