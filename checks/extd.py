"""systems with external data: shared by C07, C08, C12 and C13"""
import random

import numpy as np
import pandas as pd

from vlib.scn import *
from vlib import sympd
from checks import drv
from numerous.engine.system.external_mappings import ExternalMappingElement
from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
from numerous.utils.data_loader import InMemoryDataLoader, CSVDataLoader

LIN, PW = InterpolationType.LINEAR, InterpolationType.PIESEWISE


class It(Node):
    V = {'x': ('state', 1.0), 'p': ('par', 3.0), 'pp': ('par', 4.0), 'q': ('par', 0.0), 'u': ('par', 7.0), 'k': ('const', 2.0)}

    @Equation()
    def ev(self, scope):
        scope.q = scope.p * scope.k + scope.pp
        scope.x_dot = scope.q - scope.x + scope.u


class Ext(Subsystem):
    def __init__(self, tag, items, external_mappings=None, data_loader=None):
        super().__init__(tag, external_mappings, data_loader)
        self.register_items(items)


class Frame:
    """columns of data and the variables they are mapped to: maps = {variable path: (column, kind)}"""

    def __init__(self, ctx, name, times, columns, maps, mult=1, start=0, time_col='time', extra=(), lo=-100, hi=100):
        self.name, self.mult, self.start, self.time_col, self.maps = name, mult, start, time_col, maps
        self.raw_times = list(times)
        self.cols = {c: [ctx.real('%s_%s_%d' % (name, c, i), lo, hi) for i in range(len(times))] for c in columns}
        self.order = [time_col] + list(columns)
        random.Random(name).shuffle(self.order)
        self.times = [mult * t for t in self.raw_times][start:]

    def rows(self):
        return [[self.raw_times[i] if c == self.time_col else self.cols[c][i] for c in self.order] for i in range(len(self.raw_times))]

    def df(self):
        # (objects: pandas must not look at symbolic values)
        def col(v):
            return pd.Series(v, dtype=object) if any(not isinstance(x, (int, float)) for x in v) else pd.Series(v)
        return pd.DataFrame({c: col(self.raw_times if c == self.time_col else self.cols[c]) for c in self.order})

    def csv(self, path, index=False):
        sympd.write_csv(path, self.order, self.rows(), index=index)

    def element(self, df_id='inmemory'):
        return ExternalMappingElement(df_id, self.time_col, self.start, self.mult, dict(self.maps))

    def value(self, path, t):
        """the value of the column at time t: the specification"""
        col, kind = self.maps[path]
        v = self.cols[col][self.start:]
        ts = self.times
        last = 0
        for i in range(1, len(ts)):
            if ts[i] <= t:
                last = i
        if kind == PW or last == len(ts) - 1:
            return v[last]
        return v[last] + (v[last + 1] - v[last]) * (t - ts[last]) / (ts[last + 1] - ts[last])


def time_in(ctx, name, frames):
    """an arbitrary time covered by all frames, not within rounding of a sample unless at it"""
    t = ctx.real(name, -1e6, 1e6)
    for f in frames:
        ctx.assume((t >= f.times[0]) & (t <= f.times[-1]))
        for s in f.times:
            d = t - s
            ctx.assume((d == 0) | (d >= 1e-7) | (d <= -1e-7))
    return t


def expected(values, frames, t):
    out = dict(values)
    for f in frames:
        for p in f.maps:
            out[p] = f.value(p, t)
    return out


def mapped(frames):
    return sorted(p for f in frames for p in f.maps)
