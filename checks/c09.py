"""C09: the history records every stored instant with the values at that instant"""
import random

import pandas as pd

from vlib.runner import Scn
from vlib.scn import *
from vlib import sympd
from checks import c03, c04, drv
from numerous.utils.historian import InMemoryHistorian, LocalHistorian
from numerous.utils.logger_levels import LoggerLevel

ASSUMPTIONS = ['the steps of the integration method are replaced by steps to arbitrary states; times of output, steps and events are enumerated',
               'the loop of the external solver package runs as it is (interpreted)']


class It(Node):
    V = {'x': ('state', 1.0), 'y': ('state', 2.0), 'p': ('par', 3.0), 'q': ('par', 0.0)}

    @Equation()
    def ev(self, scope):
        scope.q = scope.x * 2 + scope.p
        scope.x_dot = scope.q
        scope.y_dot = scope.x - scope.y


def run(size, nout, max_step, local=False, events=None, stamps=None, steps=False, twice=False, external=False):
    """size: rows of the history buffer (0: as large as the model decides)"""
    def f(ctx):
        if local:
            h = LocalHistorian('history.csv', size)
        else:
            h = InMemoryHistorian()
            h.max_size = size
        items = [It(t, init={v: ctx.real(t + v, -100, 100) for v in It.V}) for t in ('a', 'b')]
        m = Model(Sys('s', items), use_llvm=False, historian=h)
        if events:
            m.add_event('e', _cond, _act)
        if stamps:
            m.add_timestamp_event('te', _act2, timestamps=stamps, is_external=external)
        s = plain_sim(m, 0.0, float(nout), nout)
        r = drv.Run(ctx, s, m, [float(k) for k in range(nout + 1)], max_step=max_step, state_events={t: [0] for t in events or []})
        if steps:
            t = 0.0
            for k in range(nout):
                t, _ = r.step(t, 1.0)
            m.create_historian_df()
        else:
            r.solve()
        rows = list(r.rows)
        want = nout + 1 + len(events or []) + (len(stamps or []) if not external else 0)
        if not steps:
            ctx.check(len(rows) >= want, 'there are rows for %d output times and %d events' % (nout + 1, want - nout - 1))
            for k in range(nout + 1):
                ctx.check(any(abs(t - k) < 1e-9 for t, _ in rows), 'the output at time %d is stored' % k)
        if twice:
            r2 = drv.Run(ctx, s, m, [float(k) for k in range(nout + 1)], max_step=max_step, tag='r2')
            r2.solve()
            rows += r2.rows
        drv.check_history(ctx, m, rows)
        if local:
            check_file(ctx, m, rows)
    return f


def check_file(ctx, m, rows):
    df = pd.read_csv('history.csv')
    ctx.check(len(df) == len(rows), 'the file has one row for each of the %d stored times, has %d' % (len(rows), len(df)))
    col = {}
    for n in m.logged_variables:
        vid = m.aliases[n]
        c = [c for c in df.columns if c in (n, vid)]
        ctx.check(len(c) == 1, 'the file has a column for %s' % n)
        col[n] = list(df[c[0]])
    ts = list(df['time'])
    for k, (t, vals) in enumerate(rows):
        ctx.eq(ts[k], t, 'file: time of row %d' % k)
        for n in col:
            ctx.eq(col[n][k], vals[n], 'file: %s in row %d' % (n, k))


def _cond(t, v):
    return v['s.a.t1.x']


def _act(t, v):
    v['s.a.t1.x'] = -v['s.a.t1.x']
    v['s.b.t1.p'] = t


def _act2(t, v):
    v['s.a.t1.p'] = v['s.b.t1.y'] + 1


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))



class Lg(Node):
    """variables of all logging levels"""
    V = {'x': ('state', 1.0), 'y': ('state', 2.0), 'p': ('par', 3.0), 'q': ('par', 0.0), 'w': ('par', 0.5)}

    def __init__(self, tag, init, log, alias=None):
        Item.__init__(self, tag)
        EquationBase.__init__(self)
        ns = self.create_namespace('t1')
        declare(self, self.V, init, log=log, alias=alias)
        ns.add_equations([self])

    @Equation()
    def ev(self, scope):
        scope.q = scope.x * 2 + scope.p
        scope.x_dot = scope.q + scope.w
        scope.y_dot = scope.x - scope.y


LEVELS = {'ALL': LoggerLevel.ALL, 'DEBUG': LoggerLevel.DEBUG, 'INFO': LoggerLevel.INFO}


def levels(level, seed, local=False):
    """variables of arbitrary levels: exactly those at or above the level of the model are recorded"""
    def f(ctx):
        r = random.Random(seed)
        log, items, init = {}, [], {}
        for t in ('a', 'b'):
            log[t] = {v: r.choice(list(LEVELS.values())) for v in Lg.V if r.random() < .8}
            init[t] = {v: ctx.real(t + v, -100, 100) for v in Lg.V}
            items.append(Lg(t, init[t], log[t]))
        if r.random() < .6:
            items[0].t1.w = items[1].t1.q
        h = LocalHistorian('history.csv', r.choice([0, 1, 2])) if local else InMemoryHistorian()
        sub = Sys('k', [items[1]])
        m = Model(Sys('s', [items[0], sub]), use_llvm=False, historian=h, logger_level=LEVELS[level])
        s = plain_sim(m, 0.0, 2.0, 2)
        d = drv.Run(ctx, s, m, [0.0, 1.0, 2.0])
        d.solve()
        want = set()
        for t, pre in (('a', 's.a.t1.'), ('b', 's.k.b.t1.')):
            for v in Lg.V:
                if log[t].get(v, LoggerLevel.ALL).value >= LEVELS[level].value:
                    want.add(pre + v)
        derivs = {pre + v + '_dot' for pre in ('s.a.t1.', 's.k.b.t1.') for v in 'xy'}
        cols = recorded(m) - {'time'}
        ctx.check(want <= cols, 'variables %s are recorded' % sorted(want - cols))
        ctx.check(cols - derivs <= want, 'variables %s below the logging level are not recorded' % sorted(cols - derivs - want))
        df = m.historian_df
        ctx.check(len(df['time']) == len(d.rows) == 3, 'three rows')
        for n in sorted(want):
            c = list(df[n])
            for k, (t, vals) in enumerate(d.rows):
                ctx.eq(c[k], vals[n], '%s in row %d' % (n, k))
        if local:
            fd = pd.read_csv('history.csv')
            cols = {c for c in fd.columns if c.startswith('s.')}
            ctx.check(want <= cols, 'the file has %s' % sorted(want - cols))
            ctx.check(cols - derivs <= want, 'the file does not have %s' % sorted(cols - derivs - want))
            for n in sorted(want):
                c = list(fd[n])
                for k, (t, vals) in enumerate(d.rows):
                    ctx.eq(c[k], vals[n], 'file: %s in row %d' % (n, k))
    return f


def recorded(m):
    """the names under which the data frame has values"""
    ids = set(m.historian_df.df.columns)
    return {n for n in m.aliases if m.aliases[n] in ids or n in ids}


def aliases(local=False):
    """a variable with an alias of its own is recorded under its qualified name, and found by its alias"""
    def f(ctx):
        init = {t: {v: ctx.real(t + v, -100, 100) for v in Lg.V} for t in 'ab'}
        a = Lg('a', init['a'], {}, alias={'x': 'speed', 'q': 'load'})
        b = Lg('b', init['b'], {}, alias={'p': 'gain'})
        h = LocalHistorian('history.csv', 2) if local else InMemoryHistorian()
        m = Model(Sys('s', [a, b]), use_llvm=False, historian=h)
        s = plain_sim(m, 0.0, 3.0, 3)
        d = drv.Run(ctx, s, m, [0.0, 1.0, 2.0, 3.0])
        d.solve()
        names = {'s.%s.t1.%s' % (t, v) for t in 'ab' for v in Lg.V}
        df = m.historian_df
        for n in sorted(names):
            ctx.check(n in m.logged_variables or n in m.aliases, '%s is recorded' % n)
            c = list(df[n])
            for k, (t, vals) in enumerate(d.rows):
                ctx.eq(c[k], vals[n], '%s in row %d' % (n, k))
    return f


def generated(seed, size, local=False, sets=False):
    """generated systems: the recorded values of all variables, by their qualified names"""
    def f(ctx):
        spec, kw = (c04.gen_spec if sets else c03.gen_spec)(seed)
        if not sets:
            spec = c03.limit(spec, 0)
        h = LocalHistorian('history.csv', size) if local else InMemoryHistorian()
        h.max_size = size
        m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, model_only=True, historian=h, **kw)
        s = plain_sim(m, 0.0, 2.0, 2)
        y0 = {p: ctx.real('y0_' + p, -100, 100) for p in state_order(m)}
        d = drv.Run(ctx, s, m, [0.0, 1.0, 2.0])
        d.solve()
        ctx.check(len(d.rows) == 3, 'three rows are stored')
        for p in sorted(init):
            ctx.check(p in m.logged_variables, '%s is recorded' % p)
        drv.check_history(ctx, m, d.rows, names=sorted(init))
        if local:
            check_file(ctx, m, d.rows)
    return f


def midway(size, n):
    """the history can be collected at any time without losing or repeating rows"""
    def f(ctx):
        h = InMemoryHistorian()
        h.max_size = size
        items = [It(t, init={v: ctx.real(t + v, -100, 100) for v in It.V}) for t in ('a', 'b')]
        m = Model(Sys('s', items), use_llvm=False, historian=h)
        s = plain_sim(m, 0.0, float(n), n)
        r = drv.Run(ctx, s, m, [])
        t = 0.0
        for k in range(n):
            t, _ = r.step(t, 1.0)
            if ctx.bool('collect%d' % k):
                m.create_historian_df()
        m.create_historian_df()
        drv.check_history(ctx, m, r.rows)
    return f


def buffer(n, size):
    """the buffer itself: any values (also nan) at any times, collected whenever it is full"""
    def f(ctx):
        h = InMemoryHistorian()
        h.max_size = size
        items = [It('a', init={v: ctx.real('a' + v, -100, 100) for v in It.V})]
        m = Model(Sys('s', items), use_llvm=False, historian=h)
        s = plain_sim(m, 0.0, float(n), n)
        nm = m.numba_model
        rows = []
        t = ctx.real('t0', -100, 100)
        for k in range(n):
            vals = {p: ctx.real('r%d_%s' % (k, p), -100, 100) for p in sorted(m.aliases)}
            if ctx.bool('nan%d' % k):
                vals['s.a.t1.p'] = float('nan')
            m.set_variables(vals)
            nm.historian_update(t)
            rows.append((t, vals))
            ctx.check(nm.is_store_required() == (nm.historian_ix >= size), 'the buffer asks to be stored when it is full')
            if nm.is_store_required():
                s.solver.interface
                m.create_historian_df()
                nm.historian_reinit()
            dt = ctx.real('dt%d' % k, 0, 10)
            t = t + dt
        m.create_historian_df()
        got = drv.history(m)
        ctx.check(len(got) == n, '%d rows' % n)
        for k, (t, vals) in enumerate(rows):
            ctx.eq(got[k][0], t, 'time of row %d' % k)
            for p in sorted(vals):
                v, w = got[k][1][p], vals[p]
                if isinstance(w, float) and w != w:
                    ctx.check(isinstance(v, float) and v != v, '%s is nan in row %d' % (p, k))
                else:
                    ctx.eq(v, w, '%s in row %d' % (p, k))
    return f


for _n in (1, 2, 3, 5):
    for _size in (0, 1, 2, 3):
        S('mem_n%d_size%d' % (_n, _size), run(_size, _n, 1e9), tier='quick' if _n in (2, 5) else 'thorough')
        S('file_n%d_size%d' % (_n, _size), run(_size, _n, 1e9, local=True), tier='quick' if _n in (2, 5) else 'thorough')
        S('steps_n%d_size%d' % (_n, _size), run(_size, _n, 1e9, steps=True), tier='quick' if _n == 3 else 'thorough')
for _size in (0, 1, 2, 3, 4):
    _q = 'quick' if _size in (0, 1, 3) else 'thorough'
    S('small_steps_size%d' % _size, run(_size, 3, 0.5), tier=_q)
    S('events_size%d' % _size, run(_size, 3, 1e9, events=[0.5, 1.25, 1.75]), tier=_q)
    S('events_file_size%d' % _size, run(_size, 2, 1e9, events=[0.5, 1.25], local=True), tier=_q)
    S('stamps_size%d' % _size, run(_size, 3, 1e9, stamps=[0.5, 1.25, 1.5]), tier=_q)
    S('stamps_file_size%d' % _size, run(_size, 2, 1e9, stamps=[0.5, 1.25], local=True), tier=_q)
    S('external_size%d' % _size, run(_size, 2, 1e9, stamps=[0.5, 1.25], external=True), tier=_q)
    S('both_size%d' % _size, run(_size, 3, 1e9, events=[0.5, 2.25], stamps=[0.75, 1.0, 2.5]), tier=_q)
    S('twice_size%d' % _size, run(_size, 2, 1e9, twice=True), tier=_q)
    S('twice_file_size%d' % _size, run(_size, 2, 1e9, twice=True, local=True), tier=_q)
for _lv in LEVELS:
    for _k in range(6):
        S('level_%s_%d' % (_lv, _k), levels(_lv, _k, local=_k % 2 == 1), tier='quick' if _k < 2 else 'thorough')
S('alias', aliases())
S('alias_file', aliases(True))
for _size, _n in ((2, 3), (0, 3), (1, 3), (3, 4)):
    S('midway_size%d' % _size, midway(_size, _n))
    if _size:
        S('buffer_size%d_n%d' % (_size, _n), buffer(_n, _size))
for _k in range(24):
    S('gen_%d' % _k, generated(300 + _k, _k % 3, local=_k % 2 == 1, sets=_k % 4 == 3), tier='quick' if _k < 6 else 'thorough')
