"""C08: loading external data in chunks never loses or repeats samples"""
import random

from vlib.runner import Scn
from checks.extd import *
from checks.c07 import EQS, TIMES, LIN, PW, layout, check_at
from numerous.solver.solve_states import SolveEvent

ASSUMPTIONS = ['the CSV text is read by pandas; symbolic data values stand in the text as unique numbers which are turned back into the symbolic value (vlib/sympd.py)',
               'sample times are concrete; request times are at a sample or at least 1e-7 away from it']

ROWS = {1: [0.0], 2: [0.0, 2.0], 3: [0.0, 1.0, 3.0], 5: [0.0, 0.5, 2.5, 3.0, 7.0], 8: [0.0, 1.0, 2.0, 4.0, 4.5, 5.0, 5.5, 6.0]}


def model(ctx, mk_frames, chunk, where='flat', t0=0.0, one_loader=True, index=False, later=False):
    items = {t: It(t, init={v: ctx.real(t + v, -100, 100) for v in It.V}) for t in 'ab'}
    sysf, paths = layout(where, items)
    frames = mk_frames(ctx, paths)
    loader = CSVDataLoader(chunk)
    for f in frames:
        f.csv('%s.csv' % f.name, index=index)
    els = [f.element('%s.csv' % f.name) for f in frames]
    if later:
        root = sysf()
    elif one_loader or len(frames) == 1:
        root = sysf(external_mappings=els, data_loader=loader)
    else:
        root = sysf(external_mappings=els[:1], data_loader=loader)
        for f, e in zip(frames[1:], els[1:]):
            root.register_items([Subsystem('d_' + f.name, external_mappings=[e], data_loader=CSVDataLoader(chunk))])
    m = Model(root, use_llvm=False)
    s = plain_sim(m, t0, t0 + 1.0, 1)
    if later:
        m.set_external_mappings(els, loader)
    return m, s, frames, paths


def request(s, t):
    """as the solver loop does at time t"""
    iface, h = s.solver.interface, s.solver.event_handler
    r = iface.post_step(t, iface.get_states())
    if r in (SolveEvent.ExternalDataUpdate, SolveEvent.HistorianAndExternalUpdate):
        h.handle_solve_event(iface, r, t)
    return r


def sequence(mk_frames, chunk, n, **k):
    """arbitrary times, in any order"""
    def f(ctx):
        m, s, frames, paths = model(ctx, mk_frames, chunk, **k)
        cur = dict(values_of(m))
        for i in range(n):
            t = time_in(ctx, 't%d' % i, frames)
            request(s, t)
            cur = check_at(ctx, m, s, frames, cur, t, 'request %d' % i)
    return f


def begin(mk_frames, chunk, t0, **k):
    def f(ctx):
        m, s, frames, paths = model(ctx, mk_frames, chunk, t0=t0, **k)
        got = values_of(m)
        exp = expected(got, frames, t0)
        for p in mapped(frames):
            ctx.eq(got[p], exp[p], '%s at the start time %s' % (p, t0))
        t = time_in(ctx, 't0', frames)
        request(s, t)
        check_at(ctx, m, s, frames, dict(got), t, 'then')
    return f


def simulated(mk_frames, chunk, t0, t1, num, max_step=1e9, size=0, reset=False, **k):
    def f(ctx):
        m, s, frames, paths = model(ctx, mk_frames, chunk, t0=t0, **k)
        iface = s.solver.interface
        times = [t0 + i * (t1 - t0) / num for i in range(num + 1)]
        before = dict(values_of(m))
        for rnd in range(2 if reset else 1):
            d = drv.Run(ctx, s, m, times, max_step=max_step, tag='r%d' % rnd)
            d.solve()
            ctx.check(len(d.rows) == num + 1, 'one row per output time')
            for t, vals in drv.history(m):
                exp = expected(before, frames, t)
                for p in mapped(frames):
                    ctx.eq(vals[p], exp[p], 'run %d: %s recorded at %s' % (rnd, p, t))
            if reset and not rnd:
                s.reset(t0)
    return f


def direct(n, chunk, k, time_col=0, index=False):
    """the loader by itself: the rows that are returned are rows of the file in order, and cover the time"""
    def f(ctx):
        cols = ['c1', 'c2']
        cols.insert(time_col, 'time')
        ts = ROWS[n]
        data = {c: [ctx.real('%s_%d' % (c, i), -100, 100) for i in range(n)] for c in ('c1', 'c2')}
        data['time'] = ts
        sympd.write_csv('f.csv', cols, [[data[c][i] for c in cols] for i in range(n)], index=index)
        ld = CSVDataLoader(chunk)
        for j in range(k):
            t = ctx.real('t%d' % j, -1.0, ts[-1] + 1)
            for x in ts:
                ctx.assume((t - x == 0) | (t - x >= 1e-7) | (t - x <= -1e-7))
            df = ld.load('f.csv', t)
            got = df.iloc[:, time_col + (1 if index else 0)].tolist()
            ctx.check(len(got) > 0, 'request %d: there are rows' % j)
            i0 = ts.index(got[0])
            ctx.check(got == ts[i0:i0 + len(got)], 'request %d: consecutive rows of the file, got %s' % (j, got))
            for ci, c in enumerate(cols):
                if c != 'time':
                    v = df.iloc[:, ci + (1 if index else 0)].tolist()
                    for i in range(len(got)):
                        ctx.eq(v[i], data[c][i0 + i], 'request %d: column %s in row %d' % (j, c, i0 + i))
            if t >= ts[0]:
                ctx.check(got[0] <= t, 'request %d: the data starts at or before the time' % j)
            if t < ts[-1]:
                ctx.check(got[-1] > t, 'request %d: the data goes beyond the time' % j)
            else:
                ctx.check(got[-1] == ts[-1], 'request %d: the data goes to the end of the file' % j)
    return f


def one(n, maps, mult=1, start=0, off=0.0, time_col='time', cols=('c1', 'c2'), name='d'):
    def mk(ctx, paths):
        mp = {paths[v.split('.')[0]] + v.split('.')[1]: c for v, c in maps.items()}
        return [Frame(ctx, name, [off + t for t in ROWS[n]], cols, mp, mult=mult, start=start, time_col=time_col)]
    return mk


def two(n1, n2, maps1, maps2, mult=(1, 1), start=(0, 0), off=(0.0, 0.0), time_cols=('time', 'time')):
    def mk(ctx, paths):
        return one(n1, maps1, mult=mult[0], start=start[0], off=off[0], time_col=time_cols[0])(ctx, paths) + \
            one(n2, maps2, mult=mult[1], start=start[1], off=off[1], time_col=time_cols[1], name='e')(ctx, paths)
    return mk


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))


ML = {'a.p': ('c1', LIN), 'b.p': ('c2', LIN)}
MP = {'a.p': ('c1', PW), 'b.u': ('c2', LIN)}
QUICK = {(3, 1), (5, 2), (8, 3)}
for _n in (1, 2, 3, 5, 8):
    for _c in (1, 2, 3, 4, 8, 1000, None):
        if _c and _c != 1000 and _c > _n + 1:
            continue
        _q = 'quick' if (_n, _c) in QUICK or (_n == 5 and _c in (1, None, 1000)) else 'thorough'
        S('direct_n%d_c%s' % (_n, _c), direct(_n, _c, 2 if _n <= 5 else 1, time_col=_n % 3), tier=_q)
        S('sequence_n%d_c%s' % (_n, _c), sequence(one(_n, MP if _n % 2 else ML), _c, 2 if _n < 5 else 1, index=_n % 2 == 0), tier=_q)
        if _n > 1:
            S('run_n%d_c%s' % (_n, _c), simulated(one(_n, MP), _c, 0.0, ROWS[_n][-1], 4), tier=_q)
S('direct_index', direct(5, 2, 2, 1, index=True))
S('direct_back', direct(3, 1, 3, 1))
S('direct_back5', direct(5, 1, 3, 1), tier='thorough', timeout=600)
for _c in (1, 2, 3):
    S('sequence3_c%d' % _c, sequence(one(3, MP), _c, 3), tier='thorough', timeout=600)
    S('sequence2_c%d' % _c, sequence(one(5, MP), _c, 2), tier='thorough', timeout=600)
    for _col in ('hour', 't'):
        S('column_%s_c%d' % (_col, _c), sequence(one(5, MP, time_col=_col), _c, 1))
    for _st in (1, 2, 3):
        S('from_row%d_c%d' % (_st, _c), sequence(one(5, ML, start=_st), _c, 1), tier='quick' if _c == 2 else 'thorough')
        S('run_from_row%d_c%d' % (_st, _c), simulated(one(5, MP, start=_st), _c, ROWS[5][_st], 6.5, 4), tier='quick' if _c == 2 else 'thorough')
    for _mult in (1024, 0.5):
        S('scaled_%s_c%d' % (_mult, _c), sequence(one(5, MP, mult=_mult), _c, 1), tier='quick' if _c != 3 else 'thorough')
        S('run_scaled_%s_c%d' % (_mult, _c), simulated(one(5, MP, mult=_mult), _c, 0.0, 7 * _mult, 7), tier='quick' if _c != 3 else 'thorough')
    for _t0 in (0.5, 2.75, 5.0):
        S('begin_%s_c%d' % (_t0, _c), begin(one(5, MP), _c, _t0), tier='quick' if _c == 2 else 'thorough')
        S('begin_later_%s_c%d' % (_t0, _c), begin(one(5, ML), _c, _t0, later=True), tier='quick' if _c == 1 else 'thorough')
    S('run_late_c%d' % _c, simulated(one(5, MP), _c, 2.75, 6.0, 4))
    S('run_small_steps_c%d' % _c, simulated(one(5, MP), _c, 0.0, 7.0, 4, max_step=0.625), tier='quick' if _c == 2 else 'thorough')
    S('run_reset_c%d' % _c, simulated(one(5, MP), _c, 0.0, 7.0, 4, reset=True))
    for _i, (_n1, _n2, _kw) in enumerate([(3, 3, {}), (3, 5, {}), (5, 3, dict(off=(0.0, 0.25))), (5, 5, dict(mult=(1, 2), off=(0.0, 0.25))),
                                          (5, 3, dict(start=(1, 0), time_cols=('t', 'hour')))]):
        for _one in (True, False):
            _t = 'quick' if (_c + _i + _one) % 3 == 0 else 'thorough'
            S('two_%d_c%d_%s' % (_i, _c, 'shared' if _one else 'own'),
              sequence(two(_n1, _n2, {'a.p': ('c1', LIN), 'b.pp': ('c2', PW)}, {'b.p': ('c2', LIN)}, **_kw), _c, 1, one_loader=_one, where='nested'), tier=_t)
            S('two_run_%d_c%d_%s' % (_i, _c, 'shared' if _one else 'own'),
              simulated(two(_n1, _n2, {'a.p': ('c1', LIN), 'b.pp': ('c2', PW)}, {'b.p': ('c2', LIN)}, **_kw), _c, 0.5, 2.5, 4, one_loader=_one), tier=_t)
