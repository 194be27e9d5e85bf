"""C12: the solver pauses exactly when history or external data must be exchanged"""
from vlib.runner import Scn
from checks.extd import *
from checks.c07 import layout
from numerous.solver.solve_states import SolveEvent
from numerous.utils.data_loader import DataLoader
from numerous.utils.historian import InMemoryHistorian, LocalHistorian

ASSUMPTIONS = ['buffer sizes, fill levels and sample times are enumerated; times of steps are arbitrary',
               'in runs, the steps of the integration method are replaced by steps to arbitrary states']


class Slices(DataLoader):
    """a data loader as a user may write it: `width` rows from the last row that is not after t"""

    def __init__(self, frames, width):
        super().__init__()
        self.frames, self.width, self.seen, self.window = {f.name: f for f in frames}, width, [], {}

    def load(self, df_id, t):
        f = self.frames[df_id]
        ts = f.raw_times
        i = 0
        while i + 1 < len(ts) and ts[i + 1] <= t:
            i += 1
        i = max(0, min(i, len(ts) - 1))
        part = slice(i, i + self.width)
        self.seen.append((df_id, t))
        self.window[df_id] = (f.mult * ts[part][0], f.mult * ts[part][-1])
        return f.df().iloc[part]

    def covers(self, t):
        return all((w[0] <= t) & (t <= w[1]) for w in self.window.values())


def model(ctx, size, mk_frames=None, width=None, t0=0.0, num=1, t1=None, where='flat', historian='memory', post=None, events=False):
    items = {t: It(t, init={v: ctx.real(t + v, -100, 100) for v in It.V}) for t in 'ab'}
    sysf, paths = layout(where, items)
    frames, loader = [], None
    if mk_frames:
        frames = mk_frames(ctx, paths)
        loader = Slices(frames, width or 1000)
        root = sysf(external_mappings=[f.element(f.name) for f in frames], data_loader=loader)
    else:
        root = sysf()
    h = LocalHistorian('history.csv', size) if historian == 'local' else InMemoryHistorian()
    h.max_size = size
    m = Model(root, use_llvm=False, historian=h)
    if events:
        m.add_event('e', _cond, _act)
    s = plain_sim(m, t0, t1 or t0 + 1.0, num)
    return m, s, frames, loader


def _cond(t, v):
    return v['s.a.t1.x']


def _act(t, v):
    v['s.b.t1.k'] = t


def any_time(ctx, name, frames, lo=-1e6, hi=1e6):
    t = ctx.real(name, lo, hi)
    for f in frames:
        for x in f.times:
            ctx.assume((t - x == 0) | (t - x >= 1e-7) | (t - x <= -1e-7))
    return t


def kind(r):
    return {SolveEvent.Historian: (True, False), SolveEvent.ExternalDataUpdate: (False, True),
            SolveEvent.HistorianAndExternalUpdate: (True, True), SolveEvent.NoneEvent: (False, False)}[r]


def signals(size, mk_frames=None, width=None, at=None, **k):
    """at every fill level and (arbitrary at level `at` if given, else at all) time: what the solver is told, and that asking does not change anything"""
    def f(ctx):
        m, s, frames, loader = model(ctx, size, mk_frames, width, **k)
        iface = s.solver.interface
        rows = []
        for lvl in range(size + 1):
            t = any_time(ctx, 't%d' % lvl, frames) if at in (None, lvl) else frames[0].times[0]
            full = lvl >= size
            out = bool(frames) and not loader.covers(t)
            r = iface.post_step(t, iface.get_states())
            ctx.check(kind(r) == (full, out), '%d of %d rows filled, t %s the data: the solver is told %s' % (lvl, size, 'outside' if out else 'inside', r))
            if out or lvl in (0, size - 1):
                r = iface.post_step(t, iface.get_states())
                ctx.check(kind(r) == (full, out), '%d of %d rows filled: asked again, the solver is told %s' % (lvl, size, r))
            if lvl < size:
                tr = ctx.real('r%d' % lvl)
                rows.append((tr, dict(values_of(m))))
                r = iface.historian_update(tr, iface.get_states())
                ctx.check(kind(r) == (lvl + 1 >= size, False), 'row %d of %d is stored: the solver is told %s' % (lvl + 1, size, r))
        m.create_historian_df()
        drv.check_history(ctx, m, rows)
    return f


def exchange(size, fills, mk_frames=None, width=None, which=None, **k):
    """fill levels in turn, with an exchange at each: rows are kept in order, the buffer is empty, the data covers the time"""
    def f(ctx):
        m, s, frames, loader = model(ctx, size, mk_frames, width, **k)
        iface, h = s.solver.interface, s.solver.event_handler
        rows, kept = [], 0
        for j, n in enumerate(fills):
            for i in range(n):
                tr = ctx.real('r%d_%d' % (j, i))
                y = [ctx.real('y%d_%d_%d' % (j, i, q), -100, 100) for q in range(2)]
                iface.set_states(np.array(y))
                rows.append((tr, dict(values_of(m))))
                iface.historian_update(tr, iface.get_states())
            t = any_time(ctx, 't%d' % j, frames) if frames else ctx.real('t%d' % j)
            for fr in frames:
                ctx.assume((t >= fr.times[0]) & (t <= fr.times[-1]))
            full = len(rows) - kept >= size
            out = bool(frames) and not loader.covers(t)
            r = iface.post_step(t, iface.get_states())
            ctx.check(kind(r) == (full, out), 'exchange %d: the solver is told %s' % (j, r))
            if loader:
                loader.seen.clear()
            before = dict(values_of(m))
            if r != SolveEvent.NoneEvent:
                h.handle_solve_event(iface, r, t)
            if loader:
                ctx.check(sorted(n for n, _ in loader.seen) == (sorted(loader.frames) if out else []), 'exchange %d: data is loaded %s' % (j, loader.seen))
                for n, tl in loader.seen:
                    ctx.eq(tl, t / loader.frames[n].mult, 'exchange %d: data is loaded for the time' % j)
            if full:
                kept = len(rows)
                drv.check_history(ctx, m, rows, 'exchange %d' % j)
            r = iface.post_step(t, iface.get_states())
            ctx.check(kind(r) == (False, False), 'exchange %d: afterwards the solver is told %s' % (j, r))
            got = values_of(m)
            exp = expected(before, frames, t)
            for p in mapped(frames):
                ctx.eq(got[p], exp[p], 'exchange %d: %s' % (j, p))
        m.create_historian_df()
        drv.check_history(ctx, m, rows, 'at the end')
    return f


def beyond(size, mk_frames, full):
    """no data for the time: refused, not continued with the last data"""
    def f(ctx):
        m, s, frames, loader = model(ctx, size, mk_frames, 2)
        iface, h = s.solver.interface, s.solver.event_handler
        for i in range(size if full else 0):
            iface.historian_update(float(i), iface.get_states())
        t = ctx.real('t', -1e6, 1e6)
        end = min(fr.times[-1] for fr in frames)
        ctx.assume(t >= end + 1e-7)
        r = iface.post_step(t, iface.get_states())
        ctx.check(kind(r) == (full, True), 'the solver is told %s' % r)
        try:
            h.handle_solve_event(iface, r, t)
        except ValueError:
            ctx.check(True, 'refused')
        else:
            ctx.check(False, 'a time beyond all data is not refused')
    return f


def simulated(size, t0, t1, num, mk_frames=None, width=None, max_step=1e9, events=None, **k):
    """whole runs: every pause is due and every exchange that is due happens before the next step"""
    def f(ctx):
        m, s, frames, loader = model(ctx, size, mk_frames, width, t0=t0, t1=t1, num=num, events=bool(events), **k)
        iface, h = s.solver.interface, s.solver.event_handler
        times = [t0 + i * (t1 - t0) / num for i in range(num + 1)]
        d = drv.Run(ctx, s, m, times, max_step=max_step, state_events={t: [0] for t in events or []})
        st = dict(rows=0, kept=0, owed=None)
        real = h.handle_solve_event

        def told(name, t, r):
            full = len(d.rows) - st['kept'] >= size
            out = name == 'post_step' and bool(frames) and not loader.covers(t)
            ctx.check(kind(r) == (full, out), '%s at %s with %d of %d rows: the solver is told %s' % (name, t, len(d.rows) - st['kept'], size, r))
            ctx.check(len(d.rows) - st['kept'] <= size, 'the buffer does not overflow')

        def handle(interface, event_id, t):
            store, load = kind(event_id)
            if loader:
                loader.seen.clear()
            real(interface, event_id, t)
            if store:
                st['kept'] = len(d.rows)
                drv.check_history(ctx, m, d.rows, 'exchange at %s' % t)
            if loader:
                ctx.check(bool(loader.seen) == load, 'exchange at %s: data is loaded' % t)
                ctx.check(not load or loader.covers(t), 'exchange at %s: the data covers the time' % t)
        h.handle_solve_event = handle
        for name in ('post_step', 'historian_update'):
            watch(iface, name, told)
        d.solve()
        ctx.check(len(d.rows) >= num + 1, 'all output times are stored')
        drv.check_history(ctx, m, d.rows, 'at the end')
    return f


def watch(iface, name, told):
    real = getattr(iface, name)

    def call(t, y):
        r = real(t, y)
        told(name, t, r)
        return r
    object.__setattr__(iface, name, call)


def fr(times, maps, name='d', mult=1, start=0, off=0.0):
    def mk(ctx, paths):
        mp = {paths[v.split('.')[0]] + v.split('.')[1]: c for v, c in maps.items()}
        return [Frame(ctx, name, [off + t for t in times], ('c1', 'c2'), mp, mult=mult, start=start)]
    return mk


def frs(*mks):
    return lambda ctx, paths: [x for mk in mks for x in mk(ctx, paths)]


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))


A = fr([0.0, 1.0, 3.0], {'a.p': ('c1', LIN), 'b.u': ('c2', PW)})
B = fr([0.0, 0.5, 2.5, 3.0, 7.0], {'a.p': ('c1', PW), 'b.p': ('c2', LIN)})
C = fr([-1.0, 0.25, 2.75, 4.0], {'b.pp': ('c1', LIN)}, name='e', mult=2)
N = fr([-4.0, -3.0, -1.0], {'a.p': ('c1', LIN)})
ONE = fr([0.0], {'a.p': ('c1', LIN)})
for _size in (1, 2, 3, 5):
    _q = 'quick' if _size < 4 else 'thorough'
    S('signals_%d' % _size, signals(_size), tier=_q)
    S('signals_local_%d' % _size, signals(_size, historian='local'), tier='quick' if _size == 2 else 'thorough')
    for _at in range(_size + 1):
        S('signals_data_%d_%d' % (_size, _at), signals(_size, A, 2, at=_at), tier=_q)
        S('signals_nested_%d_%d' % (_size, _at), signals(_size, B, 3, at=_at, where='nested'), tier='quick' if _size == 2 else 'thorough')
        S('signals_frames_%d_%d' % (_size, _at), signals(_size, frs(A, C), 2, at=_at), tier='quick' if _size < 3 else 'thorough')
S('signals_data_all_1', signals(1, A, 2))
S('signals_frames_all_1', signals(1, frs(A, C), 2), tier='thorough', timeout=300)
S('signals_negative', signals(1, N, 2, t0=-4.0))
S('signals_one_sample', signals(1, ONE))
S('signals_all_data', signals(2, A, at=1))
for _i, (_size, _f) in enumerate([(1, (1, 1, 0, 1)), (2, (2, 1, 1, 2)), (2, (1, 1, 2)), (3, (3, 0, 3)), (3, (2, 1, 3))]):
    S('exchange_%d' % _i, exchange(_size, _f))
    S('exchange_local_%d' % _i, exchange(_size, _f, historian='local'), tier='quick' if _i == 1 else 'thorough')
    S('exchange_data_%d' % _i, exchange(_size, _f[:2], A, 2), tier='quick' if _i in (0, 1) else 'thorough', timeout=300)
    S('exchange_data3_%d' % _i, exchange(_size, _f[:3], A, 2), tier='thorough', timeout=500)
    S('exchange_wide_%d' % _i, exchange(_size, _f[:1], B, 3), tier='quick' if _i in (1, 3) else 'thorough', timeout=300)
    S('exchange_frames_%d' % _i, exchange(_size, _f[:1], frs(A, C), 2), tier='quick' if _i == 2 else 'thorough', timeout=300)
for _full in (False, True):
    S('beyond_%s' % _full, beyond(2, A, _full))
    S('beyond_frames_%s' % _full, beyond(1, frs(A, C), _full))
for _size in (1, 2, 3, 4):
    for _ms in (1e9, 0.625):
        _q = 'quick' if (_size + (_ms < 1)) % 2 == 0 else 'thorough'
        S('run_%d_%s' % (_size, 'small' if _ms < 1 else 'one'), simulated(_size, 0.0, 3.0, 4, max_step=_ms), tier=_q)
        S('run_data_%d_%s' % (_size, 'small' if _ms < 1 else 'one'), simulated(_size, 0.0, 7.0, 4, B, 2, max_step=_ms), tier=_q)
        S('run_event_%d_%s' % (_size, 'small' if _ms < 1 else 'one'), simulated(_size, 0.0, 3.0, 3, A, 2, max_step=_ms, events=[1.3, 2.2]), tier=_q)
        S('run_frames_%d_%s' % (_size, 'small' if _ms < 1 else 'one'), simulated(_size, 0.0, 3.0, 3, frs(A, C), 2, max_step=_ms, historian='local'), tier=_q)
