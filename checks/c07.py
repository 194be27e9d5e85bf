"""C07: external data columns reach the right variables with the right values in time"""
import random

from vlib.runner import Scn
from checks.extd import *

ASSUMPTIONS = ['sample times are concrete, irregular numbers in most scenarios; query times are at a sample or at least 1e-7 away from it (the code allows for 100 ulp)']


def layout(kind, items):
    """where the items are, and the paths of their variables"""
    if kind == 'flat':
        return (lambda **k: Ext('s', list(items.values()), **k)), {t: 's.%s.t1.' % t for t in items}
    ts = list(items)
    inner = ts[len(ts) // 2:]
    return (lambda **k: Ext('s', [items[t] for t in ts if t not in inner] + [Ext('k', [items[t] for t in inner])], **k)), \
        {t: ('s.k.%s.t1.' if t in inner else 's.%s.t1.') % t for t in items}


EQS = [fn for _, fn in equations_of(It)]


def start(ctx, where, n_items, mk_frames, t0=0.0, loader=None, pieces=1, later=False, zero=False):
    """model with external data; returns model, simulation, frames, current values"""
    items = {t: It(t, init={v: 0.0 if zero else ctx.real(t + v, -100, 100) for v in It.V}) for t in 'abc'[:n_items]}
    sysf, paths = layout(where, items)
    frames = mk_frames(ctx, paths)
    k = {}
    loaders = [InMemoryDataLoader(f.df()) for f in frames]
    if len(frames) == 1:
        k = dict(external_mappings=[frames[0].element()], data_loader=loaders[0])
        root = sysf(**k) if not later else sysf()
    else:
        # further frames belong to outer systems
        root = sysf(external_mappings=[frames[0].element()], data_loader=loaders[0])
        for i, f in enumerate(frames[1:]):
            # every frame has its own loader: a subsystem of its own
            root = root if i < 0 else Outer(root, f, loaders[i + 1])
        pass
    m = Model(root, use_llvm=False)
    s = plain_sim(m, t0, t0 + 1.0, 1)
    if later:
        m.set_external_mappings(**k)
    return m, s, frames, paths


def Outer(root, frame, loader):
    # registered into the same root: an empty subsystem that only carries data
    sub = Subsystem('d_' + frame.name, external_mappings=[frame.element()], data_loader=loader)
    root.register_items([sub])
    return root


def init_values(ctx, paths, zero=False):
    return None


def check_at(ctx, m, s, frames, cur, t, tag, every=True):
    iface = s.solver.interface
    iface.pre_step(t, iface.get_states())
    exp = expected(cur, frames, t)
    got = values_of(m)
    names = mapped(frames)
    for p in names:
        ctx.eq(got[p], exp[p], '%s: %s' % (tag, p))
    for p in sorted(cur):
        if p not in names and not p.endswith(('.q', '_dot')):
            ctx.eq(got[p], exp[p], '%s: %s, which is not mapped, keeps its value' % (tag, p))
    # equations evaluated now use these values
    order = state_order(m)
    y = np.array([cur[p] for p in order])
    iface.set_states(y)
    d = iface.get_deriv(t, y)
    o = Oracle(exp, [(p[:-1], fn) for p in sorted({x.rsplit('.', 1)[0] + '.' for x in exp}) for fn in EQS], glob=dict(t=t))
    for i, p in enumerate(order):
        ctx.eq(d[i], o.get(p + '_dot'), '%s: derivative of %s' % (tag, p))
    got = values_of(m)
    nxt = {p: o.get(p) for p in exp}
    for p in sorted(nxt):
        ctx.eq(got[p], nxt[p], '%s: %s after the evaluation' % (tag, p))
    return nxt


def query(where, n_items, mk_frames, n=2, **k):
    """arbitrary times in any order"""
    def f(ctx):
        m, s, frames, paths = start(ctx, where, n_items, mk_frames, **k)
        cur = dict(values_of(m))
        for i in range(n):
            cur = check_at(ctx, m, s, frames, cur, time_in(ctx, 't%d' % i, frames), 'query %d' % i)
    return f


def initial(where, n_items, mk_frames, t0, **k):
    """right after the model has been generated for a start time"""
    def f(ctx):
        m, s, frames, paths = start(ctx, where, n_items, mk_frames, t0=t0, **k)
        got = values_of(m)
        exp = expected(got, frames, t0)
        for p in mapped(frames):
            ctx.eq(got[p], exp[p], '%s at the start time %s' % (p, t0))
        cur = dict(got)
        check_at(ctx, m, s, frames, cur, t0, 'start')
    return f


def overwritten(where, n_items, mk_frames, t0=0.0):
    """values written in between (by hand or by events) do not stick to mapped variables"""
    def f(ctx):
        m, s, frames, paths = start(ctx, where, n_items, mk_frames, t0=t0)
        cur = dict(values_of(m))
        t = time_in(ctx, 't0', frames)
        cur = check_at(ctx, m, s, frames, cur, t, 'first')
        new = {p: ctx.real('w_' + p, -100, 100) for p in mapped(frames)}
        m.set_variables(new)
        cur.update(new)
        check_at(ctx, m, s, frames, cur, t, 'again')
    return f


def simulated(where, n_items, mk_frames, t0, t1, num, max_step=1e9, events=(), **k):
    """a whole run: the recorded values of mapped variables"""
    def f(ctx):
        m, s, frames, paths = start(ctx, where, n_items, mk_frames, t0=t0, **k)
        times = [t0 + i * (t1 - t0) / num for i in range(num + 1)]
        before = dict(values_of(m))
        iface = s.solver.interface
        iface.get_deriv(0, iface.get_states())        # (the solver's constructor does this)
        d = drv.Run(ctx, s, m, times, max_step=max_step)
        d.solve()
        ctx.check(len(d.rows) == num + 1, 'one row per output time')
        hist = drv.history(m)
        for t, vals in hist:
            exp = expected(before, frames, t)
            for p in mapped(frames):
                ctx.eq(vals[p], exp[p], '%s recorded at %s' % (p, t))
            for p in before:
                if p.endswith(('.u', '.k')) and p not in mapped(frames):
                    ctx.eq(vals[p], before[p], '%s, which is not mapped, at %s' % (p, t))
            for p in before:
                if p.endswith('.q') and p not in mapped(frames):
                    b = p[:-1]
                    ctx.eq(vals[p], vals[b + 'p'] * vals[b + 'k'] + vals[b + 'pp'], '%s, computed from mapped variables, at %s' % (p, t))
    return f


def again(where, n_items, mk_frames, t0=0.0, t1=2.0):
    """a reset in between"""
    def f(ctx):
        m, s, frames, paths = start(ctx, where, n_items, mk_frames, t0=t0)
        cur = dict(values_of(m))
        check_at(ctx, m, s, frames, cur, time_in(ctx, 't0', frames), 'first')
        s.reset(t1)
        got = values_of(m)
        exp = expected(got, frames, t1)
        for p in mapped(frames):
            ctx.eq(got[p], exp[p], '%s after a reset to %s' % (p, t1))
        check_at(ctx, m, s, frames, dict(got), time_in(ctx, 't1', frames), 'second')
    return f


TIMES = {1: [0.0], 2: [0.0, 2.0], 3: [0.0, 1.0, 3.0], 4: [0.0, 0.5, 2.5, 3.0]}     # gaps: powers of two, so that concrete quotients are exact


def one(n, maps, mult=1, start=0, off=0.0, time_col='time', cols=('c1', 'c2')):
    def mk(ctx, paths):
        mp = {paths[v.split('.')[0]] + v.split('.')[1]: c for v, c in maps.items()}
        return [Frame(ctx, 'd', [off + t for t in TIMES[n]], cols, mp, mult=mult, start=start, time_col=time_col)]
    return mk


def moving(n, maps):
    """sample times are arbitrary too"""
    def mk(ctx, paths):
        mp = {paths[v.split('.')[0]] + v.split('.')[1]: c for v, c in maps.items()}
        t, ts = ctx.real('ts0', -100, 0), []
        for i in range(n):
            ts.append(t)
            t = t + ctx.real('gap%d' % i, 0.01, 10)
        return [Frame(ctx, 'd', ts, ('c1', 'c2'), mp)]
    return mk


def two(n1, n2, maps1, maps2, mult=(1, 1), start=(0, 0), cols2=('c1', 'c2'), off=(0.0, 0.0)):
    def mk(ctx, paths):
        def mp(maps):
            return {paths[v.split('.')[0]] + v.split('.')[1]: c for v, c in maps.items()}
        return [Frame(ctx, 'd', [off[0] + t for t in TIMES[n1]], ('c1', 'c2'), mp(maps1), mult=mult[0], start=start[0]),
                Frame(ctx, 'e', [off[1] + t for t in TIMES[n2]], cols2, mp(maps2), mult=mult[1], start=start[1], time_col='t')]
    return mk


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))


M1 = {'a.p': ('c1', LIN), 'b.p': ('c2', PW)}
M2 = {'a.p': ('c1', PW), 'a.pp': ('c1', LIN), 'b.u': ('c2', LIN)}
M3 = {'b.pp': ('c2', LIN), 'a.u': ('c1', PW), 'b.p': ('c2', PW)}
M4 = {'c.p': ('c2', LIN), 'a.pp': ('c1', PW)}
for _mi, _m in enumerate((M1, M2, M3)):
    for _w in ('flat', 'nested'):
        S('one_%s_m%d' % (_w, _mi), query(_w, 2, one(3, _m)))
    for _mult in (1, 3600, 0.5):
        for _st in (0, 1):
            S('scaled_m%d_x%s_from%d' % (_mi, _mult, _st), query('flat', 2, one(4, _m, mult=_mult, start=_st, off=2.0, time_col='t'), n=1),
              tier='quick' if _mi == 1 else 'thorough')
    S('single_m%d' % _mi, query('flat', 2, one(1, _m)))
    S('moving_m%d' % _mi, query('flat', 2, moving(3, _m), n=1))
    S('set_later_m%d' % _mi, query('nested', 2, one(3, _m), later=True))
    S('overwritten_m%d' % _mi, overwritten('flat', 2, one(2, _m)))
    S('reset_m%d' % _mi, again('flat', 2, one(3, _m)))
    for _t0 in (0.0, 0.5, 2.0):
        S('initial_m%d_%s' % (_mi, _t0), initial('nested', 2, one(3, _m), _t0))
        S('initial_zero_m%d_%s' % (_mi, _t0), initial('flat', 2, one(3, _m), _t0, zero=True))
    S('initial_later_m%d' % _mi, initial('flat', 2, one(3, _m), 0.5, later=True))
    S('run_m%d' % _mi, simulated('nested', 2, one(4, _m), 0.0, 3.0, 6))
    # (rounding: at large times a sample time plus 100 ulp of 1.0 is the sample time)
    S('run_scaled_m%d' % _mi, simulated('flat', 2, one(4, _m, mult=1024), 0.0, 3072.0, 6))
    S('run_scaled_from_m%d' % _mi, simulated('flat', 2, one(4, _m, mult=4096, start=1, off=8.0), 34816.0, 45056.0, 5))
    S('run_small_steps_m%d' % _mi, simulated('flat', 2, one(3, _m), 0.0, 2.5, 5, max_step=0.375), tier='thorough')
    S('run_later_m%d' % _mi, simulated('flat', 2, one(3, _m), 0.5, 2.5, 4, later=True))
for _i, (_n1, _n2, _ma, _mb, _kw) in enumerate([
        (3, 3, {'a.p': ('c1', LIN)}, {'b.p': ('c1', PW)}, {}),
        (3, 3, {'a.p': ('c1', PW), 'a.u': ('c2', LIN)}, {'b.p': ('c1', LIN), 'b.pp': ('c2', PW)}, {}),
        (3, 2, M1, M4, {}),
        (2, 4, {'a.p': ('c1', LIN)}, {'b.p': ('c1', PW), 'b.pp': ('c2', LIN)}, {}),
        (4, 3, {'a.p': ('c2', PW), 'b.u': ('c1', LIN), 'c.p': ('c2', LIN)}, {'b.p': ('c3', PW)}, dict(cols2=('c1', 'c2', 'c3'))),
        (3, 4, M1, M4, dict(mult=(2, 1), start=(0, 1), off=(0.0, 0.25)))]):
    S('two_%d' % _i, query('nested', 3, two(_n1, _n2, _ma, _mb, **_kw), n=1))
    S('two_initial_%d' % _i, initial('flat', 3, two(_n1, _n2, _ma, _mb, **_kw), 1.25))
    S('two_run_%d' % _i, simulated('nested', 3, two(_n1, _n2, _ma, _mb, **_kw), 1.0, 2.0, 2))


def gen(seed):
    r = random.Random(seed)

    def mk(ctx, paths):
        vs = [p + v for p in paths.values() for v in ('p', 'pp', 'u')]
        r2 = random.Random(seed)
        r2.shuffle(vs)
        out, off = [], 0.0
        for i in range(r2.choice([1, 1, 2, 3])):
            n = r2.choice([2, 3, 4])
            cols = ['c%d' % j for j in range(r2.choice([1, 2, 3]))]
            mp = {vs.pop(): (r2.choice(cols), r2.choice([LIN, PW])) for _ in range(r2.choice([1, 2, 2]))}
            out.append(Frame(ctx, 'd%d' % i, TIMES[n], cols, mp, time_col=r2.choice(['time', 't', 'hour'])))
        return out
    return query(r.choice(['flat', 'nested']), 3, mk, n=1), simulated('flat', 3, mk, 0.0, 2.0, 3)


for _k in range(30):
    _q, _r = gen(_k)
    S('gen_query_%d' % _k, _q, tier='quick' if _k < 8 else 'thorough')
    S('gen_run_%d' % _k, _r, tier='quick' if _k < 8 else 'thorough')
