"""C13: reset returns the model to its initial state"""
import random

import numpy as real_np

from vlib.runner import Scn
from checks.extd import *
from checks import c03, c04
from checks.c07 import layout
from checks.c12 import fr, frs, A, B, C
from numerous.utils.historian import InMemoryHistorian

ASSUMPTIONS = ['the histories before the reset are sequences of at most four operations, with arbitrary values',
               'in runs, the steps of the integration method are replaced by steps to arbitrary states, the same in both runs',
               'results which a local file received before the reset stay there']


class Tt(It):
    """equations that depend on time"""

    @Equation()
    def ev(self, scope):
        scope.q = scope.p * scope.k + scope.pp + scope.global_vars.t
        scope.x_dot = scope.q - scope.x + scope.u


class Memo:
    """the same symbols for every model that is built"""

    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}

    def real(self, name, *a):
        if name not in self.d:
            self.d[name] = self.ctx.real(name, *a)
        return self.d[name]


class Cfg:
    """a system that can be built several times with the same initial values"""

    def __init__(self, ctx, mk_frames=None, csv=None, where='flat', mappings=False, stamps=None, period=None, events=False, external=False, size=0, post=False):
        self.__dict__.update(locals())
        self.init = {t: {v: ctx.real(t + v, -100, 100) for v in It.V} for t in 'ab'}
        self.n = 0

    def model(self):
        ctx = Memo(self.ctx) if not self.n else self.memo
        self.memo = ctx
        items = {t: Tt(t, init=self.init[t]) for t in 'ab'}
        if self.mappings:
            items['a'].t1.p = items['b'].t1.x
            items['b'].t1.u += items['a'].t1.q
            items['b'].t1.u += items['a'].t1.x
        sysf, paths = layout(self.where, items)
        frames, k = [], {}
        tag = 'f%d' % self.n
        self.n += 1
        if self.mk_frames:
            frames = self.mk_frames(ctx, paths)
            if self.csv:
                for f in frames:
                    f.csv(tag + f.name + '.csv')
                k = dict(external_mappings=[f.element(tag + f.name + '.csv') for f in frames], data_loader=CSVDataLoader(self.csv))
            else:
                k = dict(external_mappings=[frames[0].element()], data_loader=InMemoryDataLoader(frames[0].df()))
        h = InMemoryHistorian()
        h.max_size = self.size
        m = Model(sysf(**k), use_llvm=False, historian=h)
        pre = paths['a'], paths['b']
        if self.events:
            m.add_event('e', cond(pre), act(pre), is_external=self.external)
        if self.stamps:
            m.add_timestamp_event('te', act2(pre), timestamps=self.stamps, is_external=self.external)
        if self.period:
            m.add_timestamp_event('pe', act3(pre), periodicity=self.period, is_external=self.external)
        self.frames, self.pre = frames, pre
        return m


def cond(pre):
    if pre[0] == 's.a.t1.':
        return lambda_cond
    return lambda_cond2


def lambda_cond(t, v):
    return v['s.a.t1.x']


def lambda_cond2(t, v):
    return v['s.a.t1.x'] - 1


def act(pre):
    return act_flat if pre[1] == 's.b.t1.' else act_nested


def act_flat(t, v):
    v['s.b.t1.k'] = t
    v['s.a.t1.x'] = -v['s.a.t1.x']


def act_nested(t, v):
    v['s.k.b.t1.k'] = t
    v['s.a.t1.x'] = -v['s.a.t1.x']


def act2(pre):
    return act2_flat if pre[1] == 's.b.t1.' else act2_nested


def act2_flat(t, v):
    v['s.a.t1.pp'] = v['s.b.t1.x'] + t


def act2_nested(t, v):
    v['s.a.t1.pp'] = v['s.k.b.t1.x'] + t


def act3(pre):
    return act3_any


def act3_any(t, v):
    v['s.a.t1.k'] = v['s.a.t1.k'] + 1


T0, T1, N = 0.0, 3.0, 3
TIMES = [0.0, 1.0, 2.0, 3.0]


def traj(ctx, tag, n=2):
    """arbitrary states, the same at the same time (and visit) whichever model runs"""
    ctx = Memo(ctx) if not isinstance(ctx, Memo) else ctx
    def new():
        seen = {}

        def given(t):
            k = seen[t] = seen.get(t, 0) + 1
            return [ctx.real('%s_%s_%d_%d' % (tag, repr(t).replace('.', '_').replace('-', 'm'), k, i), -100, 100) for i in range(n)]
        return given
    return new


def go(ctx, s, m, given, events, max_step, times=TIMES, steps=False, record=True):
    d = drv.Run(ctx, s, m, times, max_step=max_step, state_events={t: [0] for t in events or []}, states=given())
    if steps:
        t = times[0]
        for k in range(len(times) - 1):
            t, _ = d.step(t, times[k + 1] - times[k])
        m.create_historian_df()
    else:
        d.solve()
    return d


def apply_op(ctx, op, k, cfg, m, s):
    iface = s.solver.interface
    if op in ('run', 'steps', 'runsmall'):
        go(ctx, s, m, traj(ctx, 'h%d' % k), [1.3] if cfg.events else None, 0.625 if op == 'runsmall' else 1e9, steps=op == 'steps')
    elif op == 'half':
        go(ctx, s, m, traj(ctx, 'h%d' % k), None, 1e9, times=[0.0, 1.5])
    elif op == 'states':
        iface.set_states(np.array([ctx.real('h%d_y%d' % (k, i), -100, 100) for i in range(2)]))
    elif op == 'eval':
        iface.get_deriv(ctx.real('h%d_t' % k), iface.get_states())
    elif op == 'update':
        m.update_variables({p + v: ctx.real('h%d%s%s' % (k, p.replace('.', '_'), v), -100, 100) for p in cfg.pre for v in ('x', 'p', 'k')})
    elif op == 'setvars':
        m.set_variables({p + v: ctx.real('h%d%s%s' % (k, p.replace('.', '_'), v), -100, 100) for p in cfg.pre for v in ('x', 'pp', 'u')})
    elif op == 'store':
        iface.historian_update(float(k), iface.get_states())
    elif op == 'kept':
        iface.historian_update(float(k), iface.get_states())
        m.create_historian_df()
    elif op == 'data':
        t = cfg.frames[0].times[-1] - 0.25
        iface.pre_step(t, iface.get_states())
        r = iface.post_step(t, iface.get_states())
        s.solver.event_handler.handle_solve_event(iface, r, t)
    elif op == 'reset':
        s.reset(T0)
    else:
        raise AssertionError(op)


def compare(ctx, got, exp, tag):
    ctx.check(set(got) == set(exp), '%s: the same variables' % tag)
    for p in sorted(exp):
        ctx.eq(got[p], exp[p], '%s: %s' % (tag, p))


def scenario(ops, how='reset', max_step=1e9, steps=False, t0=T0, **kw):
    def f(ctx):
        cfg = Cfg(ctx, **kw)
        times = [t0 + k for k in TIMES] if not kw.get('mk_frames') else [t0 + k * (3.0 - t0) / 3 for k in range(4)]
        ev = [1.3 + t0, 2.2 + t0] if cfg.events else None
        given = traj(ctx, 'y')
        # a newly built model
        ref = cfg.model()
        sr = plain_sim(ref, t0, times[-1], N, f0=True)
        fresh = dict(values_of(ref))
        initial = dict(ref.get_variables_initial_values())
        dr = go(ctx, sr, ref, given, ev, max_step, times=times, steps=steps)
        # another one with a history
        m = cfg.model()
        s = plain_sim(m, T0, T1, N, f0=True)
        for k, op in enumerate(ops):
            apply_op(ctx, op, k, cfg, m, s)
        if how == 'reset':
            s.reset(t0)
        else:
            s = plain_sim(m, t0, times[-1], N, f0=True)
        compare(ctx, dict(values_of(m)), fresh, 'after the reset')
        compare(ctx, dict(m.get_variables_initial_values()), initial, 'initial values')
        vs = m.get_variables()
        for p in sorted(fresh):
            ctx.eq(vs[p], fresh[p], 'after the reset: get_variables %s' % p)
        ctx.check(m.historian_df is None or len(m.historian_df['time']) == 0, 'the history is empty')
        if how == 'reset' and not kw.get('mk_frames') and len(ops) < 2:
            m.create_historian_df()
            ctx.check(len(m.historian_df['time']) == 0, 'the history buffer is empty')
            s.reset(t0)
        d = go(ctx, s, m, given, ev, max_step, times=times, steps=steps)
        ctx.check(len(d.rows) == len(dr.rows), 'the next run stores %d rows, the run of a new model %d' % (len(d.rows), len(dr.rows)))
        for k, (a, b) in enumerate(zip(d.rows, dr.rows)):
            ctx.eq(a[0], b[0], 'time of row %d' % k)
            compare(ctx, a[1], b[1], 'next run, row %d' % k)
        drv.check_history(ctx, m, dr.rows, 'history of the next run')
        compare(ctx, dict(values_of(m)), dict(values_of(ref)), 'after the next run')
    return f


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))


OPS = [(), ('run',), ('steps',), ('runsmall',), ('states',), ('eval',), ('update',), ('setvars',), ('store',), ('kept',),
       ('run', 'run'), ('update', 'run'), ('run', 'update', 'eval'), ('setvars', 'eval', 'store'), ('run', 'reset'), ('run', 'reset', 'half'),
       ('half',), ('half', 'kept', 'store'), ('steps', 'steps'), ('update', 'reset', 'setvars', 'run')]
VARIANTS = [('plain', {}), ('mapped', dict(mappings=True)), ('nested', dict(mappings=True, where='nested')), ('events', dict(events=True)),
            ('stamps', dict(stamps=[0.5, 2.0])), ('period', dict(period=0.75)), ('external', dict(stamps=[1.0, 1.5], external=True)),
            ('both', dict(events=True, stamps=[0.25, 2.5], where='nested')), ('buffer', dict(size=2)),
            ('data', dict(mk_frames=A)), ('wide', dict(mk_frames=B, mappings=False, where='nested')), ('chunks', dict(mk_frames=A, csv=1)), ('files', dict(mk_frames=frs(A, C), csv=2))]
_k = 0
for _ops in OPS:
    for _v, _kw in VARIANTS:
        for _how in ('reset', 'new'):
            _k += 1
            _runs = any(o in ('run', 'runsmall', 'steps', 'half') for o in _ops)
            _q = len(_ops) < 3 and (_v in ('plain', 'mapped') or _runs) and (_how == 'reset' and len(_ops) < 2 or _k % 5 == 0)
            S('%s_%s_%s' % (_how, '_'.join(_ops) or 'nothing', _v), scenario(_ops, _how, steps=_k % 7 == 3, max_step=0.625 if _k % 5 == 1 else 1e9, **_kw),
              tier='quick' if _q else 'thorough')
for _ops in (('data',), ('run', 'data')):
    for _v, _kw in VARIANTS[-4:]:
        S('reset_%s_%s' % ('_'.join(_ops), _v), scenario(_ops, **_kw))
for _t0 in (0.5, 1.0):
    for _v, _kw in VARIANTS[-4:]:
        S('from_%s_%s' % (_t0, _v), scenario(('run',), t0=_t0, **_kw))
        S('from_%s_%s_new' % (_t0, _v), scenario(('run',), 'new', t0=_t0, **_kw))
    S('from_%s_plain' % _t0, scenario(('run',), t0=_t0))
    S('from_%s_stamps' % _t0, scenario(('run',), t0=_t0, stamps=[1.25, 3.0]))
