"""C19: time events reach the solver with exactly the given times or period"""
import random

import numpy as np
import numpy as real_np

from vlib.runner import Scn
from vlib.scn import *
from checks import ev
from checks.c13 import Memo

ASSUMPTIONS = ['timestamps are arbitrary reals in increasing order (of different events: equal, or apart by at least 1/100); periods are arbitrary in the scenarios that begin at 0, and concrete otherwise',
               'the loop of the solver is replaced by its protocol: it asks for the next time at every step, steps to it (within a rounding error of at most 1e-10), runs the events that are due, and '
               'the external ones afterwards',
               'times before the start of the simulation do not take place; negative times and periods are outside']


class Part(Node):
    V = dict(x=('state', 1.0), a=('par', 0.0), b=('par', 0.0), c=('par', 0.0))

    @Equation()
    def ev(self, scope):
        scope.x_dot = scope.a - scope.x


VARS = 'abc'
# (variable, relative to: own item, model) -> factory of actions
SRC = '''def make(gain):
    def act(t, v):
        v[%r] = v[%r] * 0.5 + t * gain + gain
    return act
'''


def actions(name, owner, var):
    n = {'s': 'i.t1.', 's.i': 't1.', None: 's.i.t1.'}[owner] + var
    mod = ev.gen_ev.load(SRC % (n, n), name)
    return mod.make, {n: 's.i.t1.' + var}


def form_of(ctx, memo, kind, i, lo, hi, shared=None):
    """(keyword arguments, declared times or None, period or None)"""
    def ts(n, first=None):
        out = []
        for k in range(n):
            x = first if k == 0 and first is not None else memo.real('T%d_%d' % (i, k), lo, hi)
            if out:
                ctx.assume(x >= out[-1] + 0.01)
            out.append(x)
        return out
    if kind.startswith('list') or kind.startswith('array'):
        n = int(kind[-1])
        t = ts(n, shared)
        if kind.startswith('list'):
            return dict(timestamps=list(t)), t, None
        return dict(timestamps=np.array(t)), t, None
    if kind == 'ints':
        return dict(timestamps=[1, 3]), [1, 3], None
    if kind == 'intarray':
        return dict(timestamps=real_np.array([2, 3])), [2, 3], None
    if kind == 'zero':
        return dict(timestamps=[0.0]), [0.0], None
    if kind == 'zeroarray':
        return dict(timestamps=real_np.array([0.0])), [0.0], None
    if kind == 'emptyandperiod':
        return dict(timestamps=[], periodicity=1.25), None, 1.25
    if kind == 'period':
        p = memo.real('P%d' % i, 1, 4)
        return dict(periodicity=p), None, p
    if kind == 'intperiod':
        return dict(periodicity=2), None, 2
    if kind == 'npperiod':
        return dict(periodicity=real_np.float64(1.5)), None, 1.5
    if kind == 'zeroperiod':
        t = ts(2, shared)
        return dict(timestamps=list(t), periodicity=0), t, None
    raise KeyError(kind)


class Expect:
    def __init__(self, times, period, t0):
        self.times = [t for t in times if t >= t0] if times is not None else None
        self.period, self.k = period, 0
        if period is not None:
            while self.k * period < t0:
                self.k += 1

    def next(self):
        if self.times is not None:
            return self.times[0] if self.times else None
        return self.k * self.period

    def fired(self):
        if self.times is not None:
            self.times = self.times[1:]
        else:
            self.k += 1


def go(ctx, m, s, order, exp, cur, t0, steps, late, y, tag):
    iface, sv = s.solver.interface, s.solver
    evs = sv.time_events
    so = state_order(m)
    t = t0
    for k in range(steps):
        tn, has = iface.get_next_time_event(t, evs)
        nx = [exp[e.i].next() for e in order]
        pend = [x for x in nx if x is not None]
        ctx.check(bool(has) == bool(pend), '%s, step %d: there is a next event exactly if a declared time is left' % (tag, k))
        if not pend:
            return cur, True
        lo = pend[0]
        for x in pend[1:]:
            if x < lo:
                lo = x
        ctx.eq(tn, lo, '%s, step %d: time of the next event' % (tag, k))
        # steps of the method on the way
        mid = t + (lo - t) / 2
        if k % 2 and not late:
            tm, has = iface.get_next_time_event(mid, evs)
            ctx.eq(tm, lo, '%s, step %d: time of the next event, asked between' % (tag, k))
        t = lo
        if late:
            t = lo + ctx.real('%s_late%d' % (tag, k), 0, 1e-10)
        tn, has = iface.get_next_time_event(t, evs)
        ctx.check(has, '%s, step %d: the event is due' % (tag, k))
        # the tolerance by which the solver runs events
        ctx.check(abs(tn - t) < 1e-8, '%s, step %d: the event is due at the time the solver reaches' % (tag, k))
        due = [i for i, x in enumerate(nx) if x is not None and x == lo]
        cur = dict(cur)
        for ext in (False, True):
            for i in due:
                e = order[i]
                if e.external is ext:
                    e.act(t, ev.View(cur, e.mp))
                    exp[e.i].fired()
        external, y2 = iface.run_events(0, t, y, evs)
        iface.set_states(y2)
        if external:
            sv._trigger_external_events(0, t, iface.get_states())
        ev.compare(ctx, m, cur, '%s, step %d (due: %s)' % (tag, k, ', '.join(order[i].key for i in due)))
        ctx.check(not any(x.is_triggered() for x in evs), '%s, step %d: no event is left triggered' % (tag, k))
    return cur, False


def scenario(decl, t0=0.0, steps=4, late=False, reset=False, early=False, tie=False, mutate=False, hi=6):
    """decl: [(kind, owner, external, variable)]"""
    def f(ctx):
        memo = Memo(ctx)

        arb = [d[0] not in ('ints', 'intarray', 'zero', 'zeroarray', 'intperiod', 'npperiod', 'emptyandperiod') for d in decl]

        def apart(x, y, i, j):
            # (concrete times may be equal)
            if arb[i] or arb[j]:
                ctx.assume(abs(x - y) >= 0.01)
        lo = 0 if not t0 else t0 - 1.0
        shared = memo.real('T', lo, hi) if tie else None
        events, exps = [], []
        arrays = []
        for i, (kind, owner, external, v) in enumerate(decl):
            make, mp = actions('c19_%s_%s' % ({None: 'm', 's': 's', 's.i': 'i'}[owner], v), owner, v)
            kw, times, period = form_of(ctx, memo, kind, i, lo, hi, shared)
            arrays.append(kw.get('timestamps'))
            e = ev.Ev('time', owner, None, make([1.5, -2.0, 3, 0.25][i]), external=external, key='e%d' % (i % 2))
            e.mp, e.i, e.kw = mp, i, kw
            e.times, e.period = times, period
            e.add = (lambda e: lambda obj: obj.add_timestamp_event(e.key, e.act, is_external=e.external, **e.kw))(e)
            events.append(e)
        # times of different events are equal or clearly apart
        ts = [(i, t) for i, e in enumerate(events) for t in (e.times or [])]
        for a in range(len(ts)):
            for b in range(a):
                (i, x), (j, y) = ts[a], ts[b]
                if i != j and not (x is y):
                    apart(x, y, i, j)
        if t0:
            for i, x in ts:
                apart(x, t0, i, i)
        for e in events:
            if e.period is not None:
                for k in range(6):
                    for i, x in ts:
                        apart(x, k * e.period, i, e.i)
        ps = [(e.period, e.i) for e in events if e.period is not None]
        for a in range(len(ps)):
            for b in range(a):
                for k in range(1, 5):
                    for l in range(1, 5):
                        apart(ps[a][0] * k, ps[b][0] * l, ps[a][1], ps[b][1])
        m, s, cur = ev.build(ctx, {'i': (Part, [])}, {}, events, early=early, t0=t0)
        if mutate:
            for x in arrays:
                if x is not None:
                    for k in range(len(x)):
                        x[k] = x[k] + 50
        order = ev.solver_order(m, events)['time']
        ctx.check(len(order) == len(events) == len(s.solver.time_events), 'every time event reaches the solver once')
        so = state_order(m)
        y = np.array([cur[p] for p in so])
        fresh = lambda: {e.i: Expect(e.times, e.period, t0) for e in events}
        cur, _ = go(ctx, m, s, order, fresh(), cur, t0, steps, late, y, 'run')
        if reset:
            s.reset(t0)
            cur = dict(values_of(m))
            go(ctx, m, s, order, fresh(), cur, t0, steps, late, np.array([cur[p] for p in so]), 'after reset')
    return f


BAD = dict(both_lists=lambda ctx: dict(timestamps=[ctx.real('T', 0, 5)], periodicity=ctx.real('P', 1, 5)),
           both_two=lambda ctx: dict(timestamps=[ctx.real('T', 0, 5), 7.0], periodicity=2.0),
           both_array=lambda ctx: dict(timestamps=np.array([ctx.real('T', 0, 5), 7.0]), periodicity=ctx.real('P', 1, 5)),
           both_array1=lambda ctx: dict(timestamps=np.array([ctx.real('T', 0, 5)]), periodicity=2.0),
           both_zero=lambda ctx: dict(timestamps=[0.0], periodicity=2.0),
           both_zeroarray=lambda ctx: dict(timestamps=real_np.array([0.0]), periodicity=2.0),
           neither=lambda ctx: dict(),
           none=lambda ctx: dict(timestamps=None, periodicity=None),
           empty=lambda ctx: dict(timestamps=[]),
           emptyarray=lambda ctx: dict(timestamps=real_np.array([])))


def refused(kind, owner):
    def f(ctx):
        kw = BAD[kind](ctx)
        make, mp = actions('c19_%s_%s' % ({None: 'm', 's': 's', 's.i': 'i'}[owner], 'a'), owner, 'a')
        e = ev.Ev('time', owner, None, make(1.0))
        e.mp = mp
        e.add = lambda obj: obj.add_timestamp_event('k', e.act, **kw)
        try:
            ev.build(ctx, {'i': (Part, [])}, {}, [e])
            ok = False
        except (AssertionError, ValueError, TypeError) as x:
            ok = 'ambiguous' not in str(x)
        ctx.check(ok, 'the declaration is refused, with a message about it')
    return f


SCENARIOS = []
OWN = {'m': None, 's': 's', 'i': 's.i'}


def S(name, decl, bounds, **k):
    tier = k.pop('tier', 'quick')
    wit = k.pop('witness', False)
    SCENARIOS.append(Scn(name, scenario(decl, **k), tier=tier, witness=wit, bounds=bounds))


KINDS = ['list1', 'list2', 'list3', 'array1', 'array2', 'array3', 'ints', 'intarray', 'zero', 'zeroarray', 'period', 'intperiod', 'npperiod', 'emptyandperiod', 'zeroperiod']
for _k in KINDS:
    for _o, _ow in OWN.items():
        for _x in (False, True):
            q = (KINDS.index(_k) + 'msi'.index(_o) + _x) % 3 == 0
            S('one_%s_%s%d' % (_k, _o, _x), [(_k, _ow, _x, 'a')], 'one event, at most 4 firings', tier='quick' if q else 'thorough', witness=q and _x, early=_x, mutate=_k[-1].isdigit())
for _k in ('list2', 'array2', 'list3', 'period', 'ints'):
    for _x in (False, True):
        S('late_%s%d' % (_k, _x), [(_k, 's.i', _x, 'a')], 'one event, every time is reached with a rounding error', late=True, witness=_k == 'list2')
        S('reset_%s%d' % (_k, _x), [(_k, None, _x, 'a')], 'one event, two runs with a reset between', reset=True, witness=_k == 'list2', steps=3)
for _k in ('list2', 'array3', 'list3', 'intperiod', 'npperiod', 'ints'):
    for _x in (False, True):
        for _t in (2.5, 10.25):
            S('start_%s%d_%s' % (_k, _x, str(_t).replace('.', '_')), [(_k, 's.i', _x, 'b')], 'one event, start at %s' % _t, t0=_t, hi=16, steps=4, witness=_k == 'list3',
              tier='quick' if _t < 3 else 'thorough', late=_t > 3)
_r = random.Random(191)
for _n in range(120):
    _c = 2 if _n % 3 else 3
    _d = []
    for _i in range(_c):
        _d.append((_r.choice(['list1', 'list2', 'array2', 'list2', 'ints', 'zero', 'intperiod', 'npperiod'] + (['period'] if _c == 2 and not any(x[0] == 'period' for x in _d) else [])),
                   _r.choice([None, 's', 's.i', 's.i']), _r.random() < .35, _r.choice('aab')))
    _tie = _n % 4 == 1
    if _tie:
        _d = [(k if k.startswith('list') or k.startswith('array') else 'list1', o, x, v) for k, o, x, v in _d]
    S('mix%d' % _n, _d, '%d events, at most 3 firings' % _c, tier='quick' if _n < 30 else 'thorough', witness=_n % 6 == 0, steps=3, early=_n % 2 == 0, tie=_tie, reset=_n % 5 == 0,
      hi=4)
for _b in BAD:
    for _o, _ow in OWN.items():
        SCENARIOS.append(Scn('refused_%s_%s' % (_b, _o), refused(_b, _ow), witness=_o == 'i', bounds='one declaration'))
