"""C14: models are independent of each other"""
import random

from vlib.runner import Scn
from checks.extd import *
from checks.c07 import layout
from checks.c13 import Memo, traj
from checks.c12 import A as FA, B as FB
from checks import c04
from numerous.utils.historian import InMemoryHistorian

ASSUMPTIONS = ['two models from separate system objects (two models of the same system object share its variables by design)',
               'interleavings of at most eight operations of each of two models are enumerated; all values are arbitrary',
               'in runs, the steps of the integration method are replaced by steps to arbitrary states']


def one():
    class It2(Node):
        V = It.V

        @Equation()
        def ev(self, scope):
            scope.q = scope.p * scope.k + scope.pp
            scope.x_dot = scope.q - scope.x + scope.u
    It2.__name__ = It2.__qualname__ = 'Part'
    return It2


def other():
    """a class of the same name with other equations"""
    class It2(Node):
        V = It.V

        @Equation()
        def ev(self, scope):
            scope.q = scope.p - scope.x
            scope.x_dot = scope.q * scope.k + scope.u - scope.pp
    It2.__name__ = It2.__qualname__ = 'Part'
    return It2


def timed():
    class It2(Node):
        V = It.V

        @Equation()
        def ev(self, scope):
            scope.q = scope.p * scope.u + scope.global_vars.t
            scope.x_dot = scope.q * scope.k
    It2.__name__ = It2.__qualname__ = 'Part'
    return It2


K = {'it': It, 'one': one(), 'other': other(), 'timed': timed()}


def cond1(t, v):
    return v['s.a.t1.x']


def act1(t, v):
    v['s.b.t1.k'] = t
    v['s.a.t1.x'] = -v['s.a.t1.x']


def act2(t, v):
    v['s.a.t1.pp'] = v['s.b.t1.x'] + t


def act3(t, v):
    v['s.b.t1.u'] = v['s.a.t1.k'] * 2


def own(t, v):
    v['t1.p'] = v['t1.x'] + t


def own2(t, v):
    v['t1.u'] = v['t1.k'] - t


class Use:
    """one model and what is done with it; every result is kept in `log`"""

    def __init__(self, ctx, tag, cls='it', n=2, wiring='none', sets=False, frames=None, events=(), historian='default', size=0, gv=False, level=0):
        self.__dict__.update(locals())
        self.memo = Memo(ctx)
        self.log, self.runs = [], 0
        self.m = self.s = None
        self.k = 0

    def sym(self, name):
        return self.memo.real('%s_%s' % (self.tag, name), -100, 100)

    def build(self):
        ts = 'abc'[:self.n]
        items = {t: K[self.cls](t, init={v: self.sym(t + v) for v in It.V}) for t in ts}
        self.items = items
        if self.wiring == 'assign':
            items['a'].t1.p = items['b'].t1.x
        elif self.wiring == 'sum':
            for t in ts:
                items['a'].t1.u += items[t].t1.x
        elif self.wiring == 'chain':
            items['a'].t1.p = items['b'].t1.q
            items['b'].t1.p += items[ts[-1]].t1.x
        k = {}
        frames = self.frames(self.memo, {t: 's.%s.t1.' % t for t in ts}) if self.frames else []
        if frames:
            k = dict(external_mappings=[frames[0].element()], data_loader=InMemoryDataLoader(frames[0].df()))
        if 'item' in self.events:
            items['b'].add_timestamp_event('own', own2 if self.level else own, timestamps=[0.75, 2.0])
        if self.sets:
            sysm = Subsystem('s')
            sysm.register_items(list(items.values()), tag='set', structure=ItemsStructure.SET)
        else:
            sysm = Ext('s', list(items.values()), **k)
        h = {}
        if self.historian != 'default':
            hh = InMemoryHistorian()
            hh.max_size = self.size
            h['historian'] = hh
        if self.gv:
            h['global_variables'] = [('gain', self.sym('gain'))]
        self.m = Model(sysm, use_llvm=False, **h)
        if 'state' in self.events:
            self.m.add_event('e', cond1, act3 if self.level else act1)
        if 'time' in self.events:
            self.m.add_timestamp_event('te', act2, timestamps=[0.5, 2.5] if not self.level else [1.5])
        if 'external' in self.events:
            self.m.add_timestamp_event('te', act2, timestamps=[1.25], is_external=True)

    def sim(self):
        self.s = plain_sim(self.m, 0.0, 3.0, 3, f0=True)

    def eval(self):
        self.k += 1
        iface = self.s.solver.interface
        iface.set_states(np.array([self.sym('y%d_%d' % (self.k, i)) for i in range(self.n)]))
        self.log.append(('derivatives', list(iface.get_deriv(self.sym('t%d' % self.k), iface.get_states()))))

    def write(self):
        self.k += 1
        p = self.paths()
        self.m.update_variables({q + v: self.sym('w%d%s%s' % (self.k, q[-5], v)) for q in p for v in ('p', 'k', 'x')})

    def assign(self):
        self.k += 1
        p = self.paths()
        self.m.path_to_variable[p[0] + 'pp'].value = self.sym('v%d' % self.k)
        self.m.set_variables({q + 'u': self.sym('z%d%s' % (self.k, q[-5])) for q in p[:1]})

    def run(self):
        self.runs += 1
        d = drv.Run(self.ctx, self.s, self.m, [0.0, 1.0, 2.0, 3.0], states=traj(self.memo, '%s_r%d' % (self.tag, self.runs), self.n)(),
                    state_events={1.3: [0]} if 'state' in self.events else None)
        d.solve()
        self.log.append(('rows', [t for t, _ in d.rows] + [v[p] for _, v in d.rows for p in sorted(v)]))

    def store(self):
        self.s.solver.interface.historian_update(self.sym('st%d' % self.k), None)

    def keep(self):
        self.m.create_historian_df()

    def reset(self):
        self.s.reset(0.0)

    def paths(self):
        return sorted(p[:-1] for p in self.m.aliases if p.endswith('.t1.x'))

    def read(self):
        self.log.append(('names', sorted(self.m.aliases)))
        vals = values_of(self.m) if self.s else {}
        self.log.append(('values', [vals[p] for p in sorted(vals)]))
        g = self.m.get_variables()
        self.log.append(('get_variables', [g[p] for p in sorted(g)]))
        if self.s:
            self.m.update_local_variables()
            self.log.append(('local values', [self.m.path_to_variable[p].value for p in sorted(self.m.path_to_variable)]))
        i = self.m.get_variables_initial_values()
        self.log.append(('initial values', [i[p] for p in sorted(i)]))
        if self.m.historian_df is not None:
            rows = drv.history(self.m)
            self.log.append(('history', [t for t, _ in rows] + [v[p] for _, v in rows for p in sorted(v)]))
        self.log.append(('events', [len(self.m.events), len(self.m.timestamp_events)]))


def compare(ctx, a, b, tag):
    ctx.check([x[0] for x in a] == [x[0] for x in b], '%s: the same operations' % tag)
    for i, ((k, v), (_, w)) in enumerate(zip(a, b)):
        if k == 'names' or k == 'events':
            ctx.check(v == w, '%s: %s' % (tag, k))
            continue
        ctx.check(len(v) == len(w), '%s: result %d (%s) has %d values, alone %d' % (tag, i, k, len(v), len(w)))
        for j, (x, y) in enumerate(zip(v, w)):
            ctx.eq(x, y, '%s: result %d (%s), value %d' % (tag, i, k, j))


def interleave(seed, pa, pb):
    r = random.Random(seed)
    a, b, out = list(pa), list(pb), []
    while a or b:
        if a and (not b or r.random() < len(a) / (len(a) + len(b))):
            out.append(('a', a.pop(0)))
        else:
            out.append(('b', b.pop(0)))
    return out


def scenario(order, ka=None, kb=None):
    """order: operations of the models a and b.  Every result has to be that of the same operations with one model only"""
    def f(ctx):
        memo = Memo(ctx)
        alone = {}
        for t, kw in (('a', ka), ('b', kb)):
            u = Use(ctx, t, **kw or {})
            u.memo = memo
            for x, op in order:
                if x == t:
                    getattr(u, op)()
            u.read()
            alone[t] = u
        both = {t: Use(ctx, t, **kw or {}) for t, kw in (('a', ka), ('b', kb))}
        for u in both.values():
            u.memo = memo
        for x, op in order:
            getattr(both[x], op)()
        for t, u in both.items():
            u.read()
        for t, u in both.items():
            compare(ctx, u.log, alone[t].log, 'model %s' % t)
        # the models that were built first have not been touched
        for t, u in alone.items():
            u.log = u.log[-len(['names', 'values', 'get_variables', 'local values', 'initial values', 'events']) - (u.m.historian_df is not None):]
            old, u.log = u.log, []
            u.read()
            compare(ctx, u.log, old, 'model %s, which was built before' % t)
    return f


SCENARIOS = []


def S(name, fn, **k):
    SCENARIOS.append(Scn(name, fn, **k))


def parse(s):
    names = dict(B='build', S='sim', e='eval', w='write', v='assign', r='run', s='store', k='keep', R='reset', g='read')
    return [(x[0], names[x[1]]) for x in s.split()]


FIXED = ['aB bB aS bS ae be aw bw ag bg', 'aB bB bS aS be ae ag bg', 'aB aS bB ae ag bS be ae', 'aB aS bB bS ar br ag bg', 'aB bB aS ar bS br ar',
         'aB aS ae bB aw ae ag bS bw bR ae ag', 'aB aS ar aR bB bS br aR ag', 'aB bB aS bS av bv aR bR ae be', 'aB aS as bB bS bs ak bk ag',
         'aB aS bB bS ae be ar bR ag be br aR']
PAIRS = [('same', {}, {}), ('classes', dict(cls='one'), dict(cls='other')), ('wired', dict(wiring='sum', n=3), dict(wiring='assign')), ('chain', dict(wiring='chain', cls='one'), dict(cls='timed', wiring='sum')),
         ('sets', dict(sets=True, n=3), dict(sets=True)), ('setitem', dict(sets=True, cls='one'), dict(cls='one')),
         ('data', dict(frames=FA), dict(frames=FB)), ('nodata', dict(frames=FA), {}), ('globals', dict(gv=True, cls='timed'), dict(cls='timed')),
         ('sizes', dict(historian='own', size=2), dict(historian='own', size=5)), ('size', dict(historian='own', size=1), {})]
EV = [('events', dict(events=('state', 'time')), dict(events=('state', 'time'), level=1)), ('item', dict(events=('item',)), dict(events=('item',), level=1)),
      ('noevents', dict(events=('state', 'item', 'time')), {}), ('external', dict(events=('external',)), dict(events=('time',), level=1, cls='other'))]
_i = 0
for _pn, _ka, _kb in PAIRS + EV:
    for _j, _o in enumerate(FIXED):
        _i += 1
        if (_pn, _j) in (('x', 0),):
            continue
        S('%s_%d' % (_pn, _j), scenario(parse(_o), _ka, _kb), tier='quick' if (_i % 3 == 0 or _pn in ('same', 'classes', 'events') and _j < 4) else 'thorough')
        S('%s_%d_swapped' % (_pn, _j), scenario(parse(_o), _kb, _ka), tier='quick' if _i % 4 == 1 else 'thorough')
OPS = ['e', 'w', 'v', 'r', 'g', 'R', 'e']
for _s in range(120):
    _r = random.Random(_s)
    _pn, _ka, _kb = _r.choice(PAIRS + EV)
    _p = {t: ['%sB' % t, '%sS' % t] + ['%s%s' % (t, _r.choice(OPS)) for _ in range(_r.choice([2, 3, 4]))] for t in 'ab'}
    _o = ' '.join(x[1] for x in interleave(_s, _p['a'], _p['b']))
    S('random%d_%s' % (_s, _pn), scenario(parse(_o), _ka, _kb), tier='quick' if _s < 24 else 'thorough')
