"""systems with events: shared by C10, C11 and C19"""
import random

import numpy as np

from vlib.scn import *
from checks import c03, c04, gen_ev


class View(dict):
    """what the user's function is given: names -> values, writes recorded"""

    def __init__(self, cur, names):
        super().__init__()
        self.cur, self.names = cur, names

    def __getitem__(self, n):
        return self.cur[self.names[n]]

    def __setitem__(self, n, v):
        self.cur[self.names[n]]
        self.cur[self.names[n]] = v

    def __contains__(self, n):
        return n in self.names


class Ev:
    """declaration of one event; owner None: on the model, else the path of an item or subsystem"""

    def __init__(self, kind, owner, cond, act, direction=-1, external=False, key='ev', timestamps=None, period=None):
        self.kind, self.owner, self.cond, self.act = kind, owner, cond, act
        self.direction, self.external, self.key = direction, external, key
        self.timestamps, self.period = timestamps, period

    def add(self, obj):
        if self.kind == 'state':
            obj.add_event(self.key, self.cond, self.act, direction=self.direction, is_external=self.external)
        else:
            kw = dict(timestamps=self.timestamps) if self.timestamps is not None else dict(periodicity=self.period)
            obj.add_timestamp_event(self.key, self.act, is_external=self.external, **kw)


def build(ctx, spec, kw, events, early=False, copying=False, t0=0.0):
    """the system with its events, simulated memory filled with arbitrary values.  early: events are added to items
    before they are registered; copying: the memory of the model is read as a copy, as the native backend does"""
    item_events = [e for e in events if e.owner is not None]
    model_events = [e for e in events if e.owner is None]

    def at(items, subs, e, paths=None):
        if e.owner in subs:
            return subs[e.owner]
        return items[e.owner.rsplit('.', 1)[1]]

    def pre(items):
        for e in item_events:
            if early and e.owner.rsplit('.', 1)[-1] in items:
                e.add(items[e.owner.rsplit('.', 1)[1]])

    def hook(items, subs):
        for e in item_events:
            if not (early and e.owner.rsplit('.', 1)[-1] in items):
                e.add(at(items, subs, e))
    m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, pre_hook=pre, hook=hook, model_only=True, **kw)
    for e in model_events:
        e.add(m)
    s = plain_sim(m, t0, t0 + 1.0, 1)
    if copying:
        nm = m.numba_model
        plain = type(nm).read_variables
        type(nm).read_variables = lambda self: plain(self).copy()
    cur = {p: ctx.real('m_' + p, -1e3, 1e3) for p in sorted(init)}
    m.set_variables(cur)
    return m, s, cur


def solver_order(m, events):
    """the events in the order of m.events / m.timestamp_events, found by the user's functions"""
    out = {'state': [], 'time': []}
    for kind, lst in (('state', m.events), ('time', m.timestamp_events)):
        rest = [e for e in events if e.kind == kind]
        for x in lst:
            e = [e for e in rest if e.act is x.action.func]
            if not e:
                continue
            out[kind].append(e[0])
    return out


def item_paths(spec, kw, tag='s'):
    groups, sets = kw.get('groups') or {}, kw.get('sets') or {}
    inset = {t: (sn, pre) for sn, (mem, pre) in sets.items() for t in mem}
    out = {}
    for t in spec:
        if t in inset:
            out[t] = '.'.join((tag,) + tuple(inset[t][1]) + ('SET_' + inset[t][0], t))
        else:
            out[t] = '.'.join((tag,) + tuple(groups.get(t, ())) + (t,))
    return out


def gen_events(seed, n, kinds=('state', 'time'), what='action', sets=False):
    """a system and n events over its variables"""
    r = random.Random(31000 + seed)
    spec, kw = (c04.gen_spec if sets else c03.gen_spec)(2000 + seed)
    if not sets:
        spec = c03.limit(spec, 0)
    ip = item_paths(spec, kw)
    paths = []
    for t, (cls, _) in spec.items():
        for v, (k, _) in cls.V.items():
            paths.append('%s.t1.%s' % (ip[t], v))
    subs = sorted({'.'.join(p.split('.')[:k]) for p in ip.values() for k in range(1, len(p.split('.')))
                   if not any(x.startswith('SET_') for x in p.split('.')[:k])})
    events, src = [], 'import math\n\n\n'
    for i in range(n):
        kind = kinds[0] if i == 0 else r.choice(kinds)
        k = r.random()
        owner = None if k < .35 else r.choice(sorted(ip.values())) if k < .8 else r.choice(subs)
        names, mp = gen_ev.relative(paths, owner)
        if owner:
            own = [x for x in names if mp[x].startswith(owner + '.')]
            names = own * 4 + names if r.random() < .8 else own
        few = r.sample(names, min(len(names), r.choice([3, 4, 6])))
        pre = r.choice(few)
        pre = pre[:r.randrange(0, len(pre))]
        g = gen_ev.GenEv(r, few, pre)
        # functions of different events share their names, as those of items of the same class do
        nm = r.choice(['f', 'g', 'ev%d' % i])
        src += gen_ev.factory('%s_%s' % ('c', nm), g.condition()).replace('make_c_%s' % nm, 'make_c%d' % i) if kind == 'state' else ''
        a = gen_ev.GenEv(r, few, pre)
        src += gen_ev.factory('%s_%s' % ('a', nm), a.action(1 if what == 'condition' else r.choice([1, 2, 3]))).replace('make_a_%s' % nm, 'make_a%d' % i)
        events.append(dict(kind=kind, owner=owner, mp=mp, path=pre, gain=r.choice([1.5, -2.0, 3, 0.25]), i=i,
                           direction=r.choice([-1, 1, 0]), external=r.random() < .3, key=r.choice(['ev', 'ev%d' % i]),
                           timestamps=[1.0, 2.0] if r.random() < .5 else None, period=0.5))
    return spec, kw, events, src


def make_events(events, src, name):
    mod = gen_ev.load(src, name)
    out = []
    for e in events:
        a = getattr(mod, 'make_a%d' % e['i'])(e['path'], e['gain'])
        c = getattr(mod, 'make_c%d' % e['i'])(e['path'], e['gain']) if e['kind'] == 'state' else None
        x = Ev(e['kind'], e['owner'], c, a, e['direction'], e['external'], e['key'], e['timestamps'], e['period'])
        x.mp = e['mp']
        out.append(x)
    return out


def compare(ctx, m, cur, tag):
    got = values_of(m)
    for p in cur:
        ctx.eq(got[p], cur[p], '%s: value of %s' % (tag, p))
