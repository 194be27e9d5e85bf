"""C11: event conditions are evaluated on the named variables, without side effects"""
from vlib.runner import Scn
from vlib.scn import *
from checks import ev

ASSUMPTIONS = ['event functions and systems are enumerated; the memory of the model, the trial state and the time are symbolic',
               'a name that holds different paths in different branches of an event function is refused by the code under test']


def run(seed, n, copying, sets=False):
    def f(ctx):
        spec, kw, decl, src = ev.gen_events(seed, n, what='condition', kinds=('state', 'state', 'state', 'time'), sets=sets)
        events = ev.make_events(decl, src, 'genev_c%d' % seed)
        m, s, cur = ev.build(ctx, spec, kw, events, early=seed % 2 == 1, copying=copying)
        check(ctx, m, s, cur, events)
    return f


def check(ctx, m, s, cur, events, rounds=2):
    iface, evs = s.solver.interface, s.solver.state_events
    order = ev.solver_order(m, events)['state']
    ctx.check(len(order) == len(evs) == sum(e.kind == 'state' for e in events), 'every state event reaches the solver once')
    so = state_order(m)
    for k in range(rounds):
        y = [ctx.real('y%d_%d' % (k, i), -1e3, 1e3) for i in range(len(so))]
        t = ctx.real('t%d' % k, 0, 10)
        trial = dict(cur)
        trial.update(zip(so, y))
        if k == 0:
            res = [e.get_event_results(iface, t, np.array(y)) for e in evs]
        else:
            res = iface.get_state_event_results(t, np.array(y), evs)
        for i, e in enumerate(order):
            ctx.eq(res[i], e.cond(t, ev.View(dict(trial), e.mp)), 'condition %d (round %d)' % (i, k))
            ctx.check(evs[i].get_event_directions(iface, t, np.array(y)) == e.direction, 'direction of event %d' % i)
        ev.compare(ctx, m, cur, 'after evaluating the conditions (round %d)' % k)
        if k == 0:
            # the memory changes between evaluations of the conditions
            cur = {p: ctx.real('n_' + p, -1e3, 1e3) for p in cur}
            m.set_variables(cur)


def refused(kind, wh, w):
    """unknown names are refused when the model is built"""
    def f(ctx):
        from checks import c03
        spec, kw = c03.gen_spec(2001)
        ip = ev.item_paths(spec, kw)
        own = sorted(ip.values())[0]
        bad = dict(unknown='t1.nope', other_item_relative='zz.t1.x', own_absolute=own + '.t1.nope')[kind]

        src = 'def make_a0(path, gain):\n    def a(t, v):\n        v[%r] = 1.0\n    return a\n\n\ndef make_c0(path, gain):\n    def c(t, v):\n        return v[%r] + 1\n    return c\n'
        where = own if wh else None
        if 1:
            if 1:
                good = 't1.x' if where else own + '.t1.x'
                s = src % ((good, bad) if w else (bad, good))
                d = dict(kind='state', owner=where, mp={}, path='', gain=1.0, i=0, direction=-1, external=False, key='e', timestamps=None, period=None)
                events = ev.make_events([d], s, 'genev_r')
                try:
                    ev.build(ctx, spec, kw, events)
                    ok = False
                except KeyError:
                    ok = True
                ctx.check(ok, 'the name %r in the %s of an event of %s is refused' % (bad, ('action', 'condition')[w], where or 'the model'))
    return f


SCENARIOS = []
for _k in ('unknown', 'other_item_relative', 'own_absolute'):
    for _w in range(4):
        SCENARIOS.append(Scn('refused_%s%d' % (_k, _w), refused(_k, _w // 2, _w % 2), bounds='names that do not exist'))
for _g in range(160):
    SCENARIOS.append(Scn('gen%d' % _g, run(_g, 1 + _g % 4, _g % 3 == 0), tier='quick' if _g < 40 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated system of 3-5 items, %d events' % (1 + _g % 4)))
for _g in range(60):
    SCENARIOS.append(Scn('set%d' % _g, run(1000 + _g, 1 + _g % 3, _g % 3 == 0, sets=True), tier='quick' if _g < 12 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated system with sets, %d events' % (1 + _g % 3)))
