"""C10: event actions change exactly the variables they name"""
from vlib.runner import Scn
from vlib.scn import *
from checks import ev

ASSUMPTIONS = ['event functions and systems are enumerated; the memory of the model, the states at the event and the time are symbolic',
               'events are run by the dispatch code of the external solver package (interpreted), at given times and states; event location is outside']


def run(seed, n, copying, sets=False, rounds=3):
    def f(ctx):
        spec, kw, decl, src = ev.gen_events(seed, n, sets=sets, kinds=('state', 'time', 'state', 'time'))
        events = ev.make_events(decl, src, 'genev_a%d' % seed)
        m, s, cur = ev.build(ctx, spec, kw, events, early=seed % 2 == 1, copying=copying)
        check(ctx, m, s, cur, events, random.Random(seed), rounds)
    return f


import random


def fire(s, kind, which, t, y, direction=-1):
    """what the solver does when the events `which` are triggered at (t, y)"""
    sv = s.solver
    iface = sv.interface
    evs = sv.state_events if kind == 'state' else sv.time_events
    for i in which:
        evs[i].set()
    iface.set_states(y)
    external, y2 = iface.run_events(direction if kind == 'state' else 0, t, y, evs)
    iface.set_states(y2)
    if external:
        sv._trigger_external_events(direction, t, iface.get_states())
    for e in evs:
        if hasattr(e, '_last_event'):
            # the solver asks numba for the type of the previous value
            object.__setattr__(e, '_last_event', 0.0)
    return iface.get_states()


def check(ctx, m, s, cur, events, r, rounds):
    order = ev.solver_order(m, events)
    so = state_order(m)
    ctx.check(len(order['state']) + len(order['time']) == len(events), 'every event reaches the solver')
    for k in range(rounds):
        kind = r.choice([x for x in ('state', 'time') if order[x]])
        n = len(order[kind])
        which = sorted(r.sample(range(n), min(n, r.choice([1, 1, 1, 2]))))
        y = [ctx.real('y%d_%d' % (k, i), -1e3, 1e3) for i in range(len(so))]
        t = ctx.real('t%d' % k, 0, 10)
        cur = dict(cur)
        cur.update(zip(so, y))
        for i in which:
            e = order[kind][i]
            if not e.external:
                e.act(t, ev.View(cur, e.mp))
        for i in which:
            e = order[kind][i]
            if e.external:
                e.act(t, ev.View(cur, e.mp))
        ys = fire(s, kind, which, t, np.array(y))
        tag = 'after event%s %s (%s), round %d' % ('s' if len(which) > 1 else '', ', '.join(str(i) for i in which), kind, k)
        ev.compare(ctx, m, cur, tag)
        for i, p in enumerate(so):
            ctx.eq(ys[i], cur[p], '%s: state %s seen by the solver' % (tag, p))
        ctx.check(not any(x.is_triggered() for x in list(s.solver.state_events) + list(s.solver.time_events)), '%s: no event is left triggered' % tag)


def names_of_external(seed):
    """an external action sees every variable by name: its own relative to the item, others by their full path"""
    def f(ctx):
        from checks import c03
        spec, kw = c03.gen_spec(3000 + seed)
        spec = c03.limit(spec, 0)
        r = random.Random(seed)
        ip = ev.item_paths(spec, kw)
        owner = None if seed % 4 == 0 else r.choice(sorted(ip.values())) if seed % 4 < 3 else 's'
        seen = {}

        def act(t, v):
            seen.update(v)
            for i, n in enumerate(sorted(v)):
                if i % 3 == 0:
                    v[n] = v[n] * 2 + t
        e = ev.Ev('time', owner, None, act, external=True, timestamps=[1.0, 2.0])
        e.mp = {}
        m, s, cur = ev.build(ctx, spec, kw, [e], early=seed % 2 == 1)
        names, mp = ev.gen_ev.relative(sorted(cur), owner)
        y = [cur[p] for p in state_order(m)]
        t = ctx.real('t', 0, 10)
        fire(s, 'time', [0], t, np.array(y))
        # everything is seen before it is changed
        ctx.check(set(names) <= set(seen), 'the action sees every variable')
        for n in names:
            ctx.eq(seen[n], cur[mp[n]], 'the action sees the value of %s' % n)
        want = dict(cur)
        for i, n in enumerate(sorted(seen)):
            if i % 3 == 0 and n in mp:
                want[mp[n]] = cur[mp[n]] * 2 + t
        ev.compare(ctx, m, want, 'after the external action')
    return f


SCENARIOS = []
for _g in range(40):
    SCENARIOS.append(Scn('names%d' % _g, names_of_external(_g), tier='quick' if _g < 12 else 'thorough', witness=_g % 4 == 0, bounds='one external action that reads all and changes a third of the variables'))
for _g in range(240):
    SCENARIOS.append(Scn('gen%d' % _g, run(_g, 1 + _g % 4, _g % 3 == 0), tier='quick' if _g < 50 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated system of 3-5 items, %d events, 3 rounds of 1-2 events' % (1 + _g % 4)))
for _g in range(80):
    SCENARIOS.append(Scn('set%d' % _g, run(1000 + _g, 1 + _g % 3, _g % 3 == 0, sets=True), tier='quick' if _g < 15 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated system with sets, %d events, 3 rounds of 1-2 events' % (1 + _g % 3)))
