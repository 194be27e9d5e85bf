"""C06: reading and writing variables by name addresses exactly the named variable"""
import random

import numpy as np

from vlib.runner import Scn
from vlib.scn import *
from checks import c03, c04

ASSUMPTIONS = ['structures and sequences of operations are enumerated; every value written and every state is symbolic']

WRITES = ('set_variables', 'update_variables', 'object', 'path_to_variable', 'states', 'many')


def oracle_eval(ctx, m, cur, eqs, assign, sums, t, tag):
    """one evaluation at the current states, compared by name through every way of reading"""
    order = state_order(m)
    y = m.numba_model.get_states()
    for i, p in enumerate(order):
        ctx.eq(y[i], cur[p], '%s state %s before the evaluation' % (tag, p))
    d = derivs(m, t, y)
    o = Oracle(cur, eqs, assign, sums, glob=dict(t=t))
    for i, p in enumerate(order):
        ctx.eq(d[i], o.get(p + '_dot'), '%s derivative of %s' % (tag, p))
    return {p: o.get(p) for p in cur}


def read_all(ctx, m, cur, tag, items):
    """bulk reads and reads through variable objects"""
    got = m.get_variables()
    ctx.check(sorted(got) == sorted(cur), '%s: get_variables lists every variable by its name' % tag)
    for p in cur:
        ctx.eq(got[p], cur[p], '%s get_variables %s' % (tag, p))
    m.update_local_variables()
    for p in cur:
        ctx.eq(m.path_to_variable[p].value, cur[p], '%s value of the variable object %s' % (tag, p))
    got = values_of(m)
    for p in cur:
        ctx.eq(got[p], cur[p], '%s memory %s' % (tag, p))


def run(spec, kw, seed, nops):
    def f(ctx):
        r = random.Random(seed)
        m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, **kw)
        items, paths = m.verif_items, m.verif_paths
        obj = {'%s.%s' % (paths[t], v): (t, v) for t in items for v in list(items[t].V) + [x + '_dot' for x, (k, _) in items[t].V.items() if k == 'state']}
        ctx.check(sorted(obj) == sorted(init) and set(init) <= set(m.aliases), 'every variable has its name')
        cur = dict(init)
        read_all(ctx, m, cur, 'initially', items)
        iv = m.get_variables_initial_values()
        for p in init:
            ctx.eq(iv[p], init[p], 'initial value of %s' % p)
        names = sorted(init)
        for k in range(nops):
            op = WRITES[(seed + k) % len(WRITES)] if k < 3 else r.choice(WRITES)
            p = r.choice(names)
            v = ctx.real('w%d' % k, -1e3, 1e3)
            tag = 'after write %d (%s %s)' % (k, op, p)
            if op == 'set_variables':
                m.set_variables({p: v})
                cur[p] = v
            elif op == 'update_variables':
                m.update_variables({p: v})
                cur[p] = v
            elif op == 'object':
                t, vn = obj[p]
                getattr(items[t].t1, vn).value = v
                cur[p] = v
            elif op == 'path_to_variable':
                m.path_to_variable[p].value = v
                cur[p] = v
            elif op == 'states':
                order = state_order(m)
                y = [ctx.real('w%d_%d' % (k, i), -1e3, 1e3) for i in range(len(order))]
                m.numba_model.set_states(np.array(y))
                for i, q in enumerate(order):
                    cur[q] = y[i]
            else:
                ps = r.sample(names, 3)
                d = {q: ctx.real('w%d_%d' % (k, i), -1e3, 1e3) for i, q in enumerate(ps)}
                if r.random() < .5:
                    m.set_variables(d)
                else:
                    m.update_variables(d)
                cur.update(d)
            read_all(ctx, m, cur, tag, items)
            if k % 2 == 1:
                cur = oracle_eval(ctx, m, cur, eqs, assign, sums, 0.5 + k, tag)
                read_all(ctx, m, cur, tag + ' and an evaluation', items)
        # names that do not exist are refused and change nothing
        for bad in ('s.nope', names[0] + 'x', names[0].replace('.t1.', '.'), '', names[0][2:], 's.' + names[0]):
            if bad in init:
                continue
            for fn in (m.set_variables, m.update_variables):
                try:
                    fn({bad: 1.0})
                    ok = False
                except Exception:
                    ok = True
                ctx.check(ok, 'writing to the name %r is refused' % bad)
        read_all(ctx, m, cur, 'after refused writes', items)
    return f


def every(spec, kw):
    """each way of writing, for every variable of the model in turn"""
    def f(ctx):
        m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, **kw)
        items, paths = m.verif_items, m.verif_paths
        obj = {'%s.%s' % (paths[t], v): (t, v) for t in items for v in list(items[t].V) + [x + '_dot' for x, (k, _) in items[t].V.items() if k == 'state']}
        cur = dict(init)
        for j, p in enumerate(sorted(init)):
            for op in ('object', 'set_variables', 'path_to_variable', 'update_variables'):
                v = ctx.real('w_%d_%s' % (j, op), -1e3, 1e3)
                if op == 'object':
                    t, vn = obj[p]
                    getattr(items[t].t1, vn).value = v
                elif op == 'path_to_variable':
                    m.path_to_variable[p].value = v
                else:
                    getattr(m, op)({p: v})
                cur[p] = v
                got = values_of(m)
                for q in cur:
                    ctx.eq(got[q], cur[q], 'memory %s after writing %s (%s)' % (q, p, op))
        oracle_eval(ctx, m, cur, eqs, assign, sums, 0.5, 'after all writes')
    return f


def before_build(spec, kw, seed):
    """values assigned to variable objects before the model is built are its initial values"""
    def f(ctx):
        m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, **kw)
        st = m.states_as_vector
        for i, p in enumerate(state_order(m)):
            ctx.eq(st[i], init[p], 'states_as_vector %s' % p)
        order = state_order(m)
        cur = oracle_eval(ctx, m, init, eqs, assign, sums, 0.5, 'first')
        m.update_local_variables()
        # values of variable objects of the system, as a user reads them after a run
        for t, it in m.verif_items.items():
            for v in it.V:
                ctx.eq(getattr(it.t1, v).value, cur['%s.%s' % (m.verif_paths[t], v)], 'value of item variable %s.%s' % (t, v))
    return f


SCENARIOS = []
for _k, _v in c03.FIX.items():
    SCENARIOS.append(Scn('fix_' + _k, run(_v, {}, len(SCENARIOS), 4), bounds='fixed wiring, 4 writes, 2 evaluations'))
    SCENARIOS.append(Scn('every_' + _k, every(_v, {}), bounds='fixed wiring, every variable is written in every way'))
    SCENARIOS.append(Scn('obj_' + _k, before_build(_v, {}, 0), bounds='fixed wiring, variable objects after an evaluation'))
for _g in range(120):
    _s, _kw = c03.gen_spec(1000 + _g)
    _s = c03.limit(_s)
    SCENARIOS.append(Scn('gen%d' % _g, run(_s, _kw, _g, 4 if _g < 25 else 8), tier='quick' if _g < 25 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated structure of 3-5 items on up to 3 levels, %d writes' % (4 if _g < 25 else 8)))
for _g in range(60):
    _s, _kw = (c03 if _g % 2 else c04).gen_spec(3000 + _g)
    _s = c03.limit(_s) if _g % 2 else _s
    SCENARIOS.append(Scn('everygen%d' % _g, every(_s, _kw), tier='quick' if _g < 8 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated structure with or without sets, every variable is written in every way'))
for _g in range(80):
    _s, _kw = c04.gen_spec(1000 + _g)
    SCENARIOS.append(Scn('set%d' % _g, run(_s, _kw, _g, 4), tier='quick' if _g < 15 else 'thorough', witness=_g % 5 == 0,
                         bounds='generated structure with sets, 4 writes'))
