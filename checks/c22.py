"""C22: cloned and re-loaded models compute what the original computes

clone() and from_file() rebuild the functions of a model from the LLVM IR of the original; the IR is interpreted on symbolic
values (vlib/llvmsym.py).  The reference is a model of its own, built from the same description by the interpreted backend."""
import os
import tempfile

import numpy as np

from numerous.engine.model import Model
from numerous.multiphysics import Equation
from vlib.runner import Scn
from vlib.scn import *
from checks import c01, c03, c04
from checks.c13 import Memo

ASSUMPTIONS = [
    'clones exist for the native backend only; the code generator of LLVM and its passes are trusted',
    'event functions of a clone are compared by the values their compiled conditions and actions produce, outside of an integration',
]


class View:
    """a model (original, clone, re-loaded or reference) by the paths of its variables"""

    def __init__(self, m):
        self.m = m
        self.ix = {p: m.vars_ordered_values[v] for p, v in m.aliases.items()}
        self.states = state_order(m)

    def values(self):
        v = self.m.numba_model.read_variables()
        return {p: v[i] for p, i in self.ix.items()}

    def func(self, t, y):
        d = self.m.numba_model.func(t, np.array([y[p] for p in self.states]))
        return dict(zip(self.states, d))


def same(ctx, a, b, what):
    va, vb = a.values(), b.values()
    ctx.check(sorted(va) == sorted(vb), 'names of the variables %s' % what)
    for p in va:
        if p in vb:
            ctx.eq(vb[p], va[p], 'value of %s %s' % (p, what))


def evaluate(ctx, r, pairs, tag, t):
    y = {p: ctx.real('y_%s%d_%s' % (tag, r, p), -1e3, 1e3) for p in pairs[0][0].states}
    for a, b in pairs:
        ctx.check(sorted(a.states) == sorted(b.states), 'states (%s)' % tag)
        da, db = a.func(t, y), b.func(t, y)
        for p in da:
            ctx.eq(db[p], da[p], 'derivative of %s (%s, evaluation %d)' % (p, tag, r))
        same(ctx, a, b, 'after evaluation %d (%s)' % (r, tag))


def compiled(m, t0=0.0):
    m._generate_compiled_model(t0, 4)
    return m


def build(ctx, sysf, how, n=0, model_kw=None):
    """the original (native), the models derived from it, and one reference per model"""
    kw = model_kw or {}
    refs = [View(compile_model(sysf(ctx), **kw)) for _ in range(2 + n)]
    d = None
    if how == 'file':
        d = tempfile.mkdtemp(prefix='c22_')
        os.environ['EXPORT_MODEL_PATH'] = d
    try:
        if how == 'file':
            orig = Model(sysf(ctx), use_llvm=True, export_model=True, **kw)
            fs = [os.path.join(d, f) for f in os.listdir(d)]
            ctx.ctx.check(len(fs) == 1 and fs[0].endswith('.numerous'), 'exported file')
            derived = [Model.from_file(fs[0])]
        elif how == 'chain':
            orig = Model(sysf(ctx), use_llvm=True, clonable=True, **kw)
            derived = [orig.clone(clonable=True).clone()]
        else:
            orig = Model(sysf(ctx), use_llvm=True, clonable=True, **kw)
            derived = [orig.clone()]
    finally:
        if d:
            import shutil
            shutil.rmtree(d)
            del os.environ['EXPORT_MODEL_PATH']
    return orig, derived, refs


def history(sysf, how, model_kw=None, rounds=2, reset=True, writes=True):
    def f(ctx):
        memo = Memo(ctx)
        kw = model_kw(memo) if model_kw else {}
        orig, derived, refs = build(memo, sysf, how, model_kw=kw)
        compiled(orig)
        compiled(derived[0])
        o, c = View(orig), View(derived[0])
        ro, rc = refs[0], refs[1]
        same(ctx, rc, c, 'of the new model')
        same(ctx, ro, o, 'of the original')
        # the new model is used, the original is not affected
        evaluate(ctx, 0, [(rc, c)], 'new', 0.5)
        same(ctx, ro, o, 'of the original after the new model was evaluated')
        if writes:
            par = [p for p in sorted(c.ix) if p not in c.states and not p.endswith('_dot')]
            if par:
                p = par[len(par) // 2]
                for k, ((r1, m1), (r2, m2)) in enumerate((((rc, c), (ro, o)), ((ro, o), (rc, c)))):
                    v = ctx.real('w%d' % k, -1e3, 1e3)
                    r1.m.update_variables({p: v})
                    m1.m.update_variables({p: v})
                    same(ctx, r1, m1, 'after writing a variable (%d)' % k)
                    same(ctx, r2, m2, 'after writing a variable of the other (%d)' % k)
                v = ctx.real('w3', -1e3, 1e3)
                r, m = (ro, o), (rc, c)
                # through the variable objects
                for k, ((r1, m1), (r2, m2)) in enumerate((((rc, c), (ro, o)), ((ro, o), (rc, c)))):
                    v = ctx.real('x%d' % k, -1e3, 1e3)
                    r1.m.path_to_variable[p].value = v
                    m1.m.path_to_variable[p].value = v
                    same(ctx, r1, m1, 'after assigning to a variable (%d)' % k)
                    same(ctx, r2, m2, 'after assigning to a variable of the other (%d)' % k)
                    ctx.eq(m1.m.path_to_variable[p].value, r1.m.path_to_variable[p].value, 'value of the variable object (%d)' % k)
                    ctx.eq(m2.m.path_to_variable[p].value, r2.m.path_to_variable[p].value, 'value of the other variable object (%d)' % k)
        evaluate(ctx, 1, [(ro, o), (rc, c)], 'both', 1.5)
        if reset:
            for r1, m1, r2, m2 in ((rc, c, ro, o), (ro, o, rc, c)):
                r1.m._reset()
                m1.m._reset()
                same(ctx, r1, m1, 'after a reset')
                same(ctx, r2, m2, 'after a reset of the other')
            ia, ib = rc.m.get_variables_initial_values(), c.m.get_variables_initial_values()
            ctx.check(sorted(ia) == sorted(ib), 'names of the initial values')
            for p in ia:
                ctx.eq(ib[p], ia[p], 'initial value of %s' % p)
        if rounds > 2:
            evaluate(ctx, 2, [(ro, o), (rc, c)], 'end', 2.5)
        g, h = rc.m.get_variables(), c.m.get_variables()
        ctx.check(sorted(g) == sorted(h), 'names that are read')
        ctx.check(sorted(rc.m.logged_variables) == sorted(c.m.logged_variables), 'logged variables')
        ctx.check(sorted(x.tag for x in rc.m.global_variables.values()) == sorted(x.tag for x in c.m.global_variables.values()), 'global variables')
    return f


def one(cls, n=1):
    def sysf(ctx):
        return Sys('s', [cls('i%d' % j, init={v: ctx.real('%s_%d' % (v, j), -1e3, 1e3) for v in cls.V}) for j in range(n)])
    return sysf


def spec(sp, kw=None):
    """the system of a specification of C03 / C04"""
    kw = kw or {}

    class Take(Exception):
        pass

    def sysf(ctx):
        import vlib.scn as scn
        got = []
        old = scn.Model

        class M:
            def __new__(cls, system, **k):
                got.append(system)
                raise Take()
        scn.Model = M
        try:
            build_spec(ctx, sp, check=False, model_only=True, **kw)
        except Take:
            pass
        finally:
            scn.Model = old
        return got[0]
    return sysf


def globs(ctx):
    return dict(global_variables=[('g1', ctx.real('g1', -1e3, 1e3)), ('g2', ctx.real('g2', -1e3, 1e3))])


class Glob(Node):
    V = {'x': ('state', 1.0), 'p': ('par', 3.0), 'q': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.p = scope.global_vars.g1 - scope.global_vars.t
        scope.x_dot = scope.global_vars.g2 * scope.x + scope.q


class Ev(Node):
    V = {'x': ('state', 1.0), 'p': ('par', 3.0)}

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.p


def ev_cond(t, variables):
    return variables['t1.x'] - variables['t1.p']


def ev_act(t, variables):
    variables['t1.p'] = variables['t1.x'] * 2


def m_cond(t, variables):
    return variables['s.i0.t1.x'] - 5


def m_act(t, variables):
    variables['s.i0.t1.x'] = variables['s.i0.t1.p'] + t


def ts_act(t, variables):
    variables['t1.p'] = t * 3


def events(how, model_level=False):
    def f(ctx):
        memo = Memo(ctx)

        def sysf(c):
            it = Ev('i0', init={v: c.real(v, -1e3, 1e3) for v in Ev.V})
            it.add_event('e', ev_cond, ev_act)
            it.add_timestamp_event('t', ts_act, timestamps=[1.0, 2.0])
            return Sys('s', [it])
        orig, derived, refs = build(memo, sysf, how)
        ms = [orig, derived[0], refs[0].m]
        names = [[e.key for e in m.events] for m in ms]
        ctx.check(names[0] == names[2] and names[1] == names[2], 'events of the models: %s' % (names,))
        names = [[e.key for e in m.timestamp_events] for m in ms]
        ctx.check(names[0] == names[2] and names[1] == names[2], 'time events of the models: %s' % (names,))
        if model_level:
            ms[1].add_event('m', m_cond, m_act)
            ctx.check([e.key for e in orig.events] == ['e'], 'an event of the new model is no event of the original')
            ms = ms[1:]
            ms[1].add_event('m', m_cond, m_act)
        out = []
        t = ctx.real('t', 0, 10)
        vals = {p: ctx.real('v_' + p, -1e3, 1e3) for p in refs[0].ix}
        for m in ms:
            compiled(m)
            w = View(m)
            v = np.array([0.0] * len(m.vars_ordered_values))
            v = np.array([vals[p] for i in range(len(v)) for p in [next(q for q in w.ix if w.ix[q] == i)]])
            cf, dirs = m.generate_event_condition_ast()
            af = m.generate_event_action_ast(m.events)
            tf = m.generate_event_action_ast(m.timestamp_events)
            res = list(cf(t, v.copy()))
            for g, n in ((af, len(m.events)), (tf, len(m.timestamp_events))):
                for i in range(n):
                    r = g(t, v.copy(), i)
                    res += [r[w.ix[p]] for p in sorted(vals)]
            out.append(res)
        for r in out[:-1]:
            ctx.check(len(r) == len(out[-1]), 'number of results')
            for i, x in enumerate(r):
                ctx.eq(x, out[-1][i], 'result %d of the event functions' % i)
    return f


def items(how):
    def f(ctx):
        memo = Memo(ctx)
        orig, derived, refs = build(memo, one(c01.TwoEq, 2), how)
        for tag in ('i0', 'i1', 's', 'none'):
            a = [i.tag for i in orig.search_items(tag)]
            ctx.check([i.tag for i in derived[0].search_items(tag)] == a, 'items found by the tag %s' % tag)
    return f


SCENARIOS = []
for how in ('clone', 'file', 'chain'):
    for c in (c01.Order, c01.TwoEq, c01.Chain, c01.Time):
        SCENARIOS.append(Scn('%s_%s' % (how, c.__name__), history(one(c), how, rounds=3), witness=c is c01.Chain, bounds='one item; evaluations, writes and resets of both models'))
    SCENARIOS.append(Scn('%s_two' % how, history(one(c01.TwoEq, 2), how), witness=False, bounds='two items'))
    SCENARIOS.append(Scn('%s_globals' % how, history(one(Glob), how, model_kw=globs), bounds='two extra global variables'))
    for k in ('sum_own_eq', 'chain3', 'sum3_states'):
        SCENARIOS.append(Scn('%s_map_%s' % (how, k), history(spec(c03.limit(c03.FIX[k], 0)), how), witness=False, bounds='mapped variables'))
    SCENARIOS.append(Scn('%s_set' % how, history(spec({'i%d' % j: (c04.A, []) for j in range(2)}, dict(sets={'q': (['i0', 'i1'], ())})), how),
                         bounds='a set of two items'))
    SCENARIOS.append(Scn('%s_events' % how, events(how), bounds='a state event and a time event of an item'))
    SCENARIOS.append(Scn('%s_events_model' % how, events(how, True), bounds='and an event of the model'))
    SCENARIOS.append(Scn('%s_items' % how, items(how), bounds='items found by tag'))
