"""C05: each derivative drives its own state"""
import itertools
import random

import numpy as np

from numerous.multiphysics import Equation, EquationBase
from numerous.engine.system import Item

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['declaration orders and item mixes are enumerated up to the stated bounds; all values are symbolic',
               'the derivative of a state is what the user equations assign to <state>_dot (plus what is added to it with +=)']

KINDS = {'x': 'state', 'y': 'state', 'z': 'state', 'p': 'par', 'c': 'const'}


class K(Node):
    """three states with unrelated derivatives; ORDER is the order of declaration.  'x.' declares x_dot on its own"""
    ORDER = ()

    def __init__(self, tag, init=None):
        super(Node, self).__init__(tag)
        ns = self.create_namespace('t1')
        for o in self.ORDER:
            v = (init or {}).get(o.strip('.:'), 0.0)
            if o.endswith('.'):
                self.add_derivative(o[:-1])
            elif o.endswith(':'):
                self.add_state(o[:-1], v, create_derivative=False)
            elif KINDS[o] == 'state':
                self.add_state(o, v)
            elif KINDS[o] == 'par':
                self.add_parameter(o, v)
            else:
                self.add_constant(o, v)
        ns.add_equations([self])


class K3(K):
    @Equation()
    def eq(self, scope):
        scope.z_dot = scope.x + 3 * scope.c
        scope.x_dot = scope.y * scope.p
        scope.y_dot = scope.z - 2 * scope.x


class K3b(K):
    """one equation per derivative"""
    @Equation()
    def a_eq(self, scope):
        scope.y_dot = scope.z - 2 * scope.x

    @Equation()
    def b_eq(self, scope):
        scope.x_dot = scope.y * scope.p
        if scope.p > 0:
            scope.z_dot = scope.x + 3 * scope.c
        else:
            scope.z_dot = scope.x


class K2(K):
    """z is declared and has no equation: its derivative is zero"""
    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.y * scope.p - scope.c
        scope.y_dot = scope.z - 2 * scope.x


def order_cls(base, order):
    return type(base.__name__ + '_' + ''.join(order).replace('.', 'd').replace(':', 's'), (base,), dict(ORDER=tuple(order)))


def run(items, sets=None, sums=(), assigns=(), rounds=2):
    """items: [(tag, cls)]; sums/assigns: [(target 'tag.var', source 'tag.var')]"""
    sets = sets or {}

    def f(ctx):
        objs, init, path = {}, {}, {}
        inset = {t: s for s, m in sets.items() for t in m}
        for t, C in items:
            names = [o.strip('.:') for o in C.ORDER if not o.endswith('.')]
            iv = {v: ctx.real('%s_%s' % (t, v), -1e3, 1e3) for v in names}
            objs[t] = C(t, init=iv)
            pre = 's.SET_%s.%s.t1' % (inset[t], t) if t in inset else 's.%s.t1' % t
            path[t] = pre
            for v in names:
                init['%s.%s' % (pre, v)] = iv[v]
                if KINDS[v] == 'state':
                    init['%s.%s_dot' % (pre, v)] = 0.0
        asg, sm = {}, {}
        full = lambda s: '%s.%s' % (path[s.split('.')[0]], s.split('.')[1])
        for tgt, src in sums:
            (a, b), (c, d) = tgt.split('.'), src.split('.')
            do_sum(objs[a], 't1', b, getattr(objs[c].t1, d))
            sm.setdefault(full(tgt), []).append(full(src))
        for tgt, src in assigns:
            (a, b), (c, d) = tgt.split('.'), src.split('.')
            do_assign(objs[a], 't1', b, getattr(objs[c].t1, d))
            asg[full(tgt)] = full(src)
        s = Sys('s', [])
        done = set()
        for t, _ in items:
            if t in inset:
                if inset[t] not in done:
                    done.add(inset[t])
                    s.register_items([objs[x] for x in sets[inset[t]]], tag=inset[t], structure=ItemsStructure.SET)
            else:
                s.register_items([objs[t]])
        m = compile_model(s)
        nm = m.numba_model
        states = sorted('%s.%s' % (path[t], v.strip('.:')) for t, C in items for v in C.ORDER if not v.endswith('.') and KINDS[v.strip(':')] == 'state')
        order = state_order(m)
        ctx.check(sorted(order) == states, 'the state vector lists every state exactly once (%s)' % order)
        ctx.check(len(nm.deriv_idx) == len(nm.state_idx) and len(set(int(i) for i in nm.deriv_idx)) == len(states), 'one derivative per state')
        got = nm.get_states()
        for i, p in enumerate(order):
            ctx.eq(got[i], init[p], 'initial state %s' % p, tol=0)
        # writing a state vector changes exactly the states
        before = values_of(m)
        y = np.array([ctx.real('w_%s' % p, -1e3, 1e3) for p in order])
        nm.set_states(y)
        after = values_of(m)
        for p in before:
            ctx.eq(after[p], y[order.index(p)] if p in order else before[p], '%s after writing the states' % p, tol=0)
        got = nm.get_states()
        for i, p in enumerate(order):
            ctx.eq(got[i], y[i], 'state %s read back' % p, tol=0)
        cur = dict(init)
        for i, p in enumerate(order):
            cur[p] = y[i]
        eqs = [(path[t], fn) for t, C in items for _, fn in equations_of(C)]
        check_evals(ctx, m, cur, eqs, asg, sm, rounds=rounds)
        got = nm.get_states()
        vals = values_of(m)
        for i, p in enumerate(order):
            ctx.eq(got[i], vals[p], 'an evaluation leaves state %s as it is' % p)
    return f


def perms():
    P = list(itertools.permutations('xyzpc'))
    r = random.Random(5)
    r.shuffle(P)
    return P


SCENARIOS = []
_P = perms()
for _i, _p in enumerate(_P):
    SCENARIOS.append(Scn('order_' + ''.join(_p), run([('i', order_cls(K3 if _i % 3 else K3b, _p))], rounds=1), tier='quick' if _i < 20 else 'thorough', witness=_i % 10 == 0,
                         bounds='1 item, declaration order %s' % ''.join(_p)))
for _i in range(60):
    _r = random.Random(100 + _i)
    _its = [('n%d' % j, order_cls(_r.choice([K3, K3, K2, K3b]), _r.choice(_P))) for j in range(_r.choice([2, 3, 3]))]
    if sum(issubclass(c, K3b) for _, c in _its) > 2:
        _its = [(t, order_cls(K3, c.ORDER)) for t, c in _its]
    _tg = [t for t, _ in _its]
    _sums = []
    for t in _tg:
        for v in ('x_dot', 'y_dot', 'z_dot'):
            if _r.random() < .25:
                _sums.append(('%s.%s' % (t, v), '%s.%s' % (_r.choice(_tg), _r.choice('pcxyz'))))
    SCENARIOS.append(Scn('items%d' % _i, run(_its, sums=_sums if _i % 2 else ()), tier='quick' if _i < 24 else 'thorough', witness=_i % 5 == 0,
                         bounds='2-3 items with random declaration orders, sums onto derivatives, 2 evaluations'))
for _i in range(30):
    _r = random.Random(400 + _i)
    C = order_cls(_r.choice([K3, K2]), _r.choice(_P))
    _k = _r.choice([2, 3])
    _its = [('b%d' % j, C) for j in range(_k)]
    _its.insert(_r.choice([0, _k]), ('o', order_cls(K3, _r.choice(_P))))
    _mem = ['b%d' % j for j in range(_k)]
    _r.shuffle(_mem)
    _sums = [('b0.x_dot', 'o.p'), ('o.y_dot', 'b1.c')] if _i % 3 == 2 else []
    SCENARIOS.append(Scn('set%d' % _i, run(_its, sets={'q': _mem}, sums=_sums), tier='quick' if _i < 10 else 'thorough', witness=_i % 5 == 0,
                         bounds='a set of 2-3 items and an item, random declaration order, 2 evaluations'))
# derivatives declared apart from their states
SEP = [('x:', 'y', 'x.', 'z', 'p', 'c'), ('x:', 'y:', 'y.', 'x.', 'z', 'p', 'c'), ('p', 'x.', 'y', 'c', 'x:', 'z'),
       ('z:', 'y:', 'x:', 'x.', 'y.', 'z.', 'p', 'c'), ('x:', 'x.', 'y:', 'y.', 'z:', 'z.', 'p', 'c'), ('y.', 'z.', 'x.', 'p', 'c', 'x:', 'z:', 'y:')]
for _i, _o in enumerate(SEP):
    SCENARIOS.append(Scn('separate%d' % _i, run([('i', order_cls(K3, _o))]), bounds='derivatives declared apart from their states: %s' % (_o,)))
    SCENARIOS.append(Scn('separate%d_2' % _i, run([('i', order_cls(K3, _o)), ('j', order_cls(K3, _P[_i]))], sums=[('i.x_dot', 'j.x')]), tier='thorough',
                         bounds='the same with another item and a sum'))
