"""C03: mapped variables carry exactly the value of their source, or the sum of their sources, in every evaluation"""
import random

import numpy as np
from numerous.multiphysics import Equation

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['structures (who is mapped to whom, order of registration, nesting) are enumerated; values are symbolic']


class M(Node):
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.in1 * 2 + scope.x
        scope.o2 = scope.in2 - scope.g * scope.x
        scope.x_dot = scope.in1 - scope.in2


class M2(Node):
    """different class, equations split, output order differs"""
    V = {'in2': ('par', 0.0), 'o2': ('par', 0.0), 'x': ('state', 1.0), 'o1': ('par', 0.0), 'in1': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq_b(self, scope):
        scope.o2 = scope.o1 + scope.in2

    @Equation()
    def eq_a(self, scope):
        scope.o1 = scope.x if scope.in1 > scope.x else scope.in1

    @Equation()
    def eq_d(self, scope):
        scope.x_dot = scope.o2 * 0.5 - scope.in1


class P(Node):
    """no equations: passes values on"""
    V = {'x': ('par', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0), 'g': ('const', 2.0)}


class S(Node):
    """accumulates into a variable that it also assigns"""
    V = {'x': ('state', 1.0), 'p': ('par', 0.0), 'q': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.p = scope.x * 3
        scope.q = scope.p
        scope.x_dot = scope.q - scope.x


class S2(Node):
    """assigns a summed variable twice, once conditionally"""
    V = {'x': ('state', 1.0), 'p': ('par', 0.0), 'q': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.p = scope.x
        scope.p = scope.x - 4
        if scope.x > 1:
            scope.p = 2 * scope.x
        scope.x_dot = -scope.x


class R(Node):
    V = {'x': ('state', 1.0), 'k': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.k * 2 - scope.x


def scn(spec, **kw):
    return lambda ctx: build_spec(ctx, spec, **kw)


FIX = {
    'assign_state': {'a': (M, []), 'b': (M, [('in1', 'assign', ['a.x']), ('in2', 'assign', ['a.o1'])])},
    'assign_reverse': {'b': (M, [('in1', 'assign', ['a.o2']), ('in2', 'assign', ['a.o1'])]), 'a': (M, [])},
    'chain3': {'a': (M, []), 'p': (P, [('in1', 'assign', ['a.o1']), ('in2', 'assign', ['a.x'])]),
               'q': (P, [('in1', 'assign', ['p.in1']), ('in2', 'assign', ['p.in2'])]),
               'b': (M, [('in1', 'assign', ['q.in1']), ('in2', 'assign', ['q.in2'])])},
    'chain3_rev': {'b': (M, [('in1', 'assign', ['q.in1']), ('in2', 'assign', ['q.in2'])]),
                   'q': (P, [('in1', 'assign', ['p.in1']), ('in2', 'assign', ['p.in2'])]),
                   'p': (P, [('in1', 'assign', ['a.o1']), ('in2', 'assign', ['a.x'])]), 'a': (M, [])},
    'fanout': {'a': (M2, []), 'b': (M, [('in1', 'assign', ['a.o2']), ('in2', 'assign', ['a.o2'])]),
               'c': (M2, [('in1', 'assign', ['a.o2']), ('in2', 'assign', ['a.g'])])},
    'sum2': {'a': (M, []), 'b': (M2, []), 'c': (M, [('in1', 'sum', ['a.o1', 'b.o2']), ('in2', 'sum', ['a.x', 'b.x'])])},
    'sum3_states': {'a': (M, []), 'b': (M2, []), 'c': (M, [('in1', 'sum', ['a.x', 'b.x', 'c.x']), ('in2', 'sum', ['c.g', 'a.g'])])},
    'sum1': {'a': (M, []), 'c': (M, [('in1', 'sum', ['a.o2']), ('in2', 'assign', ['a.o2'])])},
    'sum_dup': {'a': (M, []), 'c': (M, [('in1', 'sum', ['a.o2', 'a.o2']), ('in2', 'sum', ['a.x', 'a.o1', 'a.x'])])},
    'sum_of_mapped': {'a': (M, []), 'p': (P, [('in1', 'assign', ['a.o1']), ('in2', 'sum', ['a.x', 'a.o2'])]),
                      'c': (M, [('in1', 'sum', ['p.in1', 'p.in2', 'a.x']), ('in2', 'assign', ['p.in2'])])},
    'sum_own_eq': {'a': (M, []), 's': (S, [('p', 'sum', ['a.o1', 'a.x'])]), 'c': (R, [('k', 'assign', ['s.p'])])},
    'sum_own_eq_first': {'c': (R, [('k', 'assign', ['s.p'])]), 's': (S, [('p', 'sum', ['a.o1'])]), 'a': (M2, [])},
    'sum_own_reassigned': {'a': (M, []), 's': (S2, [('p', 'sum', ['a.o1'])]), 'c': (R, [('k', 'assign', ['s.p'])])},
    'deriv_sum': {'a': (M, []), 'b': (R, [('x_dot', 'sum', ['a.o1', 'a.x'])])},
    'pass_only': {'a': (P, []), 'b': (P, [('in1', 'assign', ['a.o1']), ('in2', 'assign', ['a.o1'])]), 'c': (P, [('in1', 'assign', ['b.in1']), ('in2', 'sum', ['a.x', 'b.in2'])])},
    'self': {'a': (M, [('in1', 'assign', ['a.x']), ('in2', 'sum', ['a.g', 'a.x'])])},
    'deep_chain': dict([('a', (M, []))] + [('p%d' % i, (P, [('in1', 'assign', ['a.o1' if i == 0 else 'p%d.in1' % (i - 1)])])) for i in range(5)]
                       + [('b', (R, [('k', 'assign', ['p4.in1'])]))]),
    'eq_chain': dict([('m%d' % i, (M if i % 2 else M2, [('in1', 'assign', ['m%d.o2' % (i - 1)]), ('in2', 'sum', ['m%d.o1' % (i - 1), 'm%d.x' % i])] if i else []))
                      for i in (3, 1, 0, 2)]),
}


def limit(spec, n=1):
    """at most n items with conditionals (every conditional doubles the paths of each evaluation)"""
    out, k = {}, 0
    for t, (c, maps) in spec.items():
        if c is M2:
            k += 1
            if k > n:
                c = M
        out[t] = (c, maps)
    return out


def gen_spec(seed):
    r = random.Random(7000 + seed)
    n = r.choice([3, 3, 4, 5])
    tags = ['n%d' % i for i in range(n)]
    cls = [r.choice([M, M, M2, P]) for _ in tags]
    if all(c is P for c in cls):
        cls[0] = M
    spec = {}
    chained = set()
    for i, t in enumerate(tags):
        maps = []
        for port in ('in1', 'in2'):
            k = r.random()
            src = []
            for j in range(n):
                src += ['n%d.x' % j, 'n%d.g' % j]
            for j in range(i):
                src += ['n%d.o1' % j, 'n%d.o2' % j] * 2 + ['n%d.in1' % j, 'n%d.in2' % j]
            if k < .2:
                continue
            if k < .6:
                maps.append((port, 'assign', [r.choice(src)]))
            else:
                maps.append((port, 'sum', [r.choice(src) for _ in range(r.choice([1, 2, 2, 3]))]))
        spec[t] = (cls[i], maps)
    order = tags[:]
    r.shuffle(order)
    decl = tags[:]
    r.shuffle(decl)
    groups = {}
    for t in tags:
        k = r.random()
        if k < .25:
            groups[t] = ('u',)
        elif k < .4:
            groups[t] = ('u', 'w')
        elif k < .5:
            groups[t] = ('v',)
    spec = {t: spec[t] for t in decl}
    return spec, dict(order=order, groups=groups)


def gen(seed):
    spec, kw = gen_spec(seed)
    return scn(spec, rounds=2, **kw)


SCENARIOS = [Scn('fix_' + k, scn(v), bounds='fixed structure, 2 evaluations') for k, v in FIX.items()]
SCENARIOS.append(Scn('fix_nested', scn(FIX['sum_of_mapped'], groups={'a': ('u', 'w'), 'p': ('u',), 'c': ('v',)}), bounds='three levels'))
SCENARIOS.append(Scn('fix_nested4', scn(FIX['chain3'], groups={'a': ('u', 'w', 'z'), 'p': ('u', 'w'), 'c': ('v',)}), bounds='four levels'))
for _g in range(500):
    SCENARIOS.append(Scn('gen%d' % _g, gen(_g), tier='quick' if _g < 70 else 'thorough', witness=_g % 10 == 0,
                         bounds='generated structure %d: 3-5 items, mappings/sums/chains, shuffled declaration and registration order, up to 3 levels' % _g))
