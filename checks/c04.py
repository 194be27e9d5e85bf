"""C04: items registered as a set behave like items registered one by one"""
import random

from numerous.multiphysics import Equation

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['structures (set sizes, wirings) are enumerated; values are symbolic',
               'the reference is the semantics of individually registered items']


class A(Node):
    """state first, outputs after"""
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.in1 * 2 + scope.x
        scope.x_dot = scope.g * scope.in2 - scope.o1


class B(Node):
    """uses its variables in an order that is not the declaration order; one variable (u) is unused"""
    V = {'g': ('const', 2.0), 'in2': ('par', 0.0), 'u': ('par', 5.0), 'o1': ('par', 0.0), 'x': ('state', 1.0), 'in1': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        w = scope.in1 if scope.in1 > scope.x else scope.in2
        scope.x_dot = w * scope.g - scope.x
        scope.o1 = w + scope.x


class C2(Node):
    """two equations on the same namespace"""
    V = {'x': ('state', 1.0), 'y': ('state', 3.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq_o(self, scope):
        scope.o1 = scope.in1 + scope.x * scope.y

    @Equation()
    def eq_d(self, scope):
        scope.x_dot = scope.o1 - scope.in2
        scope.y_dot = scope.g * scope.y


class D(Node):
    """no state, if/else"""
    V = {'in1': ('par', 1.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'x': ('par', 1.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        if scope.in1 > scope.in2:
            scope.o1 = scope.in1 - scope.x
        else:
            scope.o1 = scope.in2 * scope.g


class E(Node):
    """uses the global time"""
    V = {'in1': ('par', 1.0), 'x': ('state', 1.0), 'o1': ('par', 0.0), 'g': ('const', 2.0), 'in2': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.in1 + scope.global_vars.t
        scope.x_dot = scope.g * scope.global_vars.t + scope.in2 * scope.x


class O(Node):
    """other items outside the sets"""
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.in1 + scope.in2 * scope.x
        scope.x_dot = scope.o1 - scope.g * scope.x


def mapped(*rows):
    return list(rows)


def scn(spec, **kw):
    return lambda ctx: build_spec(ctx, spec, **kw)


def fixed():
    F = {}
    for cls in (A, B, C2, D, E):
        n = cls.__name__
        for k in (1, 2, 3):
            F['plain_%s_%d' % (n, k)] = scn({'i%d' % j: (cls, []) for j in range(k)}, sets={'q': (['i%d' % j for j in range(k)], ())})
        F['plain_%s_rev' % n] = scn({'i%d' % j: (cls, []) for j in range(3)}, sets={'q': (['i2', 'i0', 'i1'], ())})
        F['nested_%s' % n] = scn({'i%d' % j: (cls, []) for j in range(2)}, sets={'q': (['i0', 'i1'], ('u', 'w'))})
        ab = {'i0': (cls, []), 'i1': (cls, [])}
        F['out_%s' % n] = scn(dict(ab, o=(O, [('in1', 'assign', ['i1.o1']), ('in2', 'assign', ['i0.x'])])), sets={'q': (['i0', 'i1'], ())})
        F['outfirst_%s' % n] = scn(dict(ab, o=(O, [('in1', 'assign', ['i0.o1']), ('in2', 'assign', ['i1.o1'])])), sets={'q': (['i0', 'i1'], ())}, order=['o', 'i0', 'i1'])
        F['outsum_%s' % n] = scn(dict(ab, o=(O, [('in1', 'sum', ['i0.o1', 'i1.o1']), ('in2', 'sum', ['i0.g', 'i1.x'])])), sets={'q': (['i0', 'i1'], ())})
        F['in_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('in1', 'assign', ['o.o1'])]), 'i1': (cls, [('in1', 'assign', ['o.x'])])}, sets={'q': (['i0', 'i1'], ())})
        F['in_part_%s' % n] = scn({'o': (O, []), 'i0': (cls, []), 'i1': (cls, [('in1', 'assign', ['o.o1'])])}, sets={'q': (['i0', 'i1'], ())})
        F['in_sum_%s' % n] = scn({'o': (O, []), 'p': (O, []), 'i0': (cls, [('in1', 'sum', ['o.o1', 'p.o1'])]), 'i1': (cls, [('in1', 'sum', ['o.x'])])}, sets={'q': (['i0', 'i1'], ())})
        F['in_same_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('in1', 'assign', ['o.o1']), ('in2', 'assign', ['o.x'])]), 'i1': (cls, [('in1', 'assign', ['o.o1'])])}, sets={'q': (['i0', 'i1'], ())})
        F['set2set_%s' % n] = scn({'a0': (cls, []), 'a1': (cls, []), 'b0': (A, [('in1', 'assign', ['a0.o1'])]), 'b1': (A, [('in1', 'assign', ['a1.o1'])])},
                                  sets={'q': (['a0', 'a1'], ()), 'r': (['b0', 'b1'], ())})
        F['set2set_cross_%s' % n] = scn({'a0': (cls, []), 'a1': (cls, []), 'b0': (A, [('in1', 'assign', ['a1.o1'])]), 'b1': (A, [('in1', 'assign', ['a0.o1'])])},
                                        sets={'q': (['a0', 'a1'], ()), 'r': (['b0', 'b1'], ())})
        F['set2set_sum_%s' % n] = scn({'a0': (cls, []), 'a1': (cls, []), 'b0': (A, [('in1', 'sum', ['a1.o1', 'a0.o1'])]), 'b1': (A, [('in1', 'sum', ['a0.o1', 'a0.x'])])},
                                      sets={'q': (['a0', 'a1'], ()), 'r': (['b0', 'b1'], ())})
        F['set_and_scalar_%s' % n] = scn({'a0': (cls, []), 'a1': (cls, []), 'o': (O, []), 'b0': (A, [('in1', 'sum', ['a1.o1', 'o.o1'])]), 'b1': (A, [('in1', 'assign', ['o.o1'])])},
                                         sets={'q': (['a0', 'a1'], ()), 'r': (['b0', 'b1'], ())})
        F['within_%s' % n] = scn({'i0': (cls, []), 'i1': (cls, [('in1', 'assign', ['i0.x'])]), 'i2': (cls, [('in1', 'assign', ['i1.x']), ('in2', 'assign', ['i0.g'])])},
                                 sets={'q': (['i0', 'i1', 'i2'], ())})
        F['within_sum_%s' % n] = scn({'i0': (cls, [('in2', 'sum', ['i1.x', 'i2.x'])]), 'i1': (cls, [('in2', 'sum', ['i0.x', 'i2.g'])]), 'i2': (cls, [('in2', 'assign', ['i1.x'])])},
                                     sets={'q': (['i0', 'i1', 'i2'], ())})
        F['chain_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('in1', 'assign', ['o.o1'])]), 'i1': (cls, [('in1', 'assign', ['o.x'])]),
                                 'e': (O, [('in1', 'assign', ['i1.o1']), ('in2', 'sum', ['i0.o1', 'i1.o1', 'o.o1'])])}, sets={'q': (['i0', 'i1'], ())})
        F['chain_var_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('in1', 'assign', ['o.o1'])]), 'i1': (cls, [('in1', 'assign', ['o.x'])]),
                                     'e': (O, [('in1', 'assign', ['i1.in1']), ('in2', 'assign', ['i0.in1'])])}, sets={'q': (['i0', 'i1'], ())})
        F['own_sum_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('o1', 'sum', ['o.x'])]), 'i1': (cls, [('o1', 'sum', ['o.o1', 'o.x'])])}, sets={'q': (['i0', 'i1'], ())})
        F['own_sum2_%s' % n] = scn({'o': (O, []), 'i0': (cls, [('o1', 'sum', ['o.x'])]), 'i1': (cls, []), 'b0': (A, [('o1', 'sum', ['o.o1'])]), 'b1': (A, [('o1', 'sum', ['i0.o1', 'o.x']), ('in1', 'sum', ['o.x', 'i1.o1'])])},
                                   sets={'q': (['i0', 'i1'], ()), 'r': (['b0', 'b1'], ())})
    return F


def gen_spec(seed):
    r = random.Random(9000 + seed)
    spec, sets, groups = {}, {}, {}
    kinds = [A, B, C2, D, E]
    names = []
    conditionals = 0
    for s in range(r.choice([1, 1, 2])):
        k = r.choice([2, 2, 3])
        c = r.choice(kinds)
        if c in (B, D):
            # every conditional item doubles the paths of each evaluation
            if conditionals + k > 3:
                c = C2
            else:
                conditionals += k
        mem = ['%s%d' % ('ab'[s], j) for j in range(k)]
        for t in mem:
            names.append((t, c, s))
        m2 = mem[:]
        r.shuffle(m2)
        sets['qr'[s]] = (m2, r.choice([(), (), ('u',)]))
    for j in range(r.choice([1, 1, 2])):
        names.append(('o%d' % j, O, None))
    # layers keep the wiring acyclic at the granularity at which sets are evaluated
    layer = {}
    groups_ = ['a', 'b'] + ['o0', 'o1']
    r.shuffle(groups_)
    for t, c, s in names:
        layer[t] = groups_.index('ab'[s] if s is not None else t)
    for t, c, s in names:
        maps = []
        for port in ('in1', 'in2'):
            k = r.random()
            src = []
            for t2, c2, s2 in names:
                src += [t2 + '.g'] + ([t2 + '.x'] if c2 is not D else [])
                if layer[t2] < layer[t]:
                    src += [t2 + '.o1'] * 3 + [t2 + '.in1']
            if k < .3:
                continue
            if k < .65:
                maps.append((port, 'assign', [r.choice(src)]))
            else:
                maps.append((port, 'sum', [r.choice(src) for _ in range(r.choice([1, 2, 2, 3]))]))
        spec[t] = (c, maps)
    order = list(spec)
    r.shuffle(order)
    return spec, dict(order=order, sets=sets)


def gen(seed):
    spec, kw = gen_spec(seed)
    return scn(spec, **kw)


SCENARIOS = [Scn(k, f, bounds='fixed structure, sets of 1-3 items, 2 evaluations') for k, f in fixed().items()]
for _g in range(400):
    SCENARIOS.append(Scn('gen%d' % _g, gen(_g), tier='quick' if _g < 60 else 'thorough', witness=_g % 10 == 0,
                         bounds='generated structure %d: 1-2 sets of 2-3 items, 1-2 other items' % _g))
