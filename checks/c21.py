"""C21: the helper derivatives for implicit solvers are those of the model"""
import random

import numpy as np

from vlib.runner import Scn
from vlib.scn import *
from checks import c03

ASSUMPTIONS = ['systems are enumerated (generated); states, time, parameters, step, coefficients and history are arbitrary',
               'arithmetic is exact: the rounding error of the difference quotients is outside',
               'the memory of the model is read as an array that the model changes (the interpreted model)']


class NL(Node):
    """nonlinear, depends on the time, two states"""
    V = {'x': ('state', 1.0), 'z': ('state', 0.5), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.x * scope.z + scope.in1
        scope.o2 = scope.in2 * scope.x - scope.global_vars.t
        scope.z_dot = scope.x * scope.x - scope.z * scope.g
        scope.x_dot = scope.o1 - scope.in2


class Sw(Node):
    """switches between two branches"""
    V = {'z': ('state', 1.0), 'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0), 'g': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.z if scope.z > scope.in1 else 3 * scope.in1
        scope.o2 = scope.x
        scope.z_dot = scope.in1 - scope.in2 + scope.x
        scope.x_dot = scope.o1 - scope.in2


class Memo_:
    """the model according to the reference semantics; remembers the variables between evaluations"""

    def __init__(self, m, init, eqs, assign, sums):
        self.cur, self.a = dict(init), (eqs, assign, sums)
        self.order = state_order(m)

    def __call__(self, t, y):
        c = dict(self.cur)
        c.update(zip(self.order, y))
        o = Oracle(c, *self.a, glob=dict(t=t))
        d = [o.get(p + '_dot') for p in self.order]
        self.cur = {p: o.get(p) for p in c}
        return d


def system(ctx, seed, kind):
    r = random.Random(2100 + seed)
    spec, kw = c03.gen_spec(500 + seed)
    spec = c03.limit(spec, 0)
    n = 0
    for t in list(spec):
        c, maps = spec[t]
        if c is c03.M and r.random() < .6:
            c = NL
        if kind == 'switch' and c in (NL, c03.M) and n < 1:
            c, n = Sw, n + 1
        spec[t] = (c, maps)
    if kind == 'plain' and not any(c is NL for c, _ in spec.values()):
        t = list(spec)[0]
        spec[t] = (NL, spec[t][1])
    m, init, eqs, assign, sums = build_spec(ctx, spec, check=False, **kw)
    return m, Memo_(m, init, eqs, assign, sums)


H = 1e-8


def later(ctx, m, ref, y, t, tag):
    got = m.numba_model.get_states()
    for i, p in enumerate(ref.order):
        ctx.eq(got[i], y[i], '%s: state %s is still that of the call' % (tag, p), tol=0)
    y2 = [ctx.real('later%d' % i, -50, 50) for i in range(len(y))]
    d = m.numba_model.func(t + 1, np.array(y2))
    want = ref(t + 1, y2)
    for i, p in enumerate(ref.order):
        ctx.eq(d[i], want[i], '%s: later derivative of %s' % (tag, p))
    got = values_of(m)
    for p in ref.cur:
        ctx.eq(got[p], ref.cur[p], '%s: later value of %s' % (tag, p))


def jacobian(seed, kind):
    def f(ctx):
        m, ref = system(ctx, seed, kind)
        n = len(ref.order)
        y = [ctx.real('y%d' % i, -50, 50) for i in range(n)]
        t, dt = ctx.real('t', 0, 10), ctx.real('dt', 0, 1)
        J = m.numba_model.vectorized_full_jacobian(t, np.array(y), dt)
        f0 = ref(t, y)
        for j in range(n):
            fj = ref(t, [v + (H if k == j else 0) for k, v in enumerate(y)])
            for i in range(n):
                ctx.eq(J[i][j], (fj[i] - f0[i]) / H, 'change of the derivative of %s with %s' % (ref.order[i], ref.order[j]), tol=1e-2)
        ref(t, y)
        later(ctx, m, ref, y, t, 'after the jacobian')
    return f


def residual(seed, order):
    def f(ctx):
        m, ref = system(ctx, seed, 'plain')
        n = len(ref.order)
        y = [ctx.real('y%d' % i, -50, 50) for i in range(n)]
        old = [[ctx.real('old%d_%d' % (k, i), -50, 50) for i in range(n)] for k in range(order)]
        t, dt = ctx.real('t', 0, 10), ctx.real('dt', 0, 1)
        # coefficients of every order; those of other orders play no part
        a = [[ctx.real('a%d_%d' % (o, i), -4, 4) for i in range(3)] for o in range(3)]
        af = [ctx.real('af%d' % o, -4, 4) for o in range(3)]
        g, d = m.numba_model.get_g(t, np.array(old), np.array(y), dt, order, np.array(a), np.array(af))
        f0 = ref(t, y)
        for i in range(n):
            want = y[i] - af[order - 1] * dt * f0[i]
            for k in range(order):
                want = want + a[order - 1][k] * old[k][i]
            ctx.eq(d[i], f0[i], 'derivative of %s' % ref.order[i])
            ctx.eq(g[i], want, 'residual of %s' % ref.order[i])
        later(ctx, m, ref, y, t, 'after the residual')
    return f


SCENARIOS = []
for _g in range(60):
    SCENARIOS.append(Scn('jac%d' % _g, jacobian(_g, 'plain'), tier='quick' if _g < 25 else 'thorough', witness=_g % 4 == 0, bounds='3-5 items, up to 10 states'))
    SCENARIOS.append(Scn('res%d' % _g, residual(_g, 1 + _g % 3), tier='quick' if _g < 25 else 'thorough', witness=_g % 4 == 0, bounds='3-5 items, up to 10 states, order %d' % (1 + _g % 3)))
for _g in range(16):
    SCENARIOS.append(Scn('switch%d' % _g, jacobian(100 + _g, 'switch'), tier='quick' if _g < 6 else 'thorough', witness=False, bounds='3-5 items, one with two branches'))
