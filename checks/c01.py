"""C01: an equation computes what its Python source says"""
import numpy as np
from numerous.multiphysics import Equation
from numerous.multiphysics.equation_decorators import NumerousFunction
from numerous.engine.system import Item
from numerous.multiphysics import EquationBase

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['the reference is the undecorated Python function of the equation, executed on the same symbolic values']


@NumerousFunction()
def helper(a, b):
    return a * b - a


@NumerousFunction()
def helper3(a, b=2.0, c=1.0):
    return a - b * 3 + c


@NumerousFunction()
def helper2(a, b):
    if a > b:
        return a - b, a
    return b - a, b


S2 = {'x': ('state', 1.0), 'y': ('state', 2.0), 'k': ('par', 3.0), 'p': ('par', 0.0), 'q': ('par', 0.0), 'c': ('const', 0.5)}


class Arith(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.k * scope.x - scope.y / scope.c + 2 * scope.x ** 2
        scope.y_dot = -(scope.x - scope.y) * (scope.k + 1) - 3
        scope.p = scope.x - (scope.y - (scope.k - scope.c))
        scope.q = (scope.x + scope.y) ** 3 / 4


class Order(Node):
    """locals re-assigned, values read before and after re-assignment"""
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x
        b = a + scope.y
        a = b * 2
        b = a - scope.k
        c = a
        a = 7.0
        scope.x_dot = a + b
        scope.y_dot = c - a
        scope.p = b
        d = scope.p + 1
        scope.p = d * scope.c
        scope.q = scope.p + d


class Aug(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x
        a += scope.k
        a *= scope.y
        a -= 1
        a /= 2
        scope.p = a
        scope.p += scope.c
        scope.p -= scope.k
        scope.x_dot = a
        scope.y_dot = scope.p


class Ifs(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x
        b = scope.y
        if scope.x > scope.k:
            a = scope.y * 2
            b = a + scope.c
        if b >= a:
            a = a + 1
        scope.p = a
        if scope.y < 0:
            scope.p = b
        scope.q = a - b
        scope.x_dot = a
        scope.y_dot = b


class IfElse(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        if scope.x > scope.k:
            a = scope.y
            scope.p = 1.0
        else:
            a = scope.k
            scope.p = scope.x
        if scope.y > 1:
            scope.q = 1.0
        elif scope.y > 0:
            scope.q = 2.0
        else:
            scope.q = scope.c
        scope.x_dot = a
        scope.y_dot = scope.q


class Nested(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = 0.0
        if scope.x > 0:
            a = scope.x
            if scope.y > scope.x:
                a = scope.y
            b = a + 1
            scope.p = b
        scope.x_dot = a
        scope.y_dot = scope.p
        scope.q = a


class IfExp(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x if scope.x > scope.y else scope.y
        b = (scope.k if a <= scope.c else a) if scope.x != scope.k else -1.0
        scope.x_dot = a * 2
        scope.y_dot = 1.0 if b == scope.y else b - a
        scope.p = a if a < b < scope.k else b
        scope.q = -a


class Bools(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x if scope.x > scope.y and scope.k > 0 else scope.y
        if scope.x > 1 or scope.y > 1:
            a = scope.k
        scope.x_dot = a
        scope.y_dot = scope.c if not scope.x > 0 else a
        scope.p = a
        scope.q = 0.0


class BoolExp(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x if scope.x > scope.y and scope.k > 0 else scope.y
        scope.x_dot = a
        scope.y_dot = scope.c if scope.k < 0 or scope.x < 0 else a
        scope.p = a
        scope.q = 0.0


class BoolIf(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = 0.0
        if scope.x > 1 and scope.y > 1:
            a = scope.k
        scope.x_dot = a
        scope.y_dot = 0.0
        scope.p = a
        scope.q = 0.0


class Calls(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = np.sin(scope.x * scope.k) - np.exp(-scope.y)
        scope.y_dot = helper(scope.x, scope.y) + helper(scope.y, scope.x)
        scope.p = np.abs(scope.x - scope.k)
        scope.q = np.sqrt(scope.c) * np.cos(scope.k)


class Tup(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a, b = scope.x - scope.y, scope.k
        scope.p, scope.q = helper2(a, b)
        scope.x_dot, scope.y_dot = b, a


class Subs(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        l = [scope.x, scope.y, scope.k]
        scope.x_dot = l[1] - l[0]
        scope.y_dot = l[2]
        scope.p = l[0]
        scope.q = 1.0


class Time(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.global_vars.t * scope.x
        scope.y_dot = scope.global_vars.t - scope.k
        scope.p = scope.global_vars.t
        scope.q = scope.y


class TwoEq(Node):
    V = S2

    @Equation()
    def eq1(self, scope):
        scope.x_dot = scope.x - scope.k
        scope.p = scope.y * scope.c

    @Equation()
    def eq2(self, scope):
        scope.y_dot = scope.y - scope.x * scope.k
        scope.q = scope.x - scope.c


class Chain(Node):
    """values flow from one equation to the next; the order of definition is not the order of dependence"""
    V = S2

    @Equation()
    def a_last(self, scope):
        scope.x_dot = scope.q - scope.x

    @Equation()
    def b_mid(self, scope):
        scope.q = scope.p * scope.p + scope.y

    @Equation()
    def c_first(self, scope):
        scope.p = scope.k - scope.c

    @Equation()
    def d_other(self, scope):
        scope.y_dot = scope.p + scope.q


class Pow(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.x ** scope.k
        scope.y_dot = 2.0 ** scope.y
        scope.p = -scope.x ** 2
        scope.q = (-scope.x) ** 2 - scope.y ** -1


class Cst(Node):
    """constants of every kind, same literal several times"""
    V = S2

    @Equation()
    def eq(self, scope):
        a = 1
        b = 1.0
        c = 1 + a
        scope.x_dot = c * 1 - 1 * b - 1
        scope.y_dot = 1e-3 * scope.x + .5
        scope.p = 0.5
        scope.q = 1


class Swap(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a, b = scope.x, scope.k
        a, b = b, a
        scope.p, scope.q = scope.q, scope.p
        scope.x_dot, scope.y_dot = a - scope.p, b


class Multi(Node):
    """chained targets"""
    V = S2

    @Equation()
    def eq(self, scope):
        a = b = scope.x + 1
        scope.p = scope.q = a * 2
        a += 1
        scope.x_dot = a
        scope.y_dot = b


class Kw(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.p = helper3(scope.x, scope.y)
        scope.q = helper3(scope.x, b=scope.k)
        scope.x_dot = helper3(b=scope.x, a=scope.y)
        scope.y_dot = helper3(scope.x, scope.k, c=scope.y)


class TmpNames(Node):
    """local variables named like the temporaries of the translator"""
    V = S2

    @Equation()
    def eq(self, scope):
        tmp1 = scope.x * 2
        tmp2 = tmp1 - scope.y
        tmp3 = tmp2 / 4 + scope.k
        tmp4 = tmp3 - tmp1
        tmp5 = tmp4 * tmp2
        tmp6 = tmp5 + scope.c
        tmp7 = tmp6 - 1
        tmp8 = tmp7 + tmp3
        tmp9 = tmp8 - scope.x
        tmp10 = tmp9 + tmp1
        scope.x_dot = tmp10
        scope.y_dot = tmp8 - tmp6
        scope.p = tmp7
        scope.q = tmp2


class BoolVar(Node):
    """the condition is not only comparisons"""
    V = S2

    @Equation()
    def eq(self, scope):
        a = 0.0
        if scope.k and scope.x > 1:
            a = scope.y
        if scope.c:
            a = a + 1
        if not scope.q > 0 or scope.x > scope.y:
            a = a - 2
        scope.x_dot = a
        scope.y_dot = -a
        scope.p = a


class IfRead(Node):
    """variables that are written and then only read inside a condition or a branch, and conditional writes"""
    V = S2

    @Equation()
    def eq(self, scope):
        scope.p = scope.x - scope.k
        a = 1.0
        if scope.p > 0:
            a = scope.p
        if scope.y > 0:
            scope.q = scope.p + a
        scope.x_dot = a
        scope.y_dot = scope.x
        if a > 2:
            scope.y_dot = scope.q


class MinMax(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.p = max(scope.x, scope.y)
        scope.q = min(scope.x, scope.k, 2.0)
        scope.x_dot = abs(scope.x) - max(scope.p, scope.q)
        scope.y_dot = (scope.x > scope.y) * 2.0


class Loop(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x
        for i in range(3):
            a = a + scope.y
        scope.x_dot = a
        scope.y_dot = 1.0


class Loop2(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        a = scope.x
        n = 0
        while n < 3:
            a = a + scope.y
            n += 1
        scope.x_dot = a
        scope.y_dot = 1.0


class Ann(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.p: float = scope.x + 1
        scope.x_dot = scope.p
        scope.y_dot = 1.0


class Ret(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = 1.0
        scope.y_dot = scope.x
        if scope.x > 1:
            return
        scope.x_dot = scope.y


class OtherOps(Node):
    V = S2

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.x % 3.0
        scope.y_dot = scope.y // 2.0


REFUSABLE = (Loop, Loop2, Ann, Ret, OtherOps)   # a construct that is not supported may be refused at build, never mistranslated

NAMES = ['x', 'y', 'k', 'p', 'q', 'c']


def one(cls, llvm=False, n=1, rounds=2, t=0.75, refuse=False, gen=None):
    """n items of the class, all initial values symbolic, evaluated `rounds` times at fresh states"""
    def f(ctx):
        C = cls
        if gen is not None:
            from checks import gen_eq
            C, src = gen_eq.make(gen[0], n=gen[1], depth=gen[2])
        items, init = [], {}
        for j in range(n):
            vals = {v: ctx.real('%s_%d' % (v, j), -1e3, 1e3) for v in NAMES}
            items.append(C('i%d' % j, init=vals))
            for v in NAMES:
                init['s.i%d.t1.%s' % (j, v)] = vals[v]
            for v in ('x', 'y'):
                init['s.i%d.t1.%s_dot' % (j, v)] = 0.0
        s = Sys('s', items)
        if refuse:
            try:
                m = compile_model(s, llvm=llvm)
            except Exception:
                ctx.check(True, 'refused')
                return
        else:
            m = compile_model(s, llvm=llvm)
        check_evals(ctx, m, init, [('s.i%d.t1' % j, fn) for j in range(n) for _, fn in equations_of(C)], rounds=rounds, t=t)
    return f


CL = [Arith, Order, Aug, Ifs, IfElse, Nested, IfExp, Bools, BoolExp, BoolIf, BoolVar, Calls, Tup, Subs, Time, TwoEq, Chain, Pow, Cst,
      Swap, Multi, Kw, TmpNames, IfRead, MinMax, Loop, Loop2, Ann, Ret, OtherOps]
SCENARIOS = []
for c in CL:
    SCENARIOS.append(Scn(c.__name__, one(c, refuse=c in REFUSABLE), bounds='1 item, 2 evaluations, every initial value and state any real in [-1000,1000]'))
for c in CL:
    SCENARIOS.append(Scn(c.__name__ + '_x2', one(c, n=2, rounds=1, refuse=c in REFUSABLE), bounds='2 items of the class, 1 evaluation',
                         tier='quick' if c in (Order, Nested, TwoEq, Chain, Calls, Time) else 'thorough'))
for g in range(400):
    SCENARIOS.append(Scn('gen%d' % g, one(None, gen=(g, 2 + g % 3, 1 + g % 2), rounds=1), tier='quick' if g < 60 else 'thorough', witness=g % 10 == 0,
                         bounds='enumerated equation program %d (checks/gen_eq.py), 1 item, 1 evaluation' % g))
