"""C15: within one evaluation every equation reads the values other equations produce in that evaluation, whatever the order
of declaration and registration; every equation runs exactly once"""
import itertools
import random

from numerous.multiphysics import Equation, EquationBase
from numerous.engine.system import Item

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['the orders of declaration, wiring and registration and the dependency graphs are enumerated within the stated bounds; '
               'all values are symbolic, so equality of the derivatives decides which values every equation has read',
               'systems whose equations depend on each other in a cycle are outside; an equation that reads a variable it assigns '
               'itself reads the value of the evaluation before and is not such a cycle']


class L(Node):
    """plain link"""
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.o1 = scope.in1 * 2 + scope.x
        scope.o2 = scope.in2 - scope.o1
        scope.x_dot = scope.o2


class L2(Node):
    """two equations; the one that is first by name needs the other"""
    V = {'o2': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'x': ('state', 1.0), 'in1': ('par', 0.0)}

    @Equation()
    def a_eq(self, scope):
        scope.o2 = scope.o1 * 0.5 + scope.in2
        scope.x_dot = scope.o2 - scope.in1

    @Equation()
    def b_eq(self, scope):
        scope.o1 = scope.in1 - 3 * scope.x


class L3(Node):
    """three equations in a chain opposite to their names"""
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0), 'm': ('par', 0.0)}

    @Equation()
    def a_eq(self, scope):
        scope.x_dot = scope.o2 + scope.m

    @Equation()
    def b_eq(self, scope):
        scope.o2 = scope.m + scope.o1

    @Equation()
    def c_eq(self, scope):
        scope.o1 = scope.m - scope.in2

    @Equation()
    def d_eq(self, scope):
        scope.m = scope.in1 + scope.x


class Acc(Node):
    """counts its own evaluations"""
    V = {'x': ('state', 1.0), 'in1': ('par', 0.0), 'in2': ('par', 0.0), 'n': ('par', 0.0), 'o1': ('par', 0.0), 'o2': ('par', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.n = scope.n + 1
        scope.o1 = scope.in1 * 2 + scope.x + scope.n
        scope.o2 = scope.in2 - scope.o1
        scope.x_dot = scope.o2


class Acc2(Node):
    """counts the evaluations of each of two equations"""
    V = {'n2': ('par', 0.0), 'o2': ('par', 0.0), 'in2': ('par', 0.0), 'o1': ('par', 0.0), 'x': ('state', 1.0), 'in1': ('par', 0.0), 'n1': ('par', 0.0)}

    @Equation()
    def a_eq(self, scope):
        scope.n2 += scope.in1
        scope.o2 = scope.o1 * 0.5 + scope.in2
        scope.x_dot = scope.o2 - scope.in1

    @Equation()
    def b_eq(self, scope):
        scope.n1 += 2
        scope.o1 = scope.in1 - 3 * scope.x + scope.n1


DAGS = {
    'chain': {'a': [], 'b': [('in1', 'assign', ['a.o1'])], 'c': [('in1', 'assign', ['b.o1']), ('in2', 'assign', ['b.o2'])], 'd': [('in1', 'assign', ['c.o1'])]},
    'diamond': {'a': [], 'b': [('in1', 'assign', ['a.o1'])], 'c': [('in2', 'assign', ['a.o2'])], 'd': [('in1', 'sum', ['b.o1', 'c.o2'])]},
    'fan': {'a': [], 'b': [('in1', 'assign', ['a.o1'])], 'c': [('in1', 'assign', ['a.o1'])], 'd': [('in1', 'assign', ['a.o1']), ('in2', 'assign', ['c.o2'])]},
    'join': {'a': [], 'b': [], 'c': [], 'd': [('in1', 'sum', ['a.o1', 'b.o2', 'c.o1']), ('in2', 'sum', ['a.o2', 'c.o2'])]},
    'pass': {'a': [], 'b': [('in1', 'assign', ['a.o1'])], 'c': [('in1', 'assign', ['b.in1']), ('in2', 'sum', ['b.in1', 'b.o1'])], 'd': [('in1', 'assign', ['c.in2'])]},
    'deriv': {'a': [], 'b': [('in1', 'assign', ['a.x_dot'])], 'c': [('in1', 'sum', ['b.x_dot', 'a.x_dot'])], 'd': [('x_dot', 'sum', ['c.o1', 'b.x_dot'])]},
}


def orders(spec, rs):
    """every registration order within one path split; declaration order by wiring seed"""
    def f(ctx):
        tags = sorted(spec)
        P = list(itertools.permutations(tags))
        i = ctx.choice('registration', list(range(len(P))))
        r = random.Random(rs * 1000 + i)
        decl = tags[:]
        r.shuffle(decl)
        build_spec(ctx, {t: spec[t] for t in decl}, order=list(P[i]), rounds=2)
    return f


# ------------------------------------------------------------------ a symbolic dependency graph
def anydag(classes, n, sums):
    """every dependency graph of n items: which items feed which one is a symbolic choice, and so is the hidden order"""
    def f(ctx):
        tags = ['n%d' % i for i in range(n)]
        P = list(itertools.permutations(range(n)))
        perm = P[ctx.choice('order', list(range(len(P))))]
        rank = [tags[i] for i in perm]       # rank[i] may depend on rank[j], j < i
        spec = {}
        for t in tags:
            i = rank.index(t)
            maps = []
            src = [rank[j] for j in range(i) if ctx.bool('edge_%d_%d' % (j, i))]
            if src:
                maps.append(('in1', 'sum' if len(src) > 1 or sums else 'assign', [s + '.o1' for s in src]))
                maps.append(('in2', 'assign', [src[-1] + '.o2']))
            spec[t] = (classes[tags.index(t) % len(classes)], maps)
        build_spec(ctx, spec, rounds=1)
    return f


# ------------------------------------------------------------------ one namespace, many equations
VARS = ['v0', 'v1', 'v2', 'v3', 'v4']


def many_eq(seed, n=4):
    """a class with n equations whose dependencies form a random graph; the names (and so the order in which they are found)
    are unrelated to it"""
    import importlib.util
    import linecache
    import os
    import sys
    r = random.Random(600 + seed)
    rank = list(range(n))
    names = ['e%d' % i for i in range(n)]
    r.shuffle(names)
    V = {'x': ('state', 1.0), 'y': ('state', 2.0), 'k': ('par', 1.0)}
    vs = ['v%d' % i for i in range(n)]
    items = list(V.items()) + [(v, ('par', 0.0)) for v in vs]
    r.shuffle(items)
    body = []
    for i in range(n):
        dep = [vs[j] for j in range(i) if r.random() < .6] or ['k']
        expr = ' + '.join('%s * scope.%s' % (r.choice(['2', '0.5', '-1', '3']), d) for d in dep) + ' - scope.%s' % r.choice('xyk')
        ls = ['scope.%s = %s' % (vs[i], expr)]
        if i == n - 1:
            ls += ['scope.x_dot = scope.%s' % vs[r.randrange(n)], 'scope.y_dot = scope.%s - scope.%s' % (vs[n - 1], vs[0])]
        body.append((names[i], ls))
    r.shuffle(body)
    src = 'from numerous.multiphysics import Equation\nfrom vlib.scn import Node\n\n\nclass ME(Node):\n    V = %r\n' % (dict(items),)
    for nm, ls in body:
        src += '\n    @Equation()\n    def %s(self, scope):\n' % nm + ''.join('        %s\n' % l for l in ls)
    name = 'me_%d_%d' % (seed, n)
    p = os.path.join(os.getcwd(), name + '.py')
    open(p, 'w').write(src)
    linecache.checkcache(p)
    sp = importlib.util.spec_from_file_location(name, p)
    mod = importlib.util.module_from_spec(sp)
    sys.modules[name] = mod
    sp.loader.exec_module(mod)
    return mod.ME


def many(seed, n=4, two=False):
    def f(ctx):
        C = many_eq(seed, n)
        if not two:
            build_spec(ctx, {'a': (C, [])}, rounds=2)
        else:
            spec = {'a': (C, []), 'b': (C, [('k', 'assign', ['a.v%d' % (seed % n)])]), 'c': (L2, [('in1', 'sum', ['a.v0', 'b.v%d' % (n - 1)])])}
            r = random.Random(seed)
            t = list(spec)
            r.shuffle(t)
            build_spec(ctx, spec, order=t, rounds=2, sets={'q': (['b', 'a'], ())} if seed % 3 == 5 else None)
    return f


# ------------------------------------------------------------------ several namespaces of one item
class NsA(EquationBase):
    def __init__(self, ns, iv, tag='nsa'):
        super().__init__(tag)
        self.ns = ns

    def setup(self, iv):
        self.add_state('x', iv['x'])
        self.add_parameter('i', iv['i'])
        self.add_parameter('o', 0.0)
        return self

    @Equation()
    def eqa(self, scope):
        scope.o = scope.i * 2 - scope.x
        scope.x_dot = scope.o


class NsB(NsA):
    @Equation()
    def eqa(self, scope):
        scope.o = scope.i + 3 * scope.x
        scope.x_dot = scope.i


class Multi(Item):
    """namespaces p, q, r in the given order of creation; wires: [(target ns, source ns)] of o -> i"""
    def __init__(self, tag, order, wires, iv):
        super().__init__(tag)
        for n in order:
            ns = self.create_namespace(n)
            ns.add_equations([(NsB if n == 'q' else NsA)(n, None, 'nse_' + n).setup(iv[n])])
        for a, b in wires:
            setattr(getattr(self, a), 'i', getattr(self, b).o)


def namespaces(order, wires):
    def f(ctx):
        iv = {n: {'x': ctx.real('x_' + n, -100, 100), 'i': ctx.real('i_' + n, -100, 100)} for n in order}
        it = Multi('it', order, wires, iv)
        m = compile_model(Sys('s', [it]))
        init, asg, eqs = {}, {}, []
        for n in order:
            p = 's.it.%s.' % n
            init.update({p + 'x': iv[n]['x'], p + 'i': iv[n]['i'], p + 'o': 0.0, p + 'x_dot': 0.0})
            eqs.append(('s.it.' + n, equations_of(NsB if n == 'q' else NsA)[0][1]))
        for a, b in wires:
            asg['s.it.%s.i' % a] = 's.it.%s.o' % b
        check_evals(ctx, m, init, eqs, asg, rounds=2)
    return f


class P1(EquationBase):
    def __init__(self, tag, iv):
        super().__init__(tag)
        self.add_state('x', iv)
        self.add_parameter('o', 0.0)

    @Equation()
    def eq(self, scope):
        scope.o = scope.x * 2
        scope.x_dot = scope.o - 1


class P2(EquationBase):
    def __init__(self, tag, iv):
        super().__init__(tag)
        self.add_parameter('w', 0.0)
        self.add_parameter('k', iv)
        self.add_state('y', 1.0)

    @Equation()
    def eq(self, scope):
        scope.w = scope.o + scope.k
        scope.y_dot = scope.w - scope.x


def equations_in_one(tags, order, sets=False):
    """two equation objects with variables and equations of their own in one namespace, also when they have the same tag"""
    def f(ctx):
        its, init, eqs = [], {}, []
        for n in ('i', 'j'):
            a, b = ctx.real('x_' + n, -100, 100), ctx.real('k_' + n, -100, 100)
            it = Item(n)
            ns = it.create_namespace('t1')
            es = [P1(tags[0], a), P2(tags[1], b)]
            ns.add_equations([es[k] for k in order])
            its.append(it)
            p = 's.%s%s.t1.' % ('SET_q.' if sets else '', n)
            init.update({p + 'x': a, p + 'o': 0.0, p + 'x_dot': 0.0, p + 'w': 0.0, p + 'k': b, p + 'y': 1.0, p + 'y_dot': 0.0})
            eqs += [(p[:-1], equations_of(P1)[0][1]), (p[:-1], equations_of(P2)[0][1])]
        if not sets:
            its[1].t1.k = its[0].t1.w
        s = Sys('s', [])
        if sets:
            s.register_items(its, tag='q', structure=ItemsStructure.SET)
        else:
            s.register_items(its)
        m = compile_model(s)
        check_evals(ctx, m, init, eqs, {} if sets else {'s.j.t1.k': 's.i.t1.w'}, rounds=2)
    return f


# ------------------------------------------------------------------ the sort itself
def toposort(n):
    """the topological sort of the graph of the equations, for every graph of n nodes and every order in which the edges were added"""
    def f(ctx):
        import numpy as np
        from numerous.engine.model.graph_representation.lower_graph import _Graph
        P = list(itertools.permutations(range(n)))
        perm = P[ctx.choice('order', list(range(len(P))))]
        edges = [(perm[j], perm[i]) for i in range(n) for j in range(i) if ctx.bool('edge_%d_%d' % (j, i))]
        if not edges:
            edges = [(perm[0], perm[-1])]
        if ctx.bool('reversed'):
            edges = edges[::-1]
        g = _Graph(n, np.array(edges, np.int64), np.zeros(n, np.int64))
        g.topological_sort()
        s = [int(x) for x in g.topological_sorted_nodes]
        ctx.check(sorted(s) == list(range(n)), 'every node exactly once: %s' % s)
        for a, b in edges:
            ctx.check(s.index(a) < s.index(b), 'node %d before node %d in %s' % (a, b, s))
        ctx.check(g.cyclic_dependency < 0, 'no cycle is reported')
    return f


SCENARIOS = []
_CLS = {'L': (L,), 'L2': (L2,), 'L3': (L3,), 'mix': (L2, L, L3), 'Acc': (Acc,), 'Acc2': (Acc2, Acc)}
for _k, _d in DAGS.items():
    for _c, _cl in _CLS.items():
        _spec = {t: (_cl[i % len(_cl)], m) for i, (t, m) in enumerate(_d.items())}
        SCENARIOS.append(Scn('order_%s_%s' % (_k, _c), orders(_spec, 1), tier='quick' if (_c in ('mix', 'Acc2') or _k == 'chain') else 'thorough', witness=_c == 'mix',
                             bounds='4 items, all 24 registration orders, a declaration order each, 2 evaluations'))
for _c, _cl in _CLS.items():
    SCENARIOS.append(Scn('anydag3_' + _c, anydag(_cl, 3, False), bounds='every acyclic dependency graph of 3 items in every order', witness=_c in ('mix', 'Acc2')))
    SCENARIOS.append(Scn('anydag3s_' + _c, anydag(_cl, 3, True), tier='thorough', bounds='every acyclic dependency graph of 3 items in every order, by sums', witness=_c == 'mix'))
SCENARIOS.append(Scn('anydag4_mix', anydag((L2, L, L3, L), 4, False), tier='thorough', timeout=200, bounds='every acyclic dependency graph of 4 items in every order'))
SCENARIOS.append(Scn('anydag4_acc', anydag((Acc2, Acc, L), 4, False), tier='thorough', timeout=200, bounds='every acyclic dependency graph of 4 items in every order'))
for _g in range(60):
    SCENARIOS.append(Scn('many%d' % _g, many(_g, 4 + _g % 3), tier='quick' if _g < 16 else 'thorough', witness=_g % 8 == 0,
                         bounds='a namespace with %d equations with random dependencies, names and declaration order' % (4 + _g % 3)))
    SCENARIOS.append(Scn('manyitems%d' % _g, many(_g, 3 + _g % 3, True), tier='quick' if _g < 12 else 'thorough', witness=_g % 8 == 0,
                         bounds='three items, two of them with %d equations with random dependencies' % (3 + _g % 3)))
for _o in itertools.permutations('pqr'):
    SCENARIOS.append(Scn('ns_' + ''.join(_o), namespaces(_o, [('p', 'q'), ('q', 'r')]), bounds='three namespaces of one item in a chain', witness=_o[0] == 'p'))
for _t in (('e1', 'e2'), ('e', 'e')):
    for _o in ((0, 1), (1, 0)):
        SCENARIOS.append(Scn('objects_%s_%d' % (''.join(_t), _o[0]), equations_in_one(_t, _o), bounds='two equation objects in one namespace'))
        SCENARIOS.append(Scn('objectsset_%s_%d' % (''.join(_t), _o[0]), equations_in_one(_t, _o, True), bounds='two equation objects in one namespace of the items of a set'))
SCENARIOS.append(Scn('ns_fan', namespaces('pqr', [('p', 'r'), ('q', 'r')]), bounds='three namespaces of one item'))
SCENARIOS.append(Scn('sort4', toposort(4), bounds='every acyclic graph of 4 nodes, edges added in two orders'))
SCENARIOS.append(Scn('sort5', toposort(5), tier='thorough', timeout=200, max_paths=300000, bounds='every acyclic graph of 5 nodes, edges added in two orders'))
for _g in range(120):
    from . import c03, c04
    SCENARIOS.append(Scn('wide%d' % _g, c03.gen(1000 + _g), tier='thorough', witness=_g % 10 == 0,
                         bounds='generated structure of 3-5 items with chains and sums (as in C03), other seeds'))
    SCENARIOS.append(Scn('sets%d' % _g, c04.gen(1000 + _g), tier='thorough', witness=_g % 10 == 0,
                         bounds='generated structure with sets (as in C04), other seeds'))


def longchain(n, seed, kind):
    def f(ctx):
        r = random.Random(seed)
        tags = ['c%d' % i for i in range(n)]
        spec = {}
        for i, t in enumerate(tags):
            maps = []
            if i:
                if kind == 'chain':
                    maps = [('in1', 'assign', [tags[i - 1] + '.o1']), ('in2', 'assign', [r.choice(tags[:i]) + '.o2'])]
                elif kind == 'tree':
                    maps = [('in1', 'assign', [tags[(i - 1) // 2] + '.o1'])]
                elif i == n - 1:
                    maps = [('in1', 'sum', [s + '.o1' for s in tags[:i]])]
            spec[t] = ((L, L2)[i % 2], maps)
        o, d = tags[:], tags[:]
        r.shuffle(o)
        r.shuffle(d)
        build_spec(ctx, {t: spec[t] for t in d}, order=o, rounds=1)
    return f


for _kind in ('chain', 'tree', 'star'):
    for _n, _s in ((8, 1), (12, 2), (20, 3), (40, 4)):
        SCENARIOS.append(Scn('long_%s_%d' % (_kind, _n), longchain(_n, _s, _kind), tier='quick' if _n <= 12 or (_kind == 'star' and _n == 20) else 'thorough',
                             witness=_n == 12, bounds='%d items, %s, shuffled orders' % (_n, _kind)))
