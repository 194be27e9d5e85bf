"""C17: every variable has a unique qualified name that follows the item hierarchy"""
import itertools
import random

from numerous.multiphysics import Equation, EquationBase
from numerous.engine.system import Item, ConnectorTwoWay

from vlib.runner import Scn
from vlib.scn import *

ASSUMPTIONS = ['hierarchies and orders of registration are enumerated within the stated bounds; every variable has its own symbolic initial value, so a name that '
               'leads to another variable shows a different symbol', 'tags without dots; an item is registered in one place']


class I1(Node):
    V = {'x': ('state', 1.0), 'k': ('par', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.k - scope.x


class I2(Node):
    """two namespaces that use the same tags"""
    V = {'x': ('par', 1.0), 'k': ('const', 2.0)}

    def __init__(self, tag, init=None):
        super().__init__(tag, init)
        n2 = self.create_namespace('t2')
        e = Eq2('e2')
        e.add_parameter('x', (init or {}).get('x2', 3.0))
        e.add_state('y', (init or {}).get('y2', 3.0))
        n2.add_equations([e])


class Eq2(EquationBase):
    def __init__(self, tag):
        super().__init__(tag)

    @Equation()
    def eq(self, scope):
        scope.y_dot = scope.x


VARS = {'I1': {'t1': {'x': 'x', 'k': 'k', 'x_dot': None}}, 'I2': {'t1': {'x': 'x', 'k': 'k'}, 't2': {'x': 'x2', 'y': 'y2', 'y_dot': None}},
        'N': {'t1': {'x': 'x', 'k': 'k', 'x_dot': None}}, 'S': {}, 'E': {}}


class N(SubNode):
    """a subsystem with variables of its own"""
    V = {'x': ('state', 1.0), 'k': ('par', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.k * 2


KIND = {'I1': I1, 'I2': I2, 'N': N}


def build(ctx, tree, edges):
    """tree: {name: (kind, tag, parent)}; edges: order in which the children are registered in their parents; sets: kind 'E'
    (its members are registered with it)"""
    obj, prefix, iv = {}, {}, {}

    def path(n):
        kind, tag, parent = tree[n]
        t = 'SET_' + tag if kind == 'E' else tag
        return (path(parent) + '.' if parent else '') + t
    for n, (kind, tag, parent) in tree.items():
        if kind == 'E':
            continue
        iv[n] = {}
        for ns, vs in VARS[kind].items():
            for v, key in vs.items():
                if key:
                    iv[n][key] = ctx.real('%s_%s' % (n, key), -100, 100)
        if kind == 'S':
            obj[n] = Sys(tag, [])
        elif kind == 'N':
            obj[n] = N(tag, init=iv[n])
        else:
            obj[n] = KIND[kind](tag, init=iv[n])
    for n in edges:
        kind, tag, parent = tree[n]
        if kind == 'E':
            obj[parent].register_items([obj[c] for c in tree if tree[c][2] == n], tag=tag, structure=ItemsStructure.SET)
        elif tree[parent][0] != 'E':
            obj[parent].register_items([obj[n]])
    want = {}
    for n, (kind, tag, parent) in tree.items():
        for ns, vs in VARS[kind].items():
            for v, key in vs.items():
                want['%s.%s.%s' % (path(n), ns, v)] = iv[n][key] if key else 0.0
    return obj, want, path


def verify(ctx, m, want, root):
    got = values_of(m)
    ctx.check(sorted(got) == sorted(want), 'the names of the model: missing %s, unexpected %s' % (sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for p, v in want.items():
        ctx.eq(got[p], v, 'the variable named %s' % p)
    ids = [m.aliases[p] for p in want]
    ctx.check(len(set(ids)) == len(ids), 'different names are different variables')
    ctx.check(len(set(m.vars_ordered_values[i] for i in ids)) == len(ids), 'different variables are stored in different places')
    ptv = m.path_to_variable
    for p, v in want.items():
        ctx.check(p in ptv, 'variable by name %s' % p)
        ctx.eq(ptv[p].value, v, 'value of the variable by name %s' % p)
        ctx.check(ptv[p].get_path_dot() == p, 'path of variable %s is %s' % (p, ptv[p].get_path_dot()))
    ctx.check(sorted(m.logged_aliases) == sorted(want), 'names that are recorded: %s' % sorted(m.logged_aliases))


def tree_scn(tree, perm='all', write=True):
    """perm: 'all' every order of registration; 'up'/'down' children first / parents first"""
    def f(ctx):
        es = [n for n in tree if tree[n][2] and tree[tree[n][2]][0] != 'E']

        def depth(n):
            return 0 if not tree[n][2] else 1 + depth(tree[n][2])
        if perm == 'all':
            P = list(itertools.permutations(es))
            es = list(P[ctx.choice('order', list(range(len(P))))])
        elif perm == 'down':
            es.sort(key=depth)
        elif perm == 'up':
            es.sort(key=lambda n: -depth(n))
        else:
            random.Random(perm).shuffle(es)
        obj, want, path = build(ctx, tree, es)
        root = obj[[n for n in tree if not tree[n][2]][0]]
        m = compile_model(root)
        verify(ctx, m, want, root)
        for n, (kind, tag, parent) in tree.items():
            if kind != 'E':
                ctx.check('.'.join(obj[n].path) == path(n), 'path of item %s is %s' % (path(n), '.'.join(obj[n].path)))
        if write:
            # a value written under a name is read under this name and under no other
            names = sorted(want)
            k = ctx.choice('name', [0, len(names) // 2, len(names) - 1])
            v = ctx.real('written', -100, 100)
            m.path_to_variable[names[k]].value = v
            got = values_of(m)
            for p in want:
                ctx.eq(got[p], v if p == names[k] else want[p], 'value of %s after writing %s' % (p, names[k]))
    return f


T = {
    'flat': {'r': ('S', 's', None), 'a': ('I1', 'a', 'r'), 'b': ('I2', 'b', 'r'), 'c': ('I1', 'c', 'r')},
    'two': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'a': ('I1', 'a', 'u'), 'b': ('I2', 'b', 'u'), 'c': ('I1', 'a', 'r')},
    'three': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'w': ('S', 'w', 'u'), 'a': ('I1', 'a', 'w'), 'b': ('I1', 'a', 'u')},
    'four': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'w': ('S', 'w', 'u'), 'v': ('S', 'v', 'w'), 'a': ('I1', 'a', 'v')},
    'five': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'w': ('S', 'w', 'u'), 'v': ('S', 'v', 'w'), 'y': ('S', 'y', 'v'), 'a': ('I2', 'a', 'y')},
    'sametag': {'r': ('S', 's', None), 'u': ('S', 's', 'r'), 'w': ('S', 's', 'u'), 'a': ('I1', 's', 'w'), 'b': ('I1', 't1', 'u')},
    'own': {'r': ('N', 's', None), 'u': ('N', 'u', 'r'), 'w': ('N', 'w', 'u'), 'a': ('I1', 'a', 'w')},
    'own4': {'r': ('S', 's', None), 'u': ('N', 'u', 'r'), 'w': ('N', 'w', 'u'), 'v': ('N', 'v', 'w'), 'a': ('I1', 'a', 'v')},
    'twins': {'r': ('S', 's', None), 'u': ('N', 'u', 'r'), 'v': ('N', 'v', 'r'), 'a': ('I2', 'a', 'u'), 'b': ('I2', 'a', 'v')},
    'set': {'r': ('S', 's', None), 'e': ('E', 'q', 'r'), 'a': ('I1', 'a', 'e'), 'b': ('I1', 'b', 'e'), 'c': ('I1', 'a', 'r')},
    'set2': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'e': ('E', 'q', 'u'), 'a': ('I1', 'a', 'e'), 'b': ('I1', 'b', 'e'), 'f': ('E', 'q', 'r'), 'c': ('I1', 'a', 'f'), 'd': ('I1', 'b', 'f')},
    'set3': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'w': ('S', 'w', 'u'), 'e': ('E', 'q', 'w'), 'a': ('I2', 'a', 'e'), 'b': ('I2', 'b', 'e')},
    'set4': {'r': ('S', 's', None), 'u': ('S', 'u', 'r'), 'w': ('S', 'w', 'u'), 'v': ('N', 'v', 'w'), 'e': ('E', 'q', 'v'), 'a': ('I1', 'a', 'e'), 'b': ('I1', 'b', 'e')},
}


def gen_tree(seed):
    r = random.Random(1700 + seed)
    tree = {'r': (r.choice(['S', 'N']), 'root', None)}
    subs = ['r']
    tags = {'r': set()}
    for i in range(r.choice([4, 5, 6, 7, 8])):
        # deep: prefer the last subsystem
        p = subs[-1] if r.random() < .6 else r.choice(subs)
        tag = r.choice([t for t in ('a', 'b', 'c', 't1', 'x', 'root', 'd%d' % i, 'e%d' % i) if t not in tags[p]])
        tags[p].add(tag)
        n = 'n%d' % i
        k = r.random()
        if k < .5:
            tree[n] = (r.choice(['S', 'N', 'S']), tag, p)
            subs.append(n)
            tags[n] = set()
        elif k < .85:
            tree[n] = (r.choice(['I1', 'I2']), tag, p)
        else:
            tree[n] = ('E', tag, p)
            c = r.choice(['I1', 'I2'])
            for j in range(r.choice([1, 2, 3])):
                tree['%sm%d' % (n, j)] = (c, 'm%d' % j, n)
    # namespaces and items of a subsystem share the name space of attributes: avoid a child named as the namespace of its parent
    for n, (kind, tag, p) in list(tree.items()):
        if p and tree[p][0] == 'N' and tag == 't1':
            tree[n] = (kind, 'tt', p)
    if not any(k in ('I1', 'I2', 'N') for k, _, _ in tree.values()):
        tree['z'] = ('I1', 'z', subs[-1])
    if not any(k in ('I1', 'I2', 'N') for k, _, p in tree.values() if p):
        tree['z'] = ('I1', 'z', subs[-1])
    return tree


class Late(EquationBase, Item):
    """its namespace is created by fill(), before or after the item is registered somewhere"""
    def __init__(self, tag):
        super().__init__(tag)

    def fill(self, v):
        ns = self.create_namespace('t1')
        self.add_state('x', v)
        ns.add_equations([self])

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.x * 2


class Extra(EquationBase):
    def __init__(self, tag, decl):
        super().__init__(tag)
        for kind, name, v in decl:
            getattr(self, 'add_' + kind)(name, v)


def late(ctx):
    """variables that are declared at any point while the hierarchy is put together"""
    v = {n: ctx.real(n, -100, 100) for n in 'abcd'}
    root, u, w = Sys('s', []), Sys('u', []), Sys('w', [])
    it = Late('i')
    steps = [lambda: root.register_items([u]), lambda: u.register_items([w]), lambda: w.register_items([it]), lambda: it.fill(v['a'])]
    P = list(itertools.permutations(range(4)))
    for k in P[ctx.choice('order', list(range(len(P))))]:
        steps[k]()
    # another parameter in the same namespace, and another namespace, when everything is registered
    it.t1.add_equations([Extra('more', [('parameter', 'p', v['b'])])])
    it.create_namespace('t2').add_equations([Extra('more2', [('constant', 'x', v['c'])])])
    root.create_namespace('t1').add_equations([Extra('more3', [('parameter', 'x', v['d'])])])
    m = compile_model(root)
    verify(ctx, m, {'s.u.w.i.t1.x': v['a'], 's.u.w.i.t1.x_dot': 0.0, 's.u.w.i.t1.p': v['b'], 's.u.w.i.t2.x': v['c'], 's.t1.x': v['d']}, root)


def twice(kinds, at):
    """the same tag is declared by two equations of one namespace: constant < parameter < state, else the first one stays"""
    def f(ctx):
        a, b = ctx.real('first', -100, 100), ctx.real('second', -100, 100)
        ctx.assume(a < b if at else a >= b)
        it = Item('i')
        ns = it.create_namespace('t1')
        ns.add_equations([Extra('e1', [(kinds[0], 'v', a), ('parameter', 'q', 1.0)])])
        root = Sys('s', [Sys('u', [it])])
        ns.add_equations([Extra('e2', [(kinds[1], 'v', b)])])
        m = compile_model(root)
        rank = ['constant', 'parameter', 'state']
        want = {'s.u.i.t1.v': b if rank.index(kinds[1]) > rank.index(kinds[0]) else a, 's.u.i.t1.q': 1.0}
        if 'state' in kinds:
            want['s.u.i.t1.v_dot'] = 0.0
        verify(ctx, m, want, root)
        ctx.check((len(m.numba_model.state_idx) == 1) == ('state' in kinds), 'number of states')
    return f


def refused(ctx):
    """a second item or namespace of the same name is refused; nothing of the first is lost"""
    v = [ctx.real('v%d' % i, -100, 100) for i in range(3)]
    root = Sys('s', [])
    a = I1('a', init={'x': v[0], 'k': v[1]})
    root.register_items([a])
    for b in (I1('a', init={'x': v[2], 'k': v[2]}), Sys('a', [])):
        try:
            root.register_items([b])
            ctx.check(False, 'a second item a is refused')
        except ValueError:
            pass
    try:
        a.create_namespace('t1')
        ctx.check(False, 'a second namespace t1 is refused')
    except ValueError:
        pass
    m = compile_model(root)
    verify(ctx, m, {'s.a.t1.x': v[0], 's.a.t1.k': v[1], 's.a.t1.x_dot': 0.0}, root)


SCENARIOS = [Scn('late', late, bounds='three levels, every order of registration and declaration'),
             Scn('refused', refused, bounds='duplicate names')]
for _a, _b in itertools.product(('constant', 'parameter', 'state'), repeat=2):
    for _l in (0, 1):
        SCENARIOS.append(Scn('twice_%s_%s_%d' % (_a, _b, _l), twice((_a, _b), _l), bounds='a tag declared twice', witness=not _l))
for _k, _t in T.items():
    _n = len([n for n in _t if _t[n][2] and _t[_t[n][2]][0] != 'E'])
    SCENARIOS.append(Scn('tree_' + _k, tree_scn(_t), tier='quick' if _n <= 4 else 'thorough', bounds='hierarchy %s, every order of registration' % _k))
    SCENARIOS.append(Scn('up_' + _k, tree_scn(_t, 'up'), bounds='hierarchy %s, children first' % _k))
    SCENARIOS.append(Scn('down_' + _k, tree_scn(_t, 'down'), bounds='hierarchy %s, parents first' % _k))
for _g in range(200):
    for _p in ('up', 'down', 5):
        SCENARIOS.append(Scn('gen%d_%s' % (_g, _p), tree_scn(gen_tree(_g), _p), tier='quick' if _g < 20 else 'thorough', witness=_g % 10 == 0,
                             bounds='generated hierarchy of up to 9 subsystems, items and sets, order of registration %s' % _p))
