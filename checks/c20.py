"""C20: connectors exchange values with exactly the items bound to their sides"""
import random

from vlib.runner import Scn
from vlib.scn import *
from numerous.engine.system import ConnectorTwoWay, ConnectorItem, Connector
from numerous.engine.system.connector_item import ConnectorOneWay, ConnectorMultiWay

ASSUMPTIONS = ['networks are enumerated (generated); the values of all variables are arbitrary, for two evaluations of each model',
               'a connector has one namespace (t1), or two in the scenarios ns*']


class Mass(Node):
    V = dict(x=('state', 1.0), q=('par', 0.0), w=('par', 0.0), u=('const', 2.0))

    @Equation()
    def ev(self, scope):
        scope.x_dot = scope.q * scope.u - scope.x + scope.w


class Tank(Node):
    """other order of the variables, and a computed one"""
    V = dict(u=('par', 2.0), w=('par', 0.0), y=('par', 0.0), x=('state', 1.0), q=('par', 0.0))

    @Equation()
    def ev(self, scope):
        scope.y = scope.x - scope.w
        scope.x_dot = scope.q - scope.u * scope.y


class Ground(Node):
    V = dict(x=('par', 20.0), q=('par', 0.0), w=('par', 0.0), u=('par', 0.0))


class Eq2(EquationBase):
    V = dict(h=('const', 3.0), in1=('par', 1.0), in2=('par', 2.0), tot=('par', 4.0), f=('par', 0.0), g=('par', 0.0))

    def __init__(self, init):
        super().__init__(tag='flow')
        declare(self, self.V, init)

    @Equation()
    def flow(self, scope):
        scope.f = (scope.in1 - scope.in2) * scope.h + scope.tot
        scope.g = -scope.f


class Eq3(EquationBase):
    """a connector with a state"""
    V = dict(h=('par', 3.0), in2=('par', 2.0), in1=('par', 1.0), f=('par', 0.0), g=('par', 0.0), tot=('par', 1.0), z=('state', 0.0))

    def __init__(self, init):
        super().__init__(tag='flow3')
        declare(self, self.V, init)

    @Equation()
    def flow(self, scope):
        scope.f = scope.in1 * scope.h - scope.z
        scope.g = scope.in2 + scope.tot
        scope.z_dot = scope.in1 - scope.z


EQ = {'e2': Eq2, 'e3': Eq3}


def add_to(ns, tag, src):
    v = getattr(ns, tag)
    v += src
    setattr(ns, tag, v)


def setup(c, eq, init, wires, ns_tag='t1'):
    """wires: [(kind, own variable, side, variable of the side)]; kinds: read, sumread, write, sumwrite"""
    ns = c.create_namespace(ns_tag)
    ns.add_equations([EQ[eq](init)])
    for side in c.sides:
        sns = getattr(getattr(c, side), ns_tag)
        for v in sorted({w[3] for w in wires if w[2] == side}):
            sns.create_variable(name=v)
    wire(c, wires, ns_tag)


def wire(c, wires, ns_tag='t1'):
    ns = getattr(c, ns_tag)
    for kind, own, side, v in wires:
        sns = getattr(getattr(c, side), ns_tag)
        if kind == 'read':
            setattr(ns, own, getattr(sns, v))
        elif kind == 'sumread':
            add_to(ns, own, getattr(sns, v))
        elif kind == 'write':
            setattr(sns, v, getattr(ns, own))
        else:
            add_to(sns, v, getattr(ns, own))


class Two(ConnectorTwoWay):
    def __init__(self, tag, sides, *a, **k):
        super().__init__(tag, side1_name=sides[0], side2_name=sides[1])
        self.sides = sides
        setup(self, *a, **k)


class One(ConnectorOneWay):
    def __init__(self, tag, sides, *a, **k):
        super().__init__(tag, side1_name=sides[0])
        self.sides = sides
        setup(self, *a, **k)


class Multi(ConnectorMultiWay):
    def __init__(self, tag, sides, *a, **k):
        super().__init__(tag, list(sides))
        self.sides = sides
        setup(self, *a, **k)


class Own(ConnectorItem):
    def __init__(self, tag, sides, *a, **k):
        super().__init__(tag)
        self.sides = sides
        for s in sides:
            self.create_binding(s)
        setup(self, *a, **k)


class Sub(Subsystem):
    def __init__(self, tag, sides, *a, **k):
        super().__init__(tag)
        self.sides = sides
        for s in sides:
            self.create_binding(s)
        setup(self, *a, **k)


CON = {'two': Two, 'one': One, 'multi': Multi, 'own': Own, 'sub': Sub}


class Net:
    """items: {tag: class}; cons: {tag: (class, eq, sides, wires, {side: item tag}, wires after the bind)};
    groups: {tag: (subsystem, ...)}; sets: {name: [tags]} (at the top); when: {connector: 'early' | 'late'};
    one_by_one: sides are bound in separate calls"""

    def __init__(self, items, cons, order=None, groups=None, sets=None, when=None, how=None):
        self.__dict__.update(locals())
        self.order = order or list(items) + list(cons)
        self.groups, self.sets, self.when, self.how = groups or {}, sets or {}, when or {}, how or {}

    def build(self, ctx):
        init, obj, path = {}, {}, {}
        inset = {t: n for n, ts in self.sets.items() for t in ts}
        for t in list(self.items) + list(self.cons):
            V = self.items[t].V if t in self.items else EQ[self.cons[t][1]].V
            iv = {v: ctx.real('%s_%s' % (t, v), -100, 100) for v in V}
            pre = '.'.join(('s',) + ((('SET_' + inset[t]),) if t in inset else tuple(self.groups.get(t, ()))) + (t,)) + '.t1'
            path[t] = pre
            for v, (kind, _) in V.items():
                init[pre + '.' + v] = iv[v]
                if kind == 'state':
                    init[pre + '.' + v + '_dot'] = 0.0
            if t in self.items:
                obj[t] = self.items[t](t, init=iv)
            else:
                cl, eq, sides, wires, bind, after = self.cons[t]
                obj[t] = CON[cl](t, sides, eq, iv, wires)
        self.obj = obj
        self.bind(lambda t: self.when.get(t, 'early') == 'early')
        subs = {}

        def mk(prefix):
            sub = Sys(prefix[-1] if prefix else 's', [])
            seen = set()
            for t in self.order:
                g = tuple(self.groups.get(t, ()))
                if t in inset:
                    if not prefix and inset[t] not in seen:
                        seen.add(inset[t])
                        sub.register_items([obj[x] for x in self.sets[inset[t]]], tag=inset[t], structure=ItemsStructure.SET)
                elif g == prefix:
                    sub.register_items([obj[t]])
                elif g[:len(prefix)] == prefix and g[len(prefix)] not in seen:
                    seen.add(g[len(prefix)])
                    sub.register_items([mk(g[:len(prefix) + 1])])
            return sub
        root = mk(())
        self.bind(lambda t: self.when.get(t, 'early') == 'late')
        m = compile_model(root)
        assign, sums = {}, {}
        for t, (cl, eq, sides, wires, bind, after) in self.cons.items():
            for kind, own, side, v in list(wires) + list(after):
                o, p = path[t] + '.' + own, path[bind[side]] + '.' + v
                if kind == 'read':
                    assign[o] = p
                elif kind == 'sumread':
                    sums.setdefault(o, []).append(p)
                elif kind == 'write':
                    assign[p] = o
                else:
                    sums.setdefault(p, []).append(o)
        eqs = []
        for t in list(self.items) + list(self.cons):
            for _, fn in equations_of(self.items[t] if t in self.items else EQ[self.cons[t][1]]):
                eqs.append((path[t], fn))
        return m, init, eqs, assign, sums

    def bind(self, sel):
        for t, (cl, eq, sides, wires, bind, after) in self.cons.items():
            if not sel(t):
                continue
            c = self.obj[t]
            how = self.how.get(t, 'call')
            if how == 'call':
                c.bind(**{s: self.obj[x] for s, x in bind.items()})
            elif how == 'each':
                for s in reversed(list(bind)):
                    c.bind(**{s: self.obj[bind[s]]})
            else:
                for s, x in bind.items():
                    setattr(c, s, self.obj[x])
            wire(c, after)


def run(net):
    def f(ctx):
        m, init, eqs, assign, sums = net.build(ctx)
        check_evals(ctx, m, init, eqs, assign, sums, rounds=2)
    return f


R1, R2 = ('read', 'in1', 'side1', 'x'), ('read', 'in2', 'side2', 'x')
W1, W2 = ('sumwrite', 'f', 'side1', 'q'), ('sumwrite', 'g', 'side2', 'q')
BASIC = [R1, R2, W1, W2]
S12 = ('side1', 'side2')


def gen(seed, nitems, ncons, sets=False, assign=False):
    r = random.Random(20000 + seed)
    items, cons = {}, {}
    cls = r.choice([Mass, Tank])
    for i in range(nitems):
        items['m%d' % i] = cls if sets else r.choice([Mass, Mass, Tank, Ground])
    written = set()
    ck = (r.choice(['two', 'multi', 'own']), r.choice(['e2', 'e3']))
    for k in range(ncons):
        t = 'c%d' % k
        cl, eq = ck if sets else (r.choice(['two', 'two', 'one', 'multi', 'own', 'sub']), r.choice(['e2', 'e3']))
        n = dict(one=1, two=2).get(cl) or (2 if sets else r.choice([1, 2, 3]))
        sides = tuple(r.sample(['side1', 'side2', 'side3', 'left', 'output'], n)) if not sets else ('side1', 'side2')
        targets = list(items) + ([x for x in cons] if r.random() < .3 and not sets else [])
        bind = {s: r.choice(targets if s != sides[0] else list(items)) for s in sides}
        wires, after = [], []

        def rv(s):
            return r.choice(['x', 'u'] if bind[s] in items else ['h', 'f'])
        for own in ('in1', 'in2'):
            if r.random() < .8:
                s = r.choice(sides)
                wires.append(('read', own, s, rv(s)))
        if r.random() < .5:
            for _ in range(r.choice([1, 2, 3])):
                s = r.choice(sides)
                wires.append(('sumread', 'tot', s, rv(s)))
        for own in ('f', 'g'):
            for s in sides:
                if bind[s] in items and r.random() < .6:
                    w = ('sumwrite', own, s, 'q')
                    (after if r.random() < .2 and not sets else wires).append(w)
        for s in sides:
            if bind[s] in items and (bind[s], 'w') not in written and r.random() < .3:
                written.add((bind[s], 'w'))
                wires.append(('write', r.choice(['f', 'g', 'h']), s, 'w'))
        cons[t] = (cl, eq, sides, wires, bind, after)
    if sets and r.random() < .6:
        # the same wiring for every connector of the set
        w = [x for x in cons['c0'][3] if x[0] != 'write']
        cons = {t: (a, b, c, w, e, g) for t, (a, b, c, d, e, g) in cons.items()}
    order = list(items) + list(cons)
    r.shuffle(order)
    groups = {}
    if not sets and r.random() < .6:
        groups = {t: r.choice([(), ('g1',), ('g1', 'g2'), ('g3',)]) for t in order}
    st = {}
    if sets:
        k = seed % 3
        if k != 1:
            st['items'] = list(items)
        if k != 0:
            st['cons'] = list(cons)
    return Net(items, cons, order, groups, st, {t: r.choice(['early', 'late']) for t in cons} if not sets else {},
               {t: r.choice(['call', 'each']) for t in cons})


def acyclic(net):
    """no algebraic loop through the equations of the connectors (f and g of a connector depend on what it reads)"""
    import networkx as nx
    g = nx.DiGraph()
    for t, (cl, eq, sides, wires, bind, after) in net.cons.items():
        for kind, own, side, v in list(wires) + list(after):
            b = bind[side]
            if kind in ('read', 'sumread') and v in ('f', 'g'):
                g.add_edge(b, t)
    return nx.is_directed_acyclic_graph(g)


BADS = {}


def bad(f):
    BADS[f.__name__] = f
    return f


def pair(ctx):
    iv = {v: ctx.real('i_' + v, -10, 10) for v in Mass.V}
    a, b = Mass('a', init=iv), Mass('b')
    c = Two('c', S12, 'e2', {v: ctx.real('c_' + v, -10, 10) for v in Eq2.V}, BASIC)
    return a, b, c


def compile_of(*items):
    return compile_model(Sys('s', items))


@bad
def unknown_binding(ctx):
    a, b, c = pair(ctx)
    c.bind(side1=a, side3=b)


@bad
def unknown_binding_only(ctx):
    a, b, c = pair(ctx)
    c.bind(left=a)


@bad
def bound_twice(ctx):
    a, b, c = pair(ctx)
    c.bind(side1=a, side2=b)
    c.bind(side1=a)


@bad
def bound_to_another(ctx):
    a, b, c = pair(ctx)
    c.bind(side1=a)
    c.bind(side1=b)


@bad
def binding_name_twice(ctx):
    a, b, c = pair(ctx)
    c.create_binding('side1')


@bad
def missing_namespace(ctx):
    a, b, c = pair(ctx)

    class Other(Mass):
        ns_tag = 't2'
    compile_of(a, Other('o'), c) if c.bind(side1=a, side2=Other('o2')) else compile_of(a, c)


def _missing(var):
    class Less(Node):
        V = {k: v for k, v in Mass.V.items() if k != var}
    return Less('less')


@bad
def missing_read_variable(ctx):
    a, b, c = pair(ctx)
    l = _missing('x')
    c.bind(side1=a, side2=l)
    compile_of(a, l, c)


@bad
def missing_written_variable(ctx):
    a, b, c = pair(ctx)
    l = _missing('q')
    c.bind(side1=l, side2=a)
    compile_of(a, l, c)


@bad
def unbound(ctx):
    a, b, c = pair(ctx)
    compile_of(a, b, c)


@bad
def unbound_side(ctx):
    a, b, c = pair(ctx)
    c.bind(side1=a)
    compile_of(a, b, c)


@bad
def bound_to_unregistered(ctx):
    a, b, c = pair(ctx)
    c.bind(side1=a, side2=b)
    compile_of(a, c)


def refused(name):
    def f(ctx):
        try:
            BADS[name](ctx)
            ok = False
        except (ValueError, KeyError, TypeError, AttributeError) as x:
            ok = True
        ctx.check(ok, 'the connection is refused (%s)' % name)
    return f


class MassEq(EquationBase):
    V = Mass.V

    def __init__(self, tag, init):
        super().__init__(tag=tag)
        declare(self, self.V, init)

    @Equation()
    def ev2(self, scope):
        scope.x_dot = scope.q * scope.u - scope.x + scope.w


def namespaces(seed):
    """items and connectors with two namespaces; a side of one namespace is read into another"""
    def f(ctx):
        r = random.Random(seed)
        init, eqs, assign, sums, objs = {}, [], {}, {}, {}

        def vals(t, ns, V):
            iv = {v: ctx.real('%s_%s_%s' % (t, ns, v), -100, 100) for v in V}
            for v, (kind, _) in V.items():
                init['s.%s.%s.%s' % (t, ns, v)] = iv[v]
                if kind == 'state':
                    init['s.%s.%s.%s_dot' % (t, ns, v)] = 0.0
            return iv
        for t in 'abc':
            it = objs[t] = Item(t)
            for ns in r.sample(['t1', 't2'], 2):
                it.create_namespace(ns).add_equations([MassEq('m' + ns, vals(t, ns, Mass.V))])
                eqs += [('s.%s.%s' % (t, ns), fn) for _, fn in equations_of(MassEq)]
        for k in range(2):
            t = 'k%d' % k
            c = objs[t] = ConnectorTwoWay(t)
            nss = {}
            for ns in r.sample(['t1', 't2'], 2):
                E = r.choice([Eq2, Eq3])
                nss[ns] = c.create_namespace(ns)
                nss[ns].add_equations([E(vals(t, ns, E.V))])
                eqs += [('s.%s.%s' % (t, ns), fn) for _, fn in equations_of(E)]
            bind = {s: r.choice('abc') for s in ('side1', 'side2')}
            ws = []
            for ns in ('t1', 't2'):
                for own in ('in1', 'in2', 'tot'):
                    s, n2, v = r.choice(['side1', 'side2']), r.choice(['t1', 't2']), r.choice('xu')
                    ws.append(('sumread' if own == 'tot' else 'read', ns, own, s, n2, v))
                for own in 'fg':
                    s, n2 = r.choice(['side1', 'side2']), r.choice(['t1', 't2'])
                    ws.append(('sumwrite', ns, own, s, n2, 'q'))
            r.shuffle(ws)
            for s, n2, v in sorted({w[3:] for w in ws}):
                getattr(getattr(c, s), n2).create_variable(name=v)
            for kind, ns, own, s, n2, v in ws:
                sns = getattr(getattr(c, s), n2)
                if kind == 'read':
                    setattr(nss[ns], own, getattr(sns, v))
                elif kind == 'sumread':
                    add_to(nss[ns], own, getattr(sns, v))
                else:
                    add_to(sns, v, getattr(nss[ns], own))
                o, p = 's.%s.%s.%s' % (t, ns, own), 's.%s.%s.%s' % (bind[s], n2, v)
                if kind == 'read':
                    assign[o] = p
                elif kind == 'sumread':
                    sums.setdefault(o, []).append(p)
                else:
                    sums.setdefault(p, []).append(o)
            c.bind(**{s: objs[x] for s, x in bind.items()})
        ts = list(objs)
        r.shuffle(ts)
        m = compile_model(Sys('s', [objs[t] for t in ts]))
        check_evals(ctx, m, init, eqs, assign, sums, rounds=2)
    return f


def ports(ctx):
    """a side bound to an item of a subsystem through a port"""
    iv = {t: {v: ctx.real('%s_%s' % (t, v), -100, 100) for v in dict(a=Mass, b=Tank, k=Eq2)[t].V} for t in 'abk'}
    a, b = Mass('a', init=iv['a']), Tank('b', init=iv['b'])
    sub = Sys('sub', [b])
    sub.add_port('out', b)
    c = Two('k', S12, 'e2', iv['k'], BASIC)
    c.bind(side1=a, side2=sub.ports['out'])
    m = compile_model(Sys('s', [c, sub, a]))
    P = dict(a='s.a.t1.', b='s.sub.b.t1.', k='s.k.t1.')
    init = {P[t] + v: x for t in iv for v, x in iv[t].items()}
    init.update({P[t] + 'x_dot': 0.0 for t in 'ab'})
    eqs = [(P[t][:-1], fn) for t, C in (('a', Mass), ('b', Tank), ('k', Eq2)) for _, fn in equations_of(C)]
    check_evals(ctx, m, init, eqs, {P['k'] + 'in1': P['a'] + 'x', P['k'] + 'in2': P['b'] + 'x'}, {P['a'] + 'q': [P['k'] + 'f'], P['b'] + 'q': [P['k'] + 'g']})


SCENARIOS = []


def S(name, net, bounds, **k):
    SCENARIOS.append(Scn(name, run(net), bounds=bounds, **k))


M2 = dict(a=Mass, b=Mass)
M4 = dict(a=Mass, b=Tank, c=Mass, d=Ground)
S('pair', Net(M2, dict(k=('two', 'e2', S12, BASIC, dict(side1='a', side2='b'), []))), '2 items, 1 connector', witness=True)
S('pair_late', Net(M2, dict(k=('two', 'e2', S12, BASIC, dict(side1='a', side2='b'), [])), when=dict(k='late')), '2 items, 1 connector', witness=True)
S('same_item', Net(M2, dict(k=('two', 'e3', S12, BASIC, dict(side1='a', side2='a'), []))), 'both sides at one item', witness=True)
S('parallel', Net(M2, {'k%d' % i: ('two', 'e2', S12, BASIC, dict(side1='ab'[i % 2], side2='ba'[i % 2]), []) for i in range(4)}), '2 items, 4 connectors', witness=True)
S('ring', Net(M4, {'k%d' % i: ('two', 'e3' if i % 2 else 'e2', S12, BASIC, dict(side1='abcd'[i], side2='abcd'[(i + 1) % 4]), []) for i in range(4)}), '4 items, 4 connectors in a ring', witness=True)
S('star', Net(M4, dict(k=('multi', 'e2', ('p', 'q', 'r', 't'), [('sumread', 'tot', s, 'x') for s in 'pqrt'] + [('read', 'in1', 'q', 'u')] + [('sumwrite', 'f' if s in 'pq' else 'g', s, 'q') for s in 'pqrt'],
                             dict(p='a', q='b', r='c', t='d'), []))), 'one connector with 4 sides', witness=True)
S('setattr', Net(M2, dict(k=('two', 'e2', S12, BASIC, dict(side1='a', side2='b'), [])), how=dict(k='attr')), 'sides set as attributes', witness=True)
S('sets_both', Net(dict(a=Mass, b=Mass, c=Mass), {'k%d' % i: ('two', 'e2', S12, BASIC, dict(side1='abc'[i], side2='abc'[i + 1]), []) for i in range(2)}, sets=dict(m=['a', 'b', 'c'], k=['k0', 'k1'])),
  'set of items, set of connectors', witness=True)
for _w in ('early', 'late'):
    for _st in (dict(m=['a', 'b', 'c']), dict(k=['k0', 'k1']), dict(m=['c', 'a', 'b'], k=['k1', 'k0'])):
        S('sets_%s_%s' % (_w, '_'.join(_st)), Net(dict(a=Tank, b=Tank, c=Tank), {'k%d' % i: ('two', 'e3', S12, BASIC, dict(side1='abc'[i], side2='abc'[i + 1]), []) for i in range(2)}, sets=_st,
                                              when=dict(k0=_w, k1=_w)), 'sets, bound %s' % _w, witness=True)
for _b in BADS:
    SCENARIOS.append(Scn('refused_' + _b, refused(_b), bounds='one wrong connection'))
SCENARIOS.append(Scn('port', ports, witness=True, bounds='one connector, one port'))
for _g in range(40):
    SCENARIOS.append(Scn('ns%d' % _g, namespaces(_g), tier='quick' if _g < 10 else 'thorough', witness=_g % 5 == 0, bounds='3 items and 2 connectors with two namespaces each'))
_n = 0
for _g in range(400):
    _net = gen(_g, 2 + _g % 4, 1 + _g % 5, sets=_g % 4 == 3)
    if acyclic(_net):
        _n += 1
        S('gen%d' % _g, _net, '%d items, %d connectors' % (2 + _g % 4, 1 + _g % 5), tier='quick' if _n <= 150 else 'thorough', witness=_n % 8 == 0)
