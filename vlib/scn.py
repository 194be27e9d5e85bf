"""building systems through the public API, and the reference semantics they are compared with

The reference ("oracle") is a lazy evaluator that runs the user's own Python equation functions directly on
plain objects: a variable that is mapped to has the value of its source (or the sum of its sources), a variable
assigned by an equation has the value that equation assigns, any other variable keeps its current value.
"""
import numpy as np

from numerous.engine.model import Model
from numerous.engine.simulation import Simulation
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.multiphysics import EquationBase, Equation


def raw(eq):
    """the undecorated function of an @Equation method"""
    return eq.__wrapped__


class Node(EquationBase, Item):
    """an item with namespace `ns` whose variables are declared by V and whose equations are @Equation methods.
    V: {tag: (kind, initial)}  kind in state / par / const"""
    V = {}
    ns_tag = 't1'

    def __init__(self, tag, init=None, ns_tag=None, **kw):
        super().__init__(tag)
        ns = self.create_namespace(ns_tag or self.ns_tag)
        declare(self, self.V, init or {}, **kw)
        ns.add_equations([self])


class SubNode(Subsystem, EquationBase):
    """same, as a subsystem with children"""
    V = {}
    ns_tag = 't1'

    def __init__(self, tag, items=(), init=None, ns_tag=None, **kw):
        super().__init__(tag)
        if self.V:
            ns = self.create_namespace(ns_tag or self.ns_tag)
            declare(self, self.V, init or {}, **kw)
            ns.add_equations([self])
        if items:
            self.register_items(list(items))


def declare(eq, V, init, log=None, alias=None):
    for tag, (kind, v0) in V.items():
        v = init.get(tag, v0)
        k = {}
        if log and tag in log:
            k['logger_level'] = log[tag]
        if alias and tag in alias:
            k['alias'] = alias[tag]
        if kind == 'state':
            eq.add_state(tag, v, **k)
        elif kind == 'par':
            eq.add_parameter(tag, v, **k)
        elif kind == 'const':
            eq.add_constant(tag, v, **k)
        else:
            raise AssertionError(kind)


class Sys(Subsystem):
    def __init__(self, tag, items):
        super().__init__(tag)
        self.register_items(list(items))


def equations_of(cls):
    """names of the @Equation methods of a class, and the plain functions"""
    out = []
    for n in dir(cls):
        if n.startswith('__'):
            continue
        m = getattr(cls, n)
        if callable(m) and hasattr(m, '_equation'):
            out.append((n, m.__wrapped__))
    return out


class Cyc(Exception):
    pass


class Oracle:
    """lazy evaluation.  values: {path: value} current values of every variable (flat, fully qualified);
    eqs: list of (namespace path, function);  assign: {target: source}; sums: {target: [sources]}"""

    def __init__(self, values, eqs=(), assign=None, sums=None, glob=None, writes=None):
        self.values = dict(values)
        self.eqs = list(eqs)
        self.assign = dict(assign or {})
        self.sums = dict(sums or {})
        self.glob = glob or {}
        self.written = {}        # path -> value assigned by its equation
        self.done = [False] * len(self.eqs)
        self.running = [False] * len(self.eqs)
        self.final = {}
        # which equation assigns which variable (declared statically by the source text of the function)
        self.owner = {}
        for i, (ns, fn) in enumerate(self.eqs):
            for a in assigned_names(fn):
                self.owner.setdefault('%s.%s' % (ns, a), []).append(i)

    def run(self, i):
        if self.done[i]:
            return
        if self.running[i]:
            raise Cyc()
        self.running[i] = True
        ns, fn = self.eqs[i]
        fn(None, _Scope(self, ns, i))
        self.running[i] = False
        self.done[i] = True

    def get(self, p, by=None):
        if p in self.assign:
            return self.get(self.assign[p])
        v = self.base(p, by)
        if p in self.sums:
            tot = None
            own = p in self.owner
            parts = ([v] if own else []) + [self.get(s) for s in self.sums[p]]
            for q in parts:
                tot = q if tot is None else tot + q
            return tot
        return v

    def base(self, p, by=None):
        for i in self.owner.get(p, ()):
            if i != by:
                self.run(i)
        return self.written.get(p, self.values[p])


class _Scope:
    def __init__(self, o, ns, i):
        self.__dict__['_o'] = (o, ns, i)

    def __getattr__(self, n):
        o, ns, i = self.__dict__['_o']
        if n == 'global_vars':
            return _Glob(o.glob)
        p = '%s.%s' % (ns, n)
        if (i, p) in o.written_by():
            return o.written[p]
        if p not in o.values:
            raise AttributeError(n)
        return o.get(p, by=i)

    def __setattr__(self, n, v):
        o, ns, i = self.__dict__['_o']
        p = '%s.%s' % (ns, n)
        if p not in o.values:
            raise AttributeError(n)
        o.written[p] = v
        o.written_by().add((i, p))


def _wb(self):
    if not hasattr(self, '_wb_set'):
        self._wb_set = set()
    return self._wb_set


Oracle.written_by = _wb


class _Glob:
    def __init__(self, g):
        self.__dict__.update(g)


def assigned_names(fn):
    import ast
    import inspect
    import textwrap
    key = fn.__code__
    if key not in _AN:
        t = ast.parse(textwrap.dedent(inspect.getsource(fn)))
        f = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)][0]
        scope = f.args.args[1].arg
        out = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == scope:
                out.add(n.attr)
        _AN[key] = sorted(out)
    return _AN[key]


_AN = {}


def compile_model(system, llvm=False, t0=0.0, steps=2, **kw):
    """Model -> compiled model, without the external solver (jitted external solver cannot be built in this sandbox)"""
    m = Model(system, use_llvm=llvm, **kw)
    m._generate_compiled_model(t0, steps)
    return m


def sim(system, llvm=False, t0=0.0, t1=1.0, num=1, model_kw=None, **kw):
    m = Model(system, use_llvm=llvm, **(model_kw or {}))
    s = Simulation(m, t0, t1, num, **kw)
    return m, s


def plain_sim(m, t0=0.0, t1=1.0, num=1, f0=False, **kw):
    """Simulation without the choice of an integration method, which belongs to the external solver (f0: with the evaluation
    at time zero, which is a part of this choice)"""
    from numerous.solver.numerous_solver import NumerousSolver
    old = NumerousSolver._set_options
    NumerousSolver._set_options = lambda self, options: self.interface.get_deriv(0, self.interface.get_states()) if f0 else None
    try:
        return Simulation(m, t0, t1, num, **kw)
    finally:
        NumerousSolver._set_options = old


def values_of(m):
    """{path: current value} from the model's own memory"""
    vals = m.numba_model.read_variables()
    out = {}
    for path, vid in m.aliases.items():
        out[path] = vals[m.vars_ordered_values[vid]]
    return out


def derivs(m, t, states):
    """{state path: derivative} as the solver sees it"""
    return m.numba_model.func(t, states)


def state_order(m):
    """paths of the states in the order of the state vector"""
    ix = list(m.numba_model.state_idx)
    by = {}
    for p, vid in m.aliases.items():
        by.setdefault(m.vars_ordered_values[vid], p)
    return [by[i] for i in ix]


def check_evals(ctx, m, cur, eqs, assign=None, sums=None, rounds=2, t=0.75, glob=None, tag='', lo=-1e3, hi=1e3, skip=()):
    """evaluate the compiled model `rounds` times (fresh symbolic states every time) and compare every derivative
    and every variable with the reference semantics; returns the values after the last evaluation"""
    order = state_order(m)
    for r in range(rounds):
        if r:
            cur = dict(cur)
            for p in order:
                cur[p] = ctx.real('%sr%d_%s' % (tag, r, p), lo, hi)
        y = np.array([cur[p] for p in order])
        m.numba_model.set_states(y)
        d = derivs(m, t + r, y)
        g = dict(glob or {})
        g['t'] = t + r
        o = Oracle(cur, eqs, assign, sums, glob=g)
        for i, p in enumerate(order):
            ctx.eq(d[i], o.get(p + '_dot'), '%sderivative of %s (evaluation %d)' % (tag, p, r))
        got = values_of(m)
        nxt = {}
        for p in cur:
            nxt[p] = o.get(p)
            if p not in skip:
                ctx.eq(got[p], nxt[p], '%svalue of %s after evaluation %d' % (tag, p, r))
        cur = nxt
    return cur


def var(item, path):
    """item.t1.x from 't1.x'"""
    o = item
    for s in path.split('.'):
        o = getattr(o, s)
    return o


def do_assign(item, ns, tag, src):
    setattr(getattr(item, ns), tag, src)


def do_sum(item, ns, tag, src):
    """item.ns.tag += src, as a user writes it"""
    n = getattr(item, ns)
    v = getattr(n, tag)
    v += src
    setattr(n, tag, v)


def build_spec(ctx, spec, order=None, groups=None, sets=None, rounds=2, llvm=False, tag='s', check=True, vals=None,
               pre_hook=None, hook=None, model_only=False, **kw):
    """spec: {tag: (cls, [(var, 'assign'|'sum', [source paths 'tag.var'])])}; groups: {tag: (subsystem, ...)};
    sets: {set name: ([item tags in order], (subsystem, ...))}.  Builds the system through the public API in the given
    registration order, compiles it and compares it with the reference semantics for `rounds` evaluations"""
    items, init, paths = {}, {}, {}
    groups = groups or {}
    sets = sets or {}
    inset = {}
    for sn, (members, pre) in sets.items():
        for t in members:
            inset[t] = sn
    for t, (cls, _) in spec.items():
        iv = {v: ctx.real('%s_%s' % (t, v), -100, 100) for v in cls.V}
        if vals:
            iv.update(vals.get(t, {}))
        items[t] = cls(t, init=iv)
        if t in inset:
            pre = '.'.join((tag,) + tuple(sets[inset[t]][1]) + ('SET_' + inset[t], t))
        else:
            pre = '.'.join((tag,) + tuple(groups.get(t, ())) + (t,))
        paths[t] = pre + '.t1'
        for v, (kind, _) in cls.V.items():
            init['%s.t1.%s' % (pre, v)] = iv[v]
            if kind == 'state':
                init['%s.t1.%s_dot' % (pre, v)] = 0.0
    if pre_hook:
        pre_hook(items)
    subs = {}
    assign, sums = {}, {}
    for t, (cls, maps) in spec.items():
        for v, kind, srcs in maps:
            tgt = '%s.%s' % (paths[t], v)
            for s in srcs:
                st, sv = s.split('.')
                src = getattr(items[st].t1, sv)
                sp = '%s.%s' % (paths[st], sv)
                if kind == 'assign':
                    do_assign(items[t], 't1', v, src)
                    assign[tgt] = sp
                else:
                    do_sum(items[t], 't1', v, src)
                    sums.setdefault(tgt, []).append(sp)
    order = order or list(spec)
    where = {t: (tuple(groups.get(t, ())), None) for t in order}
    for sn, (members, pre) in sets.items():
        for t in members:
            where[t] = (tuple(pre), sn)

    def mk(prefix):
        sub = subs['.'.join((tag,) + prefix)] = Sys(prefix[-1] if prefix else tag, [])
        seen = set()
        for t in order:
            g, sn = where[t]
            if g == prefix and sn is None:
                sub.register_items([items[t]])
            elif g == prefix:
                if ('set', sn) not in seen:
                    seen.add(('set', sn))
                    sub.register_items([items[x] for x in sets[sn][0]], tag=sn, structure=ItemsStructure.SET)
            elif g[:len(prefix)] == prefix and g[len(prefix)] not in seen:
                seen.add(g[len(prefix)])
                sub.register_items([mk(g[:len(prefix) + 1])])
        return sub
    root = mk(())
    if hook:
        hook(items, subs)
    m = Model(root, use_llvm=llvm, **kw) if model_only else compile_model(root, llvm=llvm, **kw)
    m.verif_subs = subs
    m.verif_items, m.verif_paths = items, paths
    eqs = [(paths[t], fn) for t, (cls, _) in spec.items() for _, fn in equations_of(cls)]
    if check:
        check_evals(ctx, m, init, eqs, assign, sums, rounds=rounds)
    return m, init, eqs, assign, sums
