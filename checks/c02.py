"""C02: the native backend computes what the interpreted backend computes.

The same system is built twice, once per backend, on the same symbolic values; the native side is the LLVM IR which the
repository generated, interpreted by vlib/llvmsym.py.  Every derivative and every variable is compared after every step of a
history of evaluations and writes."""
import numpy as np

from numerous.multiphysics import Equation
from vlib.runner import Scn
from vlib.scn import *
from checks import c01, c03, c04, c06
from checks.c13 import Memo

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'the equation functions of the native backend are the Python functions numba compiles; the LLVM pass manager and code generator are trusted',
    'the IR text is parsed and verified by llvm.parse_assembly and interpreted cell by cell (vlib/llvmsym.py); a symbol defined by several modules is the one finalized last',
]


def pair(build, rounds=2, write=1, t=0.5, api=True, hist=False, lo=-1e3, hi=1e3):
    """build(ctx, llvm) -> model"""
    def f(ctx):
        memo = Memo(ctx)
        a, b = build(memo, False), build(memo, True)
        ia, ib = dict(a.vars_ordered_values), dict(b.vars_ordered_values)
        pa = {p: ia[v] for p, v in a.aliases.items()}
        pb = {p: ib[v] for p, v in b.aliases.items()}
        ctx.check(sorted(pa) == sorted(pb), 'both backends have the same variables')
        if sorted(pa) != sorted(pb):
            return
        na, nb = a.numba_model, b.numba_model
        oa, ob = state_order(a), state_order(b)
        ctx.check(sorted(oa) == sorted(ob), 'both backends have the same states')
        if sorted(oa) != sorted(ob):
            return

        def same(what):
            va, vb = na.read_variables(), nb.read_variables()
            for p in pa:
                ctx.eq(vb[pb[p]], va[pa[p]], 'value of %s %s' % (p, what))
            sa, sb = na.get_states(), nb.get_states()
            for i, p in enumerate(oa):
                ctx.eq(sb[ob.index(p)], sa[i], 'state %s %s' % (p, what))
        same('before the first evaluation')
        paths = sorted(set(pa) - set(oa))
        paths = [p for p in paths if not p.endswith('_dot')]
        seen = set()
        uniq = [p for p in paths if not (pa[p] in seen or seen.add(pa[p]))]
        for r in range(rounds):
            if r and write:
                k = (r * 7 + len(uniq)) % max(len(uniq), 1)
                for p in (uniq[k:] + uniq[:k])[:write]:
                    v = ctx.real('w%d_%s' % (r, p), lo, hi)
                    if api == 'index':
                        na.write_variables(v, pa[p])
                        nb.write_variables(v, pb[p])
                    else:
                        a.update_variables({p: v})
                        b.update_variables({p: v})
                same('after writing %s' % (uniq[k:] + uniq[:k])[:write])
            y = {p: ctx.real('y%d_%s' % (r, p), lo, hi) for p in oa}
            if r % 2 == 0:
                na.set_states(np.array([y[p] for p in oa]))
                nb.set_states(np.array([y[p] for p in ob]))
                same('after setting the states (%d)' % r)
            da = na.func(t + r, np.array([y[p] for p in oa]))
            db = nb.func(t + r, np.array([y[p] for p in ob]))
            ctx.check(len(da) == len(db), 'number of derivatives')
            for i, p in enumerate(oa):
                ctx.eq(db[ob.index(p)], da[i], 'derivative of %s (evaluation %d)' % (p, r))
            same('after evaluation %d' % r)
            if hist:
                na.historian_update(t + r)
                nb.historian_update(t + r)
                ha, hb = na.historian_data, nb.historian_data
                ctx.eq(hb[0][r], ha[0][r], 'time of history row %d' % r)
                for p in pa:
                    ctx.eq(hb[1 + pb[p]][r], ha[1 + pa[p]][r], 'history of %s (row %d)' % (p, r))
        ga, gb = a.get_variables(), b.get_variables()
        ctx.check(sorted(ga) == sorted(gb), 'names of the variables that are read by name')
        for p in ga:
            if p in gb:
                ctx.eq(gb[p], ga[p], 'get_variables()[%s]' % p)
    return f


def prog(cls, n=1, refuse=False, gen=None):
    def build(ctx, llvm):
        C = cls
        if gen is not None:
            from checks import gen_eq
            C, _ = gen_eq.make(gen[0], n=gen[1], depth=gen[2])
        items = []
        for j in range(n):
            items.append(C('i%d' % j, init={v: ctx.real('%s_%d' % (v, j), -1e3, 1e3) for v in c01.NAMES}))
        return compile_model(Sys('s', items), llvm=llvm)

    def f(ctx, **kw):
        if refuse:
            ok = []
            for llvm in (False, True):
                try:
                    build(Memo(ctx), llvm)
                    ok.append(True)
                except Exception:
                    ok.append(False)
            ctx.check(ok[0] == ok[1], 'refused by one backend only')
            if not all(ok):
                return
        return pair(build, **kw)(ctx)
    return f


def spec(sp, kw, **pk):
    def build(ctx, llvm):
        return build_spec(ctx, sp, check=False, llvm=llvm, **kw)[0]
    return pair(build, **pk)


class ReadFirst(Node):
    """variables that are read before they are assigned"""
    V = c01.S2

    @Equation()
    def eq(self, scope):
        a = scope.p
        scope.p = scope.x + a
        if scope.q > 0:
            scope.q = scope.q - scope.k
        b = scope.x_dot
        scope.x_dot = scope.q - b
        scope.y_dot = scope.y_dot + 1.0


class Glob(Node):
    """a global variable of the model besides the time"""
    V = c01.S2

    @Equation()
    def eq(self, scope):
        scope.p = scope.global_vars.t * 2
        scope.q = scope.global_vars.g1 - scope.global_vars.t
        scope.x_dot = scope.global_vars.g2 * scope.x
        scope.y_dot = scope.global_vars.g1


class OnlyT(Node):
    V = {'p': ('par', 1.0), 'x': ('state', 0.0)}

    @Equation()
    def eq(self, scope):
        scope.x_dot = scope.p


class Par(Node):
    """no states"""
    V = {'p': ('par', 1.0), 'q': ('par', 0.0), 'k': ('const', 2.0)}

    @Equation()
    def eq(self, scope):
        scope.q = scope.p * scope.k


def several(ctx):
    """several native models at the same time, each has its own memory and its own kernel"""
    def mk(memo, cls, j, llvm):
        return compile_model(Sys('s%d' % j, [cls('i', init={v: memo.real('%s_%d' % (v, j), -1e3, 1e3) for v in cls.V})]), llvm=llvm)
    memo = Memo(ctx)
    cl = (c01.Order, c01.Chain, c01.Order)
    nat = [mk(memo, c, j, True) for j, c in enumerate(cl)]
    ref = [mk(memo, c, j, False) for j, c in enumerate(cl)]
    for r, j in enumerate((1, 0, 2, 0)):
        a, b = ref[j], nat[j]
        y = {p: ctx.real('y%d_%s' % (r, p), -1e3, 1e3) for p in state_order(a)}
        da = a.numba_model.func(r * 1.5, np.array([y[p] for p in state_order(a)]))
        db = b.numba_model.func(r * 1.5, np.array([y[p] for p in state_order(b)]))
        for i, p in enumerate(state_order(a)):
            ctx.eq(db[state_order(b).index(p)], da[i], 'derivative of %s of model %d (call %d)' % (p, j, r))
        for k in range(3):
            va, vb = values_of(ref[k]), values_of(nat[k])
            for p in va:
                ctx.eq(vb[p], va[p], 'value of %s of model %d after call %d of model %d' % (p, k, r, j))


def globs(ctx, n=1, sets=False):
    def build(memo, llvm):
        items = [Glob('i%d' % j, init={v: memo.real('%s_%d' % (v, j), -1e3, 1e3) for v in Glob.V}) for j in range(n)]
        s = Sys('s', [])
        if sets:
            s.register_items(items, tag='q', structure=ItemsStructure.SET)
        else:
            s.register_items(items)
        g1, g2 = memo.real('g1', -1e3, 1e3), memo.real('g2', -1e3, 1e3)
        return compile_model(s, llvm=llvm, global_variables=[('g1', g1), ('g2', g2)])
    pair(build)(ctx)


SCENARIOS = []
CL = c01.CL + [ReadFirst]
for c in CL:
    big = c in (c01.Bools, c01.BoolVar, c01.IfRead, c01.Nested, c01.Ifs, c01.IfExp, c01.MinMax)
    SCENARIOS.append(Scn('prog_' + c.__name__, prog(c, refuse=c in c01.REFUSABLE) if not big else
                         (lambda c: lambda ctx: prog(c)(ctx, rounds=1))(c), witness=c in (c01.Order, c01.Time, ReadFirst, c01.Swap, c01.Aug),
                         bounds='1 item, %d evaluation(s), a write in between, every value any real in [-1000,1000]' % (1 if big else 2)))
for c in (c01.Order, c01.TwoEq, c01.Chain, c01.Calls, c01.Time, ReadFirst):
    SCENARIOS.append(Scn('prog2_' + c.__name__, prog(c, n=2), witness=False, tier='quick' if c in (c01.TwoEq, c01.Chain, c01.Time) else 'thorough',
                         bounds='2 items, 2 evaluations'))
for g in range(200):
    SCENARIOS.append(Scn('gen%d' % g, (lambda g: lambda ctx: prog(None, gen=(g, 2 + g % 3, 1 + g % 2))(ctx, rounds=1))(g),
                         tier='quick' if g < 20 else 'thorough', witness=g % 20 == 0, bounds='enumerated equation program %d, 1 evaluation' % g))
for k, v in c03.FIX.items():
    SCENARIOS.append(Scn('map_' + k, spec(c03.limit(v), {}, hist=True, write=2), witness=k in ('sum3_states', 'sum_own_eq'), bounds='fixed structure of mappings, 2 evaluations'))
SCENARIOS.append(Scn('map_rounds', spec(c03.limit(c03.FIX['sum_of_mapped'], 0), {}, rounds=4, hist=False, api='index'), bounds='4 evaluations'))
for g in range(120):
    sp, kw = c03.gen_spec(g)
    SCENARIOS.append(Scn('mapgen%d' % g, spec(c03.limit(sp), kw), tier='quick' if g < 25 else 'thorough', witness=g in (3, 14), bounds='generated structure %d of C03' % g))
SCENARIOS.append(Scn('several', several, bounds='3 models, 4 calls'))
SCENARIOS.append(Scn('globals', lambda ctx: globs(ctx), bounds='2 extra global variables'))
SCENARIOS.append(Scn('globals2', lambda ctx: globs(ctx, n=2), bounds='2 extra global variables, 2 items'))
SCENARIOS.append(Scn('globals_set', lambda ctx: globs(ctx, n=2, sets=True), bounds='2 extra global variables, a set of 2 items'))
SCENARIOS.append(Scn('small', lambda ctx: prog_v(OnlyT)(ctx), bounds='one state', witness=False))


# sets: the structures of C04
def _sets():
    A, B, C2, E_, O = c04.A, c04.B, c04.C2, c04.E, c04.O
    two = ['i0', 'i1']
    out = {}
    for cls in (A, C2, E_, c04.D, B):
        n = cls.__name__
        ab = {'i0': (cls, []), 'i1': (cls, [])}
        q = dict(sets={'q': (two, ())})
        out['plain_' + n] = (ab, q)
        out['rev_' + n] = ({'i%d' % j: (cls, []) for j in range(3)}, dict(sets={'q': (['i2', 'i0', 'i1'], ())}))
        out['in_part_' + n] = ({'o': (O, []), 'i0': (cls, []), 'i1': (cls, [('in1', 'assign', ['o.o1'])])}, q)
        out['in_sum_' + n] = ({'o': (O, []), 'p': (O, []), 'i0': (cls, [('in1', 'sum', ['o.o1', 'p.o1'])]), 'i1': (cls, [('in1', 'sum', ['o.x'])])}, q)
        out['outsum_' + n] = (dict(ab, o=(O, [('in1', 'sum', ['i0.o1', 'i1.o1']), ('in2', 'sum', ['i0.g', 'i1.x'])])), q)
        out['own_sum_' + n] = ({'o': (O, []), 'i0': (cls, [('o1', 'sum', ['o.x'])]), 'i1': (cls, [('o1', 'sum', ['o.o1', 'o.x'])])}, q)
        out['set2set_' + n] = ({'a0': (cls, []), 'a1': (cls, []), 'b0': (A, [('in1', 'assign', ['a1.o1'])]), 'b1': (A, [('in1', 'sum', ['a0.o1', 'a0.x'])])},
                               dict(sets={'q': (['a0', 'a1'], ()), 'r': (['b0', 'b1'], ())}))
        out['nested_' + n] = (ab, dict(sets={'q': (two, ('u', 'w'))}))
    return out


for k, (sp, kw) in _sets().items():
    cond = any(c in (c04.D, c04.B) for c, _ in sp.values())
    SCENARIOS.append(Scn('set_' + k, spec(sp, kw, rounds=1 if cond else 2), witness=k in ('plain_A', 'own_sum_C2', 'set2set_A'),
                         tier='thorough' if cond and 'rev' in k else 'quick', bounds='a set of 2-3 items, %d evaluation(s)' % (1 if cond else 2)))
for g in range(60):
    sp, kw = c04.gen_spec(g)
    SCENARIOS.append(Scn('setgen%d' % g, spec(sp, kw, rounds=1), tier='quick' if g < 10 else 'thorough', witness=g == 4, bounds='generated structure %d of C04' % g))
SCENARIOS.append(Scn('nostate', lambda ctx: prog_v(Par)(ctx), bounds='no states'))


def prog_v(cls):
    return pair(lambda ctx, llvm: compile_model(Sys('s', [cls('i', init={v: ctx.real(v, -1e3, 1e3) for v in cls.V})]), llvm=llvm))
