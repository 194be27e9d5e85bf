"""Symbolic execution of real Python code over z3 terms.

The code under test is executed unchanged by CPython.  Scenario inputs are proxy objects
(SymReal / SymInt / SymBool) that wrap z3 terms; arithmetic builds terms, and a truth test on a
symbolic condition asks the solver which outcomes are feasible under the path condition.  If both are,
the engine takes one and schedules a re-execution of the scenario that takes the other, so that the set
of executed paths covers every value of the inputs (within the stated bounds).  ctx.check(P) asks the
solver whether the path condition together with "not P" is satisfiable: unsat = P holds for every value
that follows this path; sat = a concrete counterexample.
"""
import builtins
import math
import signal
import time
from fractions import Fraction

import numpy as _np
import z3

REAL = z3.RealSort()
_UF = {}


def uf(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function('uf_%s_%d' % (name, n), *([REAL] * n + [REAL]))
    return _UF[k]


class Abort(BaseException):
    """path abandoned (infeasible or assumption false)"""


class Hang(BaseException):
    """the code did not come to an end"""


PATH_SECONDS = 120


def _alarm(*a):
    raise Hang()


class Budget(BaseException):
    """budget of the scenario exhausted"""


class SymError(Exception):
    """the symbolic machinery could not interpret an operation"""


class Stop(BaseException):
    """a violation was recorded; stop this path"""


CUR = None  # current SymCtx
_TABLE = []
builtins.__vsym = _TABLE.__getitem__


def is_sym(x):
    return isinstance(x, Sym)


def frac(v):
    return Fraction(v)


def rv(v):
    """concrete python number -> z3 real constant"""
    if isinstance(v, bool) or isinstance(v, _np.bool_):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, (int, _np.integer)):
        return z3.RealVal(int(v))
    f = Fraction(float(v))
    return z3.RealVal(str(f))


def term(v):
    """python value -> z3 real term"""
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, _np.ndarray) and v.shape == ():
        return term(v.item())
    return rv(v)


def special(v):
    """inf / nan python floats"""
    return isinstance(v, (float, _np.floating)) and (math.isinf(v) or math.isnan(v))


def num(v):
    return isinstance(v, (int, float, bool, _np.number, _np.bool_, Fraction))


_PICKLED = []


def _unpickle(i):
    return _PICKLED[i]


class Sym:
    __array_priority__ = 1000.0
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        # pickled and loaded again within one execution
        _PICKLED.append(self)
        return _unpickle, (len(_PICKLED) - 1,)


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return CUR.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(self.t == bterm(o))
        return mkreal(term(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = Sym.__hash__

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def _r(self):
        return SymReal(term(self))

    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __mul__(self, o): return self._r() * o
    def __rmul__(self, o): return o * self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __gt__(self, o): return self._r() > o
    def __lt__(self, o): return self._r() < o

    def __repr__(self):
        return 'SymBool(%s)' % self.t


def bterm(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, _np.bool_, int)):
        return z3.BoolVal(bool(o))
    if isinstance(o, SymReal) or isinstance(o, SymInt):
        return o.t != 0
    raise SymError('bool term of %r' % type(o))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def mkreal(t):
    return SymReal(t)


def _bin(fn, rfn=None):
    def op(self, o):
        if isinstance(o, _np.ndarray) and o.shape != ():
            return NotImplemented
        if isinstance(o, Sym) or num(o):
            return fn(self, o)
        return NotImplemented
    return op


def _mixed(a, b):
    """both integer-sorted? -> (ta,tb,True)"""
    ai = isinstance(a, SymInt) or (isinstance(a, (int, _np.integer)) and not isinstance(a, bool))
    bi = isinstance(b, SymInt) or (isinstance(b, (int, _np.integer)) and not isinstance(b, bool))
    if ai and bi:
        ta = a.t if isinstance(a, SymInt) else z3.IntVal(int(a))
        tb = b.t if isinstance(b, SymInt) else z3.IntVal(int(b))
        return ta, tb, True
    return term(a), term(b), False


def _wrap(t, isint):
    return SymInt(t) if isint else SymReal(t)


def _add(a, b):
    for v in (a, b):
        if special(v):
            return v
    if num(b) and b == 0 and isinstance(a, Sym):
        return a
    if num(a) and a == 0 and isinstance(b, Sym):
        return b
    ta, tb, i = _mixed(a, b)
    return _wrap(ta + tb, i)


def _sub(a, b):
    if special(a):
        return a
    if special(b):
        return -b
    if num(b) and b == 0 and isinstance(a, Sym):
        return a
    ta, tb, i = _mixed(a, b)
    return _wrap(ta - tb, i)


def _mul(a, b):
    for v, w in ((a, b), (b, a)):
        if special(v):
            if math.isnan(v):
                return v
            return v if CUR.branch(term(w) > 0) else (float('nan') if CUR.branch(term(w) == 0) else -v)
        if num(v) and v == 1 and isinstance(w, Sym):
            return w
    ta, tb, i = _mixed(a, b)
    return _wrap(ta * tb, i)


def _div(a, b):
    if special(b):
        return b if math.isnan(b) else 0.0
    if special(a):
        return a
    tb = term(b)
    if not isinstance(b, Sym):
        if b == 0:
            raise ZeroDivisionError('division by zero')
    else:
        CUR.assume_nonzero(tb)
    return SymReal(term(a) / tb)


def _floordiv(a, b):
    ta, tb, i = _mixed(a, b)
    if i and not isinstance(b, Sym) and b > 0:
        return SymInt(ta / tb)
    q = _div(a, b)
    if not isinstance(q, Sym):
        return math.floor(q)
    fl = z3.ToInt(q.t)
    return SymInt(fl) if i else SymReal(z3.ToReal(fl))


def _mod(a, b):
    ta, tb, i = _mixed(a, b)
    if i and not isinstance(b, Sym) and b > 0:
        return SymInt(ta % tb)
    q = _floordiv(a, b)
    return _sub(a, _mul(q, b))


def _pow(a, b):
    if isinstance(b, SymInt):
        b = SymReal(term(b))
    if num(b) and not isinstance(b, Sym) and float(b) == int(b) and 0 <= b <= 8:
        n = int(b)
        if n == 0:
            return 1.0
        r = a
        for _ in range(n - 1):
            r = _mul(r, a)
        return r
    if num(b) and not isinstance(b, Sym) and float(b) == int(b) and -4 <= b < 0:
        return _div(1.0, _pow(a, -int(b)))
    return SymReal(uf('pow', 2)(term(a), term(b)))


def _cmp(name):
    def fn(a, b):
        for v, other, flip in ((b, a, False), (a, b, True)):
            if special(v):
                if math.isnan(v):
                    return name == 'ne'
                if name in ('eq',):
                    return False
                if name in ('ne',):
                    return True
                less = name in ('lt', 'le')       # a < b ?
                pos = v > 0
                # flip False: b is inf
                return (pos if less else not pos) if not flip else ((not pos) if less else pos)
        ta, tb, i = _mixed(a, b)
        t = {'lt': lambda: ta < tb, 'le': lambda: ta <= tb, 'gt': lambda: ta > tb, 'ge': lambda: ta >= tb,
             'eq': lambda: ta == tb, 'ne': lambda: ta != tb}[name]()
        if not i:
            t = z3.simplify(t) if _const(ta) and _const(tb) else t
        return mkbool(t)
    return fn


class SymNum(Sym):
    __slots__ = ()
    __add__ = _bin(lambda s, o: _add(s, o))
    __radd__ = _bin(lambda s, o: _add(o, s))
    __sub__ = _bin(lambda s, o: _sub(s, o))
    __rsub__ = _bin(lambda s, o: _sub(o, s))
    __mul__ = _bin(lambda s, o: _mul(s, o))
    __rmul__ = _bin(lambda s, o: _mul(o, s))
    __truediv__ = _bin(lambda s, o: _div(s, o))
    __rtruediv__ = _bin(lambda s, o: _div(o, s))
    __floordiv__ = _bin(lambda s, o: _floordiv(s, o))
    __rfloordiv__ = _bin(lambda s, o: _floordiv(o, s))
    __mod__ = _bin(lambda s, o: _mod(s, o))
    __rmod__ = _bin(lambda s, o: _mod(o, s))
    __pow__ = _bin(lambda s, o: _pow(s, o))
    __rpow__ = _bin(lambda s, o: _pow(o, s))
    __lt__ = _bin(_cmp('lt'))
    __le__ = _bin(_cmp('le'))
    __gt__ = _bin(_cmp('gt'))
    __ge__ = _bin(_cmp('ge'))

    def __eq__(self, o):
        if isinstance(o, _np.ndarray) and o.shape != ():
            return NotImplemented
        if isinstance(o, Sym) or num(o):
            return _cmp('eq')(self, o)
        return False

    def __ne__(self, o):
        if isinstance(o, _np.ndarray) and o.shape != ():
            return NotImplemented
        if isinstance(o, Sym) or num(o):
            return _cmp('ne')(self, o)
        return True
    __hash__ = Sym.__hash__

    def __neg__(self):
        return _wrap(-self.t, isinstance(self, SymInt))

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap(z3.If(self.t >= 0, self.t, -self.t), isinstance(self, SymInt))

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return self

    @property
    def dtype(self):
        return _np.dtype(object)

    @property
    def shape(self):
        return ()

    def __round__(self, n=None):
        raise SymError('round')

    def __float__(self):
        return float(CUR.concretize(self))

    def __int__(self):
        return CUR.concretize_int(self)

    def __trunc__(self):
        return self.__int__()

    def __repr__(self):
        # the code under test writes initial values into generated source text (repr); the text must evaluate back
        _TABLE.append(self)
        return '__vsym(%d)' % (len(_TABLE) - 1)

    def __str__(self):
        return '%s<%s>' % (type(self).__name__, str(self.t)[:80])

    def __format__(self, spec):
        return str(self)

    # numpy ufunc hooks on object arrays
    def floor(self): return SymReal(z3.ToReal(z3.ToInt(term(self))))
    def ceil(self): return SymReal(-z3.ToReal(z3.ToInt(-term(self))))
    def __floor__(self): return SymInt(z3.ToInt(term(self)))
    def __ceil__(self): return SymInt(-z3.ToInt(-term(self)))
    def rint(self): raise SymError('rint')
    def square(self): return _mul(self, self)
    def sqrt(self): return SymReal(uf('sqrt', 1)(term(self)))
    def fabs(self): return abs(self)
    def sign(self):
        return SymReal(z3.If(term(self) > 0, z3.RealVal(1), z3.If(term(self) < 0, z3.RealVal(-1), z3.RealVal(0))))
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False


for _n in ('sin cos tan exp log log10 log2 arcsin arccos arctan sinh cosh tanh expm1 log1p cbrt').split():
    def _mk(nm):
        def m(self):
            return SymReal(uf(nm, 1)(term(self)))
        return m
    setattr(SymNum, _n, _mk(_n))


def _arctan2(self, o):
    return SymReal(uf('arctan2', 2)(term(self), term(o)))


SymNum.arctan2 = _arctan2


class SymReal(SymNum):
    __slots__ = ()


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return CUR.concretize_int(self)


def val_to_py(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise SymError('value %s' % v)


class Violation:
    def __init__(self, msg, values, choices, kind, key):
        self.msg, self.values, self.choices, self.kind, self.key = msg, values, choices, kind, key
        self.full = None
        self.alts = []


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branch_queries = 0
        self.check_queries = 0
        self.checks = 0
        self.checks_trivial = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretized = 0
        self.nonzero_assumed = 0
        self.decisions = 0
        self.unfinished = 0
        self.samples = []

    def merge(self, o):
        for k, v in o.__dict__.items():
            if k == 'samples':
                self.samples = (self.samples + v)[:6]
            else:
                setattr(self, k, getattr(self, k) + v)


class Engine:
    """explores all paths of scenario fn(ctx)"""

    def __init__(self, fn, timeout_s=300, max_paths=100000, query_ms=20000, setup=None, seed=0, stop_first=True,
                 known=(), scn=''):
        self.fn = fn
        self.known = known
        self.scn = scn
        self.witnesses = []
        self.deadline = time.time() + timeout_s
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.stats = Stats()
        self.violations = []
        self.errors = []
        self.setup = setup
        self.seed = seed
        self.stop_first = stop_first

    def run(self):
        global CUR
        work = [[]]
        while work:
            if time.time() > self.deadline or self.stats.paths >= self.max_paths:
                self.stats.unfinished += len(work)
                break
            prefix = work.pop()
            ctx = SymCtx(self, prefix)
            CUR = ctx
            _TABLE.clear()
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(PATH_SECONDS)
                self.fn(ctx)
                signal.alarm(0)
                ctx.flush()
                self.stats.paths += 1
                if len(self.witnesses) < 1 or (len(self.witnesses) < 3 and self.stats.paths in (7, 40)):
                    w = ctx.witness()
                    if w is not None:
                        self.witnesses.append(w)
            except Abort:
                self.stats.aborted += 1
            except Stop:
                self.stats.paths += 1
            except Budget:
                self.stats.unfinished += 1
            except Hang as e:        # a counterexample only if the real code does not come to an end either
                signal.alarm(0)
                self.stats.unfinished += 1
                ctx.exception(e)
                if self.violations:
                    self.violations[-1].kind = 'hang'
            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception as e:  # exception raised by the code under test (or by the machinery)
                self.stats.paths += 1
                ctx.exception(e)
            finally:
                signal.alarm(0)
                CUR = None
            work.extend(ctx.pending)
            if self.stop_first and [v for v in self.violations if v.full not in self.known]:
                self.stats.unfinished += len(work)
                break
            if len(self.violations) > 40:
                self.stats.unfinished += len(work)
                break
        return self


class SymCtx:
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.st = eng.stats
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.query_ms)
        self.inputs = {}
        self.choices = {}
        self.order = []
        self.last_model = None
        self.notes = []
        self.pc_n = 0
        self.deferred = []

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        assert name not in self.inputs, name
        v = z3.Real(name)
        self.inputs[name] = v
        if lo is not None:
            self.add(v >= rv(lo))
        if hi is not None:
            self.add(v <= rv(hi))
        return SymReal(v)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        assert name not in self.inputs, name
        v = z3.Int(name)
        self.inputs[name] = v
        self.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def bool(self, name):
        assert name not in self.inputs, name
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def choice(self, name, options):
        """symbolic index into options, resolved by solver-driven forking"""
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize_int(i)]

    # ---- path condition
    def add(self, t):
        self.solver.add(t)
        self.last_model = None
        self.pc_n += 1

    def _sat(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.st.solver_s += time.time() - t0
        return r

    def feasible(self, t):
        if self.last_model is not None:
            try:
                v = self.last_model.eval(t, model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        self.st.branch_queries += 1
        r = self._sat(t)
        if r == z3.sat:
            self.last_model = self.solver.model()
            return True
        if r == z3.unknown:
            self.st.unknown += 1
            return True      # explore; over-approximates the path set
        return False

    def check_time(self):
        if time.time() > self.eng.deadline:
            raise Budget()

    def decide(self, options, tag=0):
        """options: list of z3 conditions that partition the space lazily; returns index"""
        self.check_time()
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d, h = self.prefix[i]
            if h != tag:
                raise SymError('non-deterministic re-execution')
            self.trace.append((d, tag))
            self.add(options[d]())
            return d
        feas = []
        for k, o in enumerate(options):
            if self.feasible(o()):
                feas.append(k)
        if not feas:
            raise Abort()
        self.st.decisions += 1
        for k in feas[1:][::-1]:
            self.pending.append(self.trace + [(k, tag)])
        d = feas[0]
        self.trace.append((d, tag))
        if len(feas) > 1:
            self.add(options[d]())
        return d

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        nt = z3.Not(t)
        return self.decide([lambda: t, lambda: nt], t.hash()) == 0

    def assume(self, c):
        if isinstance(c, bool) or isinstance(c, _np.bool_):
            if not c:
                raise Abort()
            return
        t = bterm(c)
        self.add(t)
        if not self.feasible(z3.BoolVal(True)):
            raise Abort()

    def assume_nonzero(self, t):
        t2 = z3.simplify(t == 0)
        if z3.is_false(t2):
            return
        self.st.nonzero_assumed += 1
        self.add(t != 0)
        if not self.feasible(z3.BoolVal(True)):
            raise Abort()

    def concretize(self, s):
        """pick one feasible value (incomplete; counted)"""
        t = z3.simplify(s.t)
        if _const(t):
            return val_to_py(_EMPTY_MODEL(), t)
        if not self.feasible(z3.BoolVal(True)) or self.last_model is None:
            if self._sat() != z3.sat:
                raise Abort()
            self.last_model = self.solver.model()
        v = val_to_py(self.last_model, s.t)
        if isinstance(v, Fraction):
            v = Fraction(float(v))
            eq = s.t == z3.RealVal(str(v))
        else:
            eq = s.t == v
        self.st.concretized += 1
        import os
        if os.environ.get('SYM_TRACE_CONC'):
            import traceback
            traceback.print_stack(limit=8)
        self.add(eq)
        if not self.feasible(z3.BoolVal(True)):
            raise Abort()
        return v

    def concretize_int(self, s):
        """complete case split on the integer value (each feasible value becomes a path)"""
        t = s.t if isinstance(s, SymInt) else None
        if t is None:
            # int(real): truncation
            tt = z3.If(s.t >= 0, z3.ToInt(s.t), -z3.ToInt(-s.t))
            t = tt
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        i = self.pos
        self.check_time()
        self.pos += 1
        if i < len(self.prefix):
            v, h = self.prefix[i]
            if h != t.hash():
                raise SymError('non-deterministic re-execution')
            self.trace.append((v, h))
            self.add(t == v)
            return v
        vals = []
        self.solver.push()
        while len(vals) < 4096:
            self.st.branch_queries += 1
            r = self._sat()
            if r == z3.unknown:
                self.st.unknown += 1
                break
            if r == z3.unsat:
                break
            v = self.solver.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(t != v)
        self.solver.pop()
        if not vals:
            raise Abort()
        vals.sort()
        self.st.decisions += 1
        for v in vals[1:][::-1]:
            self.pending.append(self.trace + [(v, t.hash())])
        self.trace.append((vals[0], t.hash()))
        self.add(t == vals[0])
        return vals[0]

    def _report(self, v):
        v.full = '%s/%s' % (self.eng.scn, v.key or ('exception' if v.kind == 'exception' else 'check'))
        if v.full in self.eng.known and any(w.full == v.full for w in self.eng.violations):
            return      # one instance of a listed finding is enough
        self.eng.violations.append(v)

    def witness(self):
        """concrete input that follows this path, with well spread values"""
        s = self.solver
        s.push()
        try:
            s.set('timeout', 2000)
            if s.check() != z3.sat:
                return None
            m = s.model()
            for i, (n, v) in enumerate(self.inputs.items()):
                if z3.is_real(v):
                    for c in ((7 * i + 3) % 11 + 0.25 * (i % 4) + 0.125, -((5 * i + 2) % 7) - 0.375):
                        s.push()
                        s.add(v == rv(c))
                        if s.check() == z3.sat:
                            m = s.model()
                            break
                        s.pop()
                        s.push()
            vals = {}
            for n, v in self.inputs.items():
                pv = val_to_py(m, v)
                vals[n] = float(pv) if isinstance(pv, Fraction) else pv
            return vals
        finally:
            s.set('timeout', self.eng.query_ms)

    def flush(self):
        """one query for all assertions of the path that the simplifier closed: some negation satisfiable?"""
        if not self.deferred:
            return
        s = z3.Solver()
        s.set('timeout', self.eng.query_ms)
        s.add(z3.Or(*self.deferred))
        t0 = time.time()
        r = s.check()
        self.st.solver_s += time.time() - t0
        self.st.check_queries += 1
        if r != z3.unsat:
            self.eng.errors.append('simplifier and solver disagree: %s' % r)

    # ---- properties
    def note(self, s):
        self.notes.append(s)

    def _model_violation(self, neg, msg, kind, key):
        """look for a well separated model first, so that a float replay shows it"""
        prefs = []
        for n, v in self.inputs.items():
            if z3.is_real(v):
                prefs.append(z3.And(v >= -1000, v <= 1000))
        m = None
        s = self.solver
        base = s.num_scopes()
        s.push()
        s.add(neg)
        if s.check(*[]) == z3.sat:
            m = s.model()
        s.push()
        s.add(*prefs)
        if s.check() == z3.sat:
            m = s.model()
            # try to make real inputs pairwise different and non trivial
            rl = [v for v in self.inputs.values() if z3.is_real(v)]
            for v in rl:
                s.push()
                s.add(z3.Or(v > z3.RealVal('1/8'), v < z3.RealVal('-1/8')))
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
            if len(rl) <= 30:
                for i in range(len(rl)):
                    for j in range(i):
                        s.push()
                        s.add(z3.Or(rl[i] - rl[j] > z3.RealVal('1/8'), rl[j] - rl[i] > z3.RealVal('1/8')))
                        if s.check() == z3.sat:
                            m = s.model()
                        else:
                            s.pop()
        # restore: rebuild is simplest, we stop the path anyway
        if m is None:
            return None

        def vals_of(m):
            vals = {}
            for n, v in self.inputs.items():
                pv = val_to_py(m, v)
                vals[n] = float(pv) if isinstance(pv, Fraction) else pv
            return vals
        out = Violation(msg, vals_of(m), dict(self.choices), kind, key)
        # a second input with zeros where possible: differences below the precision of a float are only visible near zero
        s.pop(s.num_scopes() - base)
        s.push()
        s.add(neg)
        rl = [v for v in self.inputs.values() if z3.is_real(v)][:40]
        t0, m2 = time.time(), None
        for v in rl:
            s.push()
            s.add(v == 0)
            if time.time() - t0 < 5 and s.check() == z3.sat:
                m2 = s.model()
            else:
                s.pop()
        if m2 is not None:
            out.alts = [vals_of(m2)]
        return out

    def check(self, cond, msg, key=None, sep=None):
        """assert cond for every value on this path.  sep: optional z3 strengthening for replayability"""
        self.st.checks += 1
        if isinstance(cond, (bool, _np.bool_)):
            self.st.checks_trivial += 1
            if cond:
                return
            neg = z3.BoolVal(True)
        else:
            raw = z3.Not(bterm(cond))
            neg = z3.simplify(raw)
            if z3.is_false(neg):
                self.st.checks_trivial += 1
                self.deferred.append(raw)
                self._sample(msg, 'closed by the simplifier, confirmed by the query at the end of the path')
                return
        self.st.check_queries += 1
        r = self._sat(neg)
        if r == z3.unsat:
            self._sample(msg, 'unsat(not P)')
            return
        if r == z3.unknown:
            self.st.unknown += 1
            self.eng.errors.append('unknown: %s' % msg)
            return
        v = None
        if sep is not None and self._sat(sep) == z3.sat:
            v = self._model_violation(sep, msg, 'check', key)
        if v is None:
            v = self._model_violation(neg, msg, 'check', key)
        if v is None:
            self.eng.errors.append('no model: %s' % msg)
            raise Stop()
        self._report(v)
        raise Stop()

    def _sample(self, msg, how):
        if len(self.st.samples) < 4:
            self.st.samples.append('%s [%s]' % (msg, how))

    def eq(self, a, b, msg, key=None, tol=None):
        if isinstance(a, _np.ndarray) and a.shape == ():
            a = a.item()
        if isinstance(b, _np.ndarray) and b.shape == ():
            b = b.item()
        if not is_sym(a) and not is_sym(b):
            an, bn = special(a), special(b)
            if an or bn:
                ok = an and bn and ((math.isnan(a) and math.isnan(b)) or a == b)
            else:
                ok = abs(a - b) <= 1e-9 * (1 + abs(b))
            self.check(bool(ok), msg + ' (%r vs %r)' % (a, b), key)
            return
        for v in (a, b):
            if not is_sym(v) and special(v):
                self.check(False, msg + ' (%r vs %r)' % (a, b), key)
                return
        ta, tb = term(a), term(b)
        d = z3.RealVal('1/16')
        self.check(mkbool(ta == tb), msg, key, sep=z3.Or(ta - tb > d, tb - ta > d))

    def require(self, cond, msg, key=None):
        self.check(cond, msg, key)

    def exception(self, e):
        import traceback
        tb = traceback.format_exc(limit=-6)
        if self._sat() == z3.sat or True:
            v = self._model_violation(z3.BoolVal(True), 'unexpected %s: %s' % (type(e).__name__, str(e)[:200]), 'exception', None)
            if v is None:
                self.eng.errors.append('exception on a path with no model: %r\n%s' % (e, tb))
                return
            v.tb = tb
            self._report(v)


def _EMPTY_MODEL():
    s = z3.Solver()
    s.check()
    return s.model()


class CheckFailed(Exception):
    pass


class ConcreteCtx:
    """same interface, concrete values, used to replay a counterexample on the unpatched code"""
    symbolic = False

    def __init__(self, values, tol=1e-6):
        self.values = values
        self.tol = tol
        self.failed = []
        self.n_checks = 0

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = 0.0
        if lo is not None:
            d = max(d, float(lo))
        if hi is not None:
            d = min(d, float(hi))
        return float(self._get(name, d))

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def assume(self, c):
        if not c:
            raise Abort()

    def note(self, s):
        pass

    def check(self, cond, msg, key=None, sep=None):
        self.n_checks += 1
        if not bool(cond):
            self.failed.append(msg)
            raise CheckFailed(msg)

    require = check

    def eq(self, a, b, msg, key=None, tol=None):
        a, b = float(a), float(b)
        tol = self.tol if tol is None else tol
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= tol * (1 + abs(a) + abs(b))
        self.check(ok, '%s (%.17g vs %.17g)' % (msg, a, b), key)
