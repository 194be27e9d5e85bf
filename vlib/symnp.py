"""numpy as seen by the code under test while it is executed symbolically.

A module object that delegates to the installed numpy, except that floating point arrays become object
arrays (so that they can hold symbolic reals) and the few routines that need numbers (interp,
searchsorted, isnan, ...) are re-stated over symbolic reals from their numpy documentation.
These re-statements are part of the trusted base and are differentially tested by selftest.py.
"""
import builtins
import math
import types

import numpy as np

from . import symex
from .symex import Sym, SymReal, SymInt, SymBool, is_sym

REALNP = np
FLOATS = (float, np.float64, np.float32, np.float16, 'float', 'float64', 'f8', 'd', np.dtype('float64'),
          np.dtype('float32'))


def _dt(dt):
    """numba type used as a dtype (legal inside jitted code) -> numpy dtype"""
    if getattr(dt, '__name__', '') == 'FloatProxy' or dt is F64 or dt is symfloat:
        return float
    if dt is I64:
        return np.int64
    if dt is None or isinstance(dt, (type, str, np.dtype)):
        return dt
    if type(dt).__module__.startswith('numba'):
        from numba.np.numpy_support import as_dtype
        return as_dtype(dt)
    return dt


def _isfloatdt(dt):
    if dt is None:
        return False
    dt = _dt(dt)
    if isinstance(dt, type) and issubclass(dt, F64):
        return True
    if dt is symfloat:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(has_sym(e) for e in x.flat)
        return False
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def isobj(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def toobj(a):
    """ndarray of floats -> object array of python floats"""
    if a.dtype == object:
        return a
    o = np.empty(a.shape, dtype=object)
    if a.shape == ():
        o[()] = a.item()
    else:
        o[...] = a
    return o


def unobj(a):
    """object array without symbols -> float array (for numeric routines)"""
    if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a):
        try:
            return a.astype(float)
        except (TypeError, ValueError):
            return a
    return a


class F64Meta(type(np.float64)):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.float64, float)) or is_sym(o)


class F64(np.float64):
    def __new__(cls, x=0.0):
        if is_sym(x):
            return x
        if isinstance(x, (np.ndarray, list, tuple)):
            return NP.array(x, dtype=float)
        return np.float64(x)


class symfloat(float):
    """stand-in for the builtin float"""
    def __new__(cls, x=0.0):
        if is_sym(x):
            return x
        return float(x)


class I64(np.int64):
    def __new__(cls, x=0):
        if is_sym(x):
            return SymInt(x.t) if isinstance(x, SymInt) else _trunc(x)
        if isinstance(x, (np.ndarray, list, tuple)):
            return np.array(x, dtype=np.int64)
        return np.int64(x)


def _trunc(x):
    import z3
    t = symex.term(x)
    return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


class NPModule(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np, name)


NP = NPModule('numpy')
NP.__dict__['__path__'] = np.__path__
NP.__dict__['__version__'] = np.__version__
NP.__dict__['__file__'] = np.__file__


def _export(f):
    setattr(NP, f.__name__, f)
    return getattr(builtins, f.__name__, f)      # keep the builtins (any, all, sum, abs, ...) usable in this module


def _fl(dt):
    return dt is None or _isfloatdt(dt)


def _mk(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


@_export
def zeros(shape, dtype=None, order='C', **k):
    return _mk(shape, 0.0) if _fl(dtype) else np.zeros(shape, _dt(dtype))


@_export
def ones(shape, dtype=None, order='C', **k):
    return _mk(shape, 1.0) if _fl(dtype) else np.ones(shape, _dt(dtype))


@_export
def empty(shape, dtype=None, order='C', **k):
    # uninitialised memory: any value; NaN is used as a marker that would surface in comparisons
    return _mk(shape, float('nan')) if _fl(dtype) else np.empty(shape, _dt(dtype))


@_export
def full(shape, fill_value, dtype=None, **k):
    if is_sym(fill_value) or (dtype is None and isinstance(fill_value, (float, np.floating))) or _isfloatdt(dtype):
        return _mk(shape, fill_value)
    return np.full(shape, fill_value, _dt(dtype))


@_export
def zeros_like(a, dtype=None, **k):
    a_ = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a_.dtype == object or a_.dtype.kind == 'f':
        if dtype is None or _isfloatdt(dtype):
            return _mk(a_.shape, 0.0)
    return np.zeros_like(a, dtype=dtype)


@_export
def ones_like(a, dtype=None, **k):
    a_ = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a_.dtype == object or a_.dtype.kind == 'f':
        if dtype is None or _isfloatdt(dtype):
            return _mk(a_.shape, 1.0)
    return np.ones_like(a, dtype=dtype)


@_export
def empty_like(a, dtype=None, **k):
    a_ = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if (a_.dtype == object or a_.dtype.kind == 'f') and (dtype is None or _isfloatdt(dtype)):
        return _mk(a_.shape, float('nan'))
    return np.empty_like(a, dtype=dtype)


@_export
def full_like(a, v, dtype=None, **k):
    a_ = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a_.dtype == object or a_.dtype.kind == 'f' or is_sym(v):
        return _mk(a_.shape, v)
    return np.full_like(a, v, dtype=dtype)


def _norm_obj(a, dtype):
    """object array: unify element kinds for a float request"""
    return a


def _arr(obj, dtype, copy):
    dtype = _dt(dtype)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            if dtype is not None and not _isfloatdt(dtype) and dtype is not object:
                d = np.dtype(dtype)
                if has_sym(obj):
                    if d.kind in 'iu':
                        out = np.empty(obj.shape, dtype=object)
                        for i in np.ndindex(*obj.shape):
                            out[i] = I64(obj[i])
                        return out
                    if d.kind == 'b':
                        out = np.empty(obj.shape, dtype=bool)
                        for i in np.ndindex(*obj.shape):
                            out[i] = bool(obj[i])
                        return out
                return np.array(obj, dtype=dtype)
            return obj.copy() if copy else obj
        if _isfloatdt(dtype) or (dtype is None and obj.dtype.kind == 'f'):
            return toobj(obj.astype(float))
        return np.array(obj, dtype=dtype) if copy else np.asarray(obj, dtype=dtype)
    if has_sym(obj):
        if isinstance(obj, Sym):
            a = np.empty((), dtype=object)
            a[()] = obj
        else:
            a = np.array(obj, dtype=object)
        return _arr(a, dtype, False)
    if hasattr(obj, '__array__') and not isinstance(obj, (np.generic,)):
        return _arr(obj.__array__(), dtype, copy)
    a = np.array(obj) if dtype is None else np.array(obj, dtype=float if _isfloatdt(dtype) else dtype)
    if a.dtype.kind == 'f':
        return toobj(a)
    return a


@_export
def array(obj, dtype=None, copy=True, **k):
    return _arr(obj, dtype, True)


@_export
def asarray(obj, dtype=None, **k):
    return _arr(obj, dtype, False)


@_export
def ascontiguousarray(obj, dtype=None, **k):
    a = _arr(obj, dtype, False)
    return a if isobj(a) else np.ascontiguousarray(a)


@_export
def asanyarray(obj, dtype=None, **k):
    return _arr(obj, dtype, False)


@_export
def copy(a, **k):
    return _arr(a, None, True)


@_export
def linspace(a, b, num=50, **k):
    r = np.linspace(a, b, num, **k) if not (is_sym(a) or is_sym(b)) else None
    if r is None:
        n = num
        step = (b - a) / (n - 1)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = a + step * i
        return (out, step) if k.get('retstep') else out
    return r


def _el(a):
    return a.flat if isinstance(a, np.ndarray) else a


def _map1(f, x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = f(x[i])
        return out
    if is_sym(x):
        return f(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return _map1(f, array(x))
    return None


@_export
def isnan(x):
    r = _map1(lambda e: (not is_sym(e)) and bool(np.isnan(e)), x)
    if r is None:
        return np.isnan(x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


@_export
def isfinite(x):
    r = _map1(lambda e: is_sym(e) or bool(np.isfinite(e)), x)
    if r is None:
        return np.isfinite(x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


@_export
def isinf(x):
    r = _map1(lambda e: (not is_sym(e)) and bool(np.isinf(e)), x)
    if r is None:
        return np.isinf(x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


@_export
def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    if not (isobj(a) or isobj(b)):
        return np.array_equal(a, b)
    cond = True
    for x, y in zip(a.flat, b.flat):
        c = (x == y)
        if isinstance(c, SymBool):
            cond = c if cond is True else (cond & c)
        elif not c:
            return False
    return bool(cond) if not isinstance(cond, bool) else cond


def _close(x, y, rtol, atol):
    if not is_sym(x) and not is_sym(y):
        return bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol))
    return abs(x - y) <= (atol + rtol * abs(y))


@_export
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(unobj(a), unobj(b), rtol, atol)
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return _close(a, b, rtol, atol)
    a, b = np.broadcast_arrays(asarray(a), asarray(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = _close(a[i], b[i], rtol, atol)
    return out


@_export
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(all_(r))


def all_(r):
    if isinstance(r, np.ndarray):
        for e in r.flat:
            if not e:
                return False
        return True
    return bool(r)


@_export
def interp(x, xp, fp, left=None, right=None, period=None):
    """documented semantics: clamp outside, linear between; xp increasing"""
    if isinstance(x, np.ndarray) and x.shape != ():
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = interp(x[i], xp, fp, left, right)
        return out
    xs, fs = list(_el(asarray(xp))), list(_el(asarray(fp)))
    if len(xs) == 0:
        raise ValueError('array of sample points is empty')
    if len(xs) != len(fs):
        raise ValueError('fp and xp are not of the same length.')
    if not (is_sym(x) or has_sym(xs) or has_sym(fs)):
        return float(np.interp(float(x), np.array(xs, float), np.array(fs, float)))
    if not is_sym(x) and isinstance(x, float) and math.isnan(x):
        return x
    if x < xs[0]:
        return fs[0] if left is None else left
    if x > xs[-1]:
        return fs[-1] if right is None else right
    for i in range(len(xs) - 1):
        if x < xs[i + 1]:
            if x == xs[i]:
                return fs[i]
            return fs[i] + (fs[i + 1] - fs[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i]))
    return fs[-1]


@_export
def searchsorted(a, v, side='left', sorter=None):
    xs = list(_el(asarray(a)))
    if isinstance(v, (np.ndarray, list, tuple)) and not (isinstance(v, np.ndarray) and v.shape == ()):
        return np.array([searchsorted(a, e, side) for e in _el(v)], dtype=np.int64)
    if not (is_sym(v) or has_sym(xs)):
        return np.searchsorted(np.array(xs, float), float(v), side=side)
    n = 0
    for e in xs:   # a is sorted ascending
        if (e <= v) if side == 'right' else (e < v):
            n += 1
        else:
            break
    return n


def _reduce_minmax(name, strict):
    def f(a, axis=None, **k):
        if isinstance(a, np.ndarray) and a.dtype != object or not isinstance(a, (np.ndarray, list, tuple)):
            return getattr(np, name)(a, axis=axis, **k)
        a = asarray(a)
        if a.dtype != object:
            return getattr(np, name)(a, axis=axis, **k)
        if axis is not None:
            return np.apply_along_axis(lambda v: f(v), axis, a)
        vals = list(a.flat)
        m = vals[0]
        for e in vals[1:]:
            if (e > m) if strict else (e < m):
                m = e
        return m
    f.__name__ = name
    return f


for _n, _s in (('max', True), ('amax', True), ('min', False), ('amin', False)):
    setattr(NP, _n, _reduce_minmax(_n, _s))


def _unary(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            if not has_sym(x):
                return toobj(np.asarray(real(x.astype(float)))) if x.shape != () else real(float(x.item()))
            return _map1(lambda e: getattr(e, name)() if is_sym(e) else real(float(e)), x)
        if is_sym(x):
            return getattr(x if not isinstance(x, SymBool) else x._r(), name)()
        return real(x, *a, **k)
    f.__name__ = name
    return f


for _n in ('sin cos tan exp log log10 log2 sqrt arcsin arccos arctan sinh cosh tanh floor ceil expm1 log1p cbrt '
           'square fabs sign').split():
    setattr(NP, _n, _unary(_n))


@_export
def abs(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map1(lambda e: e.__abs__() if is_sym(e) else np.abs(e), x)
    if is_sym(x):
        return x.__abs__()
    return np.abs(x)


NP.absolute = abs


@_export
def sum(a, axis=None, **k):
    if is_sym(a):
        return a
    a_ = asarray(a)
    return a_.sum(axis=axis) if isobj(a_) else np.sum(a, axis=axis, **k)


@_export
def where(c, *args):
    if not args:
        if isobj(c):
            c = np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
        return np.where(c)
    x, y = args
    if not (has_sym(c) or has_sym(x) or has_sym(y) or isobj(c)):
        r = np.where(c, unobj(x), unobj(y))
        return toobj(r) if r.dtype.kind == 'f' and r.shape != () else r
    import z3
    c, x, y = np.broadcast_arrays(np.asarray(c, dtype=object), np.asarray(x, dtype=object),
                                  np.asarray(y, dtype=object))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        ci = c[i]
        if isinstance(ci, SymBool):
            out[i] = SymReal(z3.If(ci.t, symex.term(x[i]), symex.term(y[i])))
        else:
            out[i] = x[i] if ci else y[i]
    return out.item() if out.shape == () else out


@_export
def minimum(a, b):
    if has_sym(a) or has_sym(b):
        return where(asarray(a) <= asarray(b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else (a <= b), a, b)
    return np.minimum(unobj(a), unobj(b))


@_export
def maximum(a, b):
    if has_sym(a) or has_sym(b):
        return where(asarray(a) >= asarray(b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else (a >= b), a, b)
    return np.maximum(unobj(a), unobj(b))


@_export
def clip(a, lo, hi, **k):
    if has_sym(a) or has_sym(lo) or has_sym(hi):
        r = a
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        return r
    return np.clip(unobj(a), lo, hi, **k)


@_export
def argwhere(c):
    if isobj(c):
        c = np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
    return np.argwhere(c)


@_export
def nonzero(c):
    if isobj(c):
        c = np.array([bool(e) for e in c.flat], dtype=bool).reshape(c.shape)
    return np.nonzero(c)


@_export
def flatnonzero(c):
    return nonzero(np.ravel(c))[0]


@_export
def any(a, axis=None, **k):
    if is_sym(a):
        return bool(a)
    if isobj(a):
        if axis is None:
            for e in a.flat:
                if e:
                    return True
            return False
        return np.apply_along_axis(lambda v: NP.any(v), axis, a)
    return np.any(a, axis=axis, **k)


@_export
def all(a, axis=None, **k):
    if is_sym(a):
        return bool(a)
    if isobj(a):
        if axis is None:
            return all_(a)
        return np.apply_along_axis(lambda v: all_(v), axis, a)
    return np.all(a, axis=axis, **k)


@_export
def diff(a, n=1, **k):
    a = asarray(a)
    return a[1:] - a[:-1] if n == 1 and a.ndim == 1 else np.diff(a, n, **k)


@_export
def diag(v, k=0):
    v = asarray(v)
    if isobj(v) and v.ndim == 1:
        n = len(v)
        out = _mk((n, n), 0.0)
        for i in range(n):
            out[i, i] = v[i]
        return out
    return np.diag(v, k)


@_export
def eye(n, m=None, dtype=None, **k):
    out = _mk((n, m or n), 0.0)
    for i in range(min((n, m or n))):
        out[i, i] = 1.0
    return out


NP.identity = lambda n, dtype=None: eye(n)
NP.interp = interp


@_export
def not_equal(a, b):
    r = asarray(a) != asarray(b)
    return r


NP.float64 = F64
NP.float = F64
NP.int64 = I64
NP.double = F64
