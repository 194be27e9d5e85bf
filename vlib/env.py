"""process set-up: import the code under test from /repo and (symbolic processes only) route its numpy,
ctypes, llvmlite and numba entry points through the symbolic stand-ins"""
import builtins
import importlib
import os
import pkgutil
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def base_paths():
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def quiet():
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


def fix_namespace_pkg():
    """numerous is a namespace shared by /repo (numerous.engine) and site-packages (numerous.solver)"""
    import numerous  # noqa


def import_repo():
    """import every module of the engine package, so that patches reach all of them"""
    import numerous.engine.model
    import numerous.engine.simulation
    import numerous.engine.system
    import numerous.multiphysics
    mods = []
    root = os.path.join(REPO, 'numerous')
    for base, pkg in (('engine', 'numerous.engine'), ('multiphysics', 'numerous.multiphysics'), ('utils', 'numerous.utils')):
        d = os.path.join(root, base)
        if not os.path.isdir(d):
            continue
        for mi in pkgutil.walk_packages([d], pkg + '.'):
            try:
                importlib.import_module(mi.name)
            except Exception:      # optional modules (fmu, ...) may need things that are absent
                pass
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and os.path.realpath(f).startswith(os.path.realpath(root) + os.sep):
            mods.append(m)
    assert mods, 'no module of /repo was imported'
    return mods


_counter = [0]


def reset_ids():
    _counter[0] = 1000000      # apart from the ids of the equations of the check modules


def _fake_uuid(*a, **k):
    import uuid
    _counter[0] += 1
    return uuid.UUID(int=(0xabc << 116) + _counter[0])


_real_import = builtins.__import__
_LIB = ('/site-packages/', '/lib/python3')


def _hook(np_shim):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = _real_import(name, globals, locals, fromlist, level)
        if level == 0 and (name == 'numpy' or name.startswith('numpy.')) and globals is not None:
            f = globals.get('__file__') or ''
            n = globals.get('__name__') or ''
            if not any(x in f for x in _LIB) and not n.startswith(('numba', 'pandas', 'numpy', 'llvmlite', '_frozen', 'importlib', 'vlib', 'checks')) \
                    and (f == '' or f.startswith(REPO)):
                if m is sys.modules['numpy']:
                    return np_shim
        return m
    return imp


_done = [False]


def fresh(concrete=False):
    """called before every execution of a scenario"""
    if not concrete:
        reset_ids()
        import random
        random.seed(1)
        from . import llvmsym, sympd, symex
        symex._PICKLED.clear()
        llvmsym.reset()
        sympd.reset()


def setup_symbolic(llvm=True):
    if _done[0]:
        return
    _done[0] = True
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    base_paths()
    import random
    random.seed(1)
    import uuid
    uuid.uuid1 = _fake_uuid
    uuid.uuid4 = _fake_uuid
    # libraries first, with the real numpy
    import numpy as np
    import numba
    import numba.experimental
    import pandas
    import networkx, tqdm  # noqa
    quiet()
    from . import symex, symnp
    # the external solver asks numba for the type of what is assigned to its objects
    from numba.core.typing.typeof import typeof_impl
    typeof_impl.register(symex.SymNum)(lambda v, c: numba.types.float64)
    if llvm:
        from . import llvmsym
        llvmsym.install()
    import numerous.solver  # noqa  external package
    from . import sympd
    sympd.install()
    mods = import_repo()
    for m in mods:
        patch_module(m, np, symnp.NP)
    if llvm:
        llvmsym.patch(mods)
    builtins.__import__ = _hook(symnp.NP)
    patch_builtins(mods)
    return mods


def patch_check_modules():
    import numpy as np
    from . import symnp
    for n, m in list(sys.modules.items()):
        if n.startswith('checks.') or n in ('vlib.scn',):
            patch_module(m, np, symnp.NP)


def patch_module(m, np, shim):
    from . import symnp
    for k, v in list(vars(m).items()):
        if v is np:
            setattr(m, k, shim)
        elif isinstance(v, types.ModuleType) and v.__name__ == 'numpy':
            setattr(m, k, shim)
        elif callable(v) and getattr(v, '__module__', '') and str(getattr(v, '__module__', '')).startswith('numpy') \
                and k in vars(shim) and getattr(np, k, None) is v:
            setattr(m, k, vars(shim)[k])


def patch_builtins(mods):
    from . import symnp, symex

    def s_float(x=0.0):
        if symex.is_sym(x):
            return x
        return float(x)
    for m in mods:
        # float(x) on a symbolic value keeps it symbolic;  isinstance(x, float) still works through the class
        if 'float' not in vars(m):
            m.float = FloatProxy


class _FM(type):
    def __instancecheck__(cls, o):
        from . import symex
        return isinstance(o, float) or isinstance(o, symex.SymReal)

    def __call__(cls, x=0.0):
        from . import symex
        if symex.is_sym(x):
            return x
        return float(x)


class FloatProxy(metaclass=_FM):
    pass


def setup_concrete():
    base_paths()
    quiet()
    import_repo()
