"""symbolic execution of the LLVM IR that the repository generates.

The repository emits IR as text (llvmlite), hands it to llvm.parse_assembly, adds the module to an MCJIT engine and calls
kernel / vars_r / vars_w through ctypes.  In a symbolic process the text is still parsed and verified by the real
llvm.parse_assembly, but the pass manager does nothing and the engine hands out an interpreter of the parsed module whose
memory cells may hold symbolic reals; equation functions (numba cfuncs) stay the Python functions they are compiled from.
A symbol that is defined by several modules refers to the module that was finalized last, as in MCJIT.
"""
import re
import struct
import types

from . import symex

_TOK = {}          # bits of a placeholder constant -> symbolic value
_CF = {}           # native name -> stub of a cfunc
_n = [0]


class IRError(Exception):
    pass


def reset():
    _TOK.clear()
    _CF.clear()
    _n[0] = 0
    for e in _ENGINES:
        e.reset()


# ---------------------------------------------------------------- memory
class Mem:
    def __init__(self, cells, name=''):
        self.cells = cells
        self.name = name

    def get(self, i):
        if 0 <= i < len(self.cells):
            v = self.cells[i]
            if hasattr(v, 'item') and not symex.is_sym(v):
                v = v.item()
            return v
        return _outside(self.name, i)

    def set(self, i, v):
        if 0 <= i < len(self.cells):
            self.cells[i] = v
        else:
            _outside(self.name, i)


def _outside(name, i):
    """a cell outside of the memory of an object may hold anything"""
    import z3
    _n[0] += 1
    return symex.SymReal(z3.Real('outside_%s_%d_%d' % (name, i, _n[0])))


class Ptr:
    def __init__(self, mem, off=0):
        self.mem, self.off = mem, off


def as_ptr(x):
    if isinstance(x, Ptr):
        return x
    a = getattr(x, '_arr', None)       # ndarray.ctypes
    if a is not None:
        return Ptr(Mem(a, 'argument'))
    if hasattr(x, 'ctypes'):
        return as_ptr(x.ctypes)
    raise IRError('pointer %r' % (x,))


class View:
    """carray(pointer, shape): the cells behind a pointer"""

    def __init__(self, p, shape):
        self.p = p
        self.n = int(shape[0] if isinstance(shape, tuple) else shape)
        if isinstance(shape, tuple) and len(shape) != 1:
            raise IRError('carray with shape %r' % (shape,))

    def __len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def _i(self, i):
        i = int(i)
        if not -self.n <= i < self.n:
            raise IndexError(i)
        return i % self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.copy()[i]
        return self.p.mem.get(self.p.off + self._i(i))

    def __setitem__(self, i, v):
        self.p.mem.set(self.p.off + self._i(i), v)

    def __iter__(self):
        return iter([self[i] for i in range(self.n)])

    def copy(self):
        from . import symnp
        return symnp.NP.array([self[i] for i in range(self.n)])

    def __array__(self, dtype=None):
        return self.copy()


def carray(p, shape, dtype=None):
    return View(as_ptr(p), shape)


# ---------------------------------------------------------------- cfuncs
class CFunc:
    def __init__(self, fn, sig):
        self.fn = fn
        self.sig = str(sig)
        _n[0] += 1
        self.native_name = 'cfunc.%s.%d' % (fn.__name__, _n[0])
        self.address = id(self)
        self.__name__ = fn.__name__
        _CF[self.native_name] = self
        m = re.match(r'\s*void\s*\((.*)\)\s*$', self.sig)
        self.kinds = None
        if m:
            a = [x.strip() for x in re.findall(r'CPointer\(\w+\)|\w+', m.group(1))]
            self.kinds = [x.startswith('CPointer') for x in a]

    def inspect_llvm(self):
        return '; cfunc %s\n' % self.native_name

    def __call__(self, *a):
        return self.fn(*a)

    def call_native(self, args):
        if self.kinds is not None:
            if len(self.kinds) != len(args):
                raise IRError('%s is called with %d arguments' % (self.native_name, len(args)))
            for k, v in zip(self.kinds, args):
                if k != isinstance(v, Ptr):
                    raise IRError('%s is called with a pointer for a value' % self.native_name)
        self.fn(*args)


def cfunc(sig=None, *a, **k):
    def deco(fn):
        return CFunc(fn, sig)
    return deco


# ---------------------------------------------------------------- IR
_NAME = r'(?:"[^"]*"|[-\w$.]+)'
_VAR = r'[%@]' + _NAME


def _bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def token(sym):
    """the text of a constant that stands for a symbolic value (a signalling nan with a number)"""
    _n[0] += 1
    b = 0x7FF4000000000000 + len(_TOK) + 1
    _TOK[b] = sym
    return '0x%016X' % b


def _fconst(s):
    if s.startswith('0x'):
        b = int(s, 16)
        if b in _TOK:
            return _TOK[b]
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return float(s)


def _split(s):
    """split at commas outside of brackets and quotes"""
    out, d, cur, q = [], 0, '', False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                d -= 1
            elif c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def _name(s):
    return s.replace('"', '')


_TY = re.compile(r'\s*((?:\[\d+ x \w+\]|\w+)\**(?:\s*\([^()]*\)\**)?)\s+(.*)$', re.S)
_ATTR = ('noundef', 'nocapture', 'readonly', 'writeonly', 'noalias', 'signext', 'zeroext', 'immarg', 'nonnull')


class Fn:
    def __init__(self, name, params, body):
        self.name = name
        self.params = params
        self.blocks = {}
        self.first = None
        cur = None
        for ln in body:
            s = ln.split(';')[0].rstrip() if '"' not in ln else re.sub(r'\s;\s.*$', '', ln).rstrip()
            if not s.strip():
                continue
            m = re.match(r'^(%s):' % _NAME, s)
            if m:
                cur = _name(m.group(1))
                self.blocks[cur] = []
            else:
                if cur is None:
                    cur = '#entry'
                    self.blocks[cur] = []
                self.blocks[cur].append(s.strip())
            if self.first is None:
                self.first = cur


class Module:
    """a parsed module with its own memory"""

    def __init__(self, text):
        self.text = text
        self.globals = {}
        self.fns = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'^(@%s)\s*=\s*(.*)$' % _NAME, ln)
            if m:
                self._global(_name(m.group(1)), m.group(2))
            m = re.match(r'^define\s+.*?(@%s)\s*\((.*?)\)[^()]*\{?\s*$' % _NAME, ln)
            if m:
                j = i + 1
                while lines[j].strip() != '}':
                    j += 1
                params = [_name(re.findall(_VAR, p)[-1]) if re.findall(_VAR, p) else '%%%d' % k
                          for k, p in enumerate(_split(m.group(2)))]
                body = [x for x in lines[i + 1:j] if x.strip() != '{']
                self.fns[_name(m.group(1))[1:]] = Fn(_name(m.group(1)), params, body)
                i = j
            i += 1

    def _global(self, name, rest):
        m = re.search(r'\bglobal\s+(\[\d+ x \w+\]|\w+)\s*(.*)$', rest) or re.search(r'\bconstant\s+(\[\d+ x \w+\]|\w+)\s*(.*)$', rest)
        if not m:
            raise IRError('global %s = %s' % (name, rest))
        ty, init = m.group(1), re.sub(r',\s*align \d+\s*$', '', m.group(2)).strip()
        a = re.match(r'\[(\d+) x (\w+)\]', ty)
        if a:
            n = int(a.group(1))
            if init in ('zeroinitializer', 'undef'):
                cells = [0.0] * n
            else:
                if not (init.startswith('[') and init.endswith(']')):
                    raise IRError('initializer %s' % init)
                cells = [_fconst(x.split(None, 1)[1]) for x in _split(init[1:-1])]
            if len(cells) != n:
                raise IRError('initializer of %s' % name)
        else:
            cells = [_fconst(init)]
        self.globals[name] = Mem(cells, name.strip('@'))

    # ------------------------------------------------------------ execution
    def val(self, ty, s, env):
        s = s.strip()
        if s.startswith('%') or s.startswith('@'):
            k = _name(s)
            if k in env:
                return env[k]
            if k in self.globals:
                return Ptr(self.globals[k])
            raise IRError('value %s' % s)
        m = re.match(r'getelementptr\s+(?:inbounds\s+)?\((.*)\)$', s, re.S)
        if m:
            return self.gep(m.group(1), env)
        if s in ('undef', 'poison', 'null'):
            return 0
        if s in ('true', 'false'):
            return int(s == 'true')
        if ty.startswith('i'):
            return int(s)
        return _fconst(s)

    def tv(self, s, env):
        """'type value'"""
        s = s.strip()
        m = _TY.match(s)
        if not m:
            raise IRError('operand %s' % s)
        rest = m.group(2)
        while rest.split(None, 1)[0] in _ATTR:
            rest = rest.split(None, 1)[1]
        return self.val(m.group(1), rest, env)

    def gep(self, s, env):
        parts = _split(s)
        p = as_ptr(self.tv(parts[1], env))
        ix = [self.tv(x, env) for x in parts[2:]]
        ix = [symex_int(x) for x in ix]
        a = re.match(r'\[(\d+) x \w+\]', parts[0])
        if a:
            off = ix[0] * int(a.group(1)) + (ix[1] if len(ix) > 1 else 0)
        else:
            off = ix[0]
            if len(ix) > 1:
                raise IRError('getelementptr %s' % s)
        return Ptr(p.mem, p.off + off)

    def call(self, name, args):
        fn = self.fns[name]
        if len(args) != len(fn.params):
            raise IRError('%s is called with %d arguments' % (name, len(args)))
        env = dict(zip(fn.params, args))
        cur, prev = fn.first, None
        steps = 0
        while True:
            nxt = None
            phis = {}
            for s in fn.blocks[cur]:
                steps += 1
                if steps > 200000:
                    raise symex.Hang('llvm kernel')
                m = re.match(r'^(%s)\s*=\s*(.*)$' % _VAR, s, re.S)
                dst, op = (_name(m.group(1)), m.group(2)) if m else (None, s)
                w = op.split(None, 1)
                k, rest = w[0], (w[1] if len(w) > 1 else '')
                while k in ('tail', 'musttail', 'notail'):
                    w = rest.split(None, 1)
                    k, rest = w[0], w[1]
                rest = re.sub(r',\s*align \d+', '', rest)
                rest = re.sub(r',\s*![\w.]+ !\d+', '', rest)
                if k == 'phi':
                    ty, body = rest.split(None, 1)
                    if ty.startswith('['):
                        raise IRError(s)
                    for part in _split(body):
                        v, b = _split(part.strip()[1:-1])
                        b = _name(b)[1:]
                        if b == prev or (prev == '#entry' and b not in fn.blocks):
                            phis[dst] = self.val(ty, v, env)
                            break
                    else:
                        raise IRError(s)
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                if k == 'getelementptr':
                    env[dst] = self.gep(re.sub(r'^inbounds\s+', '', rest), env)
                elif k == 'load':
                    p = self.tv(_split(rest)[1], env)
                    env[dst] = p.mem.get(p.off)
                elif k == 'store':
                    a = _split(rest)
                    v, p = self.tv(a[0], env), self.tv(a[1], env)
                    p.mem.set(p.off, v)
                elif k == 'br':
                    a = _split(rest)
                    if len(a) == 1:
                        nxt = _name(a[0].split(None, 1)[1])[1:]
                    else:
                        c = self.tv(a[0], env)
                        nxt = _name(a[1 if c else 2].split(None, 1)[1])[1:]
                elif k == 'ret':
                    if rest.strip() == 'void':
                        return None
                    return self.tv(rest, env)
                elif k == 'call':
                    m = re.match(r'(?:fast\s+|nnan\s+|contract\s+)*(.*?)(@%s)\s*\((.*)\)[^()]*$' % _NAME, rest, re.S)
                    if not m:
                        raise IRError(s)
                    args = [self.tv(x, env) for x in _split(m.group(3))]
                    f = _name(m.group(2))[1:]
                    if f in self.fns:
                        env[dst] = self.call(f, args)
                    elif f in _CF:
                        _CF[f].call_native(args)
                    else:
                        raise IRError('call of %s' % f)
                elif k == 'alloca':
                    a = _split(rest)
                    n = re.match(r'\[(\d+) x', a[0])
                    env[dst] = Ptr(Mem([0] * (int(n.group(1)) if n else 1), 'local'))
                elif k in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv'):
                    rest = re.sub(r'^(?:(?:nsw|nuw|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+', '', rest)
                    ty, body = rest.split(None, 1)
                    a, b = [self.val(ty, x, env) for x in _split(body)]
                    env[dst] = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[k.lstrip('f') if k != 'fdiv' else 'mul']() \
                        if k != 'fdiv' else a / b
                elif k == 'fneg':
                    ty, body = rest.split(None, 1)
                    env[dst] = -self.val(ty, body, env)
                elif k in ('icmp', 'fcmp'):
                    pr, ty, body = rest.split(None, 2)
                    a, b = [self.val(ty, x, env) for x in _split(body)]
                    pr = pr.lstrip('o') if k == 'fcmp' and pr.startswith('o') else pr
                    if k == 'icmp' and pr.startswith('u'):
                        # 64 bit unsigned
                        a, b = a % (1 << 64), b % (1 << 64)
                    pr = pr[1:] if len(pr) == 3 else pr
                    env[dst] = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                                'gt': lambda: a > b, 'ge': lambda: a >= b}[pr]()
                elif k == 'select':
                    a = _split(rest)
                    env[dst] = self.tv(a[1], env) if self.tv(a[0], env) else self.tv(a[2], env)
                elif k in ('bitcast', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
                    env[dst] = self.tv(rest.split(' to ')[0], env)
                elif k == 'unreachable':
                    raise IRError('unreachable')
                else:
                    raise IRError('instruction %s' % s)
            if nxt is None:
                raise IRError('block %s has no terminator' % cur)
            prev, cur = cur, nxt


def symex_int(x):
    if isinstance(x, int):
        return x
    return int(x)


# ---------------------------------------------------------------- binding
class ModuleRef:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def verify(self):
        pass

    @property
    def name(self):
        return ''


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pending, self.table, self.handles = [], {}, {}

    def add_module(self, m):
        self.pending.append(Module(m.text))

    def remove_module(self, m):
        pass

    def finalize_object(self):
        for mod in self.pending:
            for f in mod.fns:
                self.table[f] = (mod, f)
        self.pending = []

    def run_static_constructors(self):
        pass

    def get_function_address(self, name):
        self.finalize_object()
        if name not in self.table:
            return 0
        h = 0x1000 + len(_HANDLES)
        _HANDLES[h] = self.table[name]
        return h

    def get_global_value_address(self, name):
        raise IRError('address of a global')


_HANDLES = {}
_ENGINES = []


class _PM:
    opt_level = 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None

    def run(self, *a, **k):
        return False


class Binding(types.ModuleType):
    """llvmlite.binding with the real parser and verifier"""

    def __init__(self, real):
        super().__init__('llvmlite.binding')
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)

    def parse_assembly(self, text, context=None):
        text = str(text)
        if text in _PARSED:
            return ModuleRef(_PARSED[text])
        m = self.__dict__['_real'].parse_assembly(text)
        m.verify()
        _PARSED.clear()
        _PARSED[text] = out = str(m)
        if text.startswith('; cfunc'):
            out = text
        return ModuleRef(out)

    def create_pass_manager_builder(self):
        return _PM()

    def create_module_pass_manager(self):
        return _PM()

    def add_symbol(self, name, address):
        return address

    def create_mcjit_compiler(self, module, tm):
        e = Engine()
        _ENGINES.append(e)
        if isinstance(module, ModuleRef):
            e.add_module(module)
        return e


_PARSED = {}


def CFUNCTYPE(restype, *argtypes, **kw):
    def make(address):
        if address not in _HANDLES:
            raise IRError('no function at %r' % (address,))
        mod, f = _HANDLES[address]

        def call(*args):
            if len(args) != len(argtypes):
                raise TypeError('this function takes %d arguments' % len(argtypes))
            a = [as_ptr(x) if _is_pointer(t) else x for x, t in zip(args, argtypes)]
            return mod.call(f, a)
        return call
    return make


def _is_pointer(t):
    import ctypes
    return isinstance(t, type) and issubclass(t, ctypes._Pointer)


def install():
    """before the repository is imported"""
    import ctypes
    import llvmlite
    import llvmlite.binding as real
    import llvmlite.ir.types as it
    import numba
    proxy = Binding(real)
    fmt = it.DoubleType.format_constant

    def format_constant(self, value):
        if symex.is_sym(value):
            return token(value)
        return fmt(self, value)
    it.DoubleType.format_constant = format_constant
    numba.cfunc = cfunc
    numba.carray = carray
    _saved.update(proxy=proxy, real=real, ctypes=ctypes.CFUNCTYPE)


_saved = {}


def patch(mods):
    """after the repository was imported"""
    import llvmlite.binding as real
    from llvmlite.binding.executionengine import ExecutionEngine as tm
    engines = {}
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is real:
                setattr(m, k, _saved['proxy'])
            elif v is _saved['ctypes']:
                setattr(m, k, CFUNCTYPE)
            elif isinstance(v, tm):
                if id(v) not in engines:
                    engines[id(v)] = e = Engine()
                    _saved.setdefault('alive', []).append(v)     # owns the target machine
                    _ENGINES.append(e)
                setattr(m, k, engines[id(v)])
            elif isinstance(v, types.ModuleType) and v.__name__ == 'ctypes':
                w = types.ModuleType('ctypes')
                w.__dict__.update(v.__dict__)
                w.CFUNCTYPE = CFUNCTYPE
                setattr(m, k, w)
