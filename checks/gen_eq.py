"""deterministic enumeration of equation programs (the input space of C01 / C02 over programs; the values are symbolic)"""
import importlib.util
import os
import random
import sys

LEAF = ['scope.x', 'scope.y', 'scope.k', 'scope.p', 'scope.q', 'scope.c', 'a', 'b', '1.0', '2', '0.5', 'scope.global_vars.t']
HEAD = '''from numerous.multiphysics import Equation
from numerous.multiphysics.equation_decorators import NumerousFunction
from vlib.scn import Node


@NumerousFunction()
def gh(u, v):
    return u - 2 * v


@NumerousFunction()
def gp(u, v):
    if u > v:
        return u, v
    return v, u + 1


class G(Node):
    V = {'x': ('state', 1.0), 'y': ('state', 2.0), 'k': ('par', 3.0), 'p': ('par', 0.0), 'q': ('par', 0.0), 'c': ('const', 0.5)}

    @Equation()
    def eq(self, scope):
'''


class Gen:
    def __init__(self, seed, llvm=False):
        self.r = random.Random(seed)
        self.llvm = llvm

    def leaf(self):
        return self.r.choice(LEAF)

    def E(self, d=1):
        r = self.r.random()
        if d <= 0 or r < .25:
            return self.leaf()
        if r < .6:
            return '%s %s %s' % (self.E(d - 1), self.r.choice('+-'), self.P(d - 1))
        if r < .7:
            return '%s * %s' % (self.r.choice(['2', '0.5', '-1.5']), self.P(d - 1))
        if r < .75:
            return '%s / 4' % self.P(d - 1)
        if r < .82:
            return '-%s' % self.P(d - 1)
        if r < .9:
            return 'gh(%s, %s)' % (self.E(d - 1), self.E(d - 1))
        if r < .93:
            return '%s * %s' % (self.leaf(), self.leaf())
        return '(%s if %s else %s)' % (self.E(d - 1), self.C(0), self.E(d - 1))

    def P(self, d):
        return '(%s)' % self.E(d) if d > 0 else self.leaf()

    def C(self, d=1):
        r = self.r.random()
        if d <= 0 or r < .6:
            return '%s %s %s' % (self.leaf(), self.r.choice(['<', '<=', '>', '>=', '==', '!=', '<', '>']), self.leaf())
        if r < .72:
            return '(%s) and (%s)' % (self.C(d - 1), self.C(d - 1))
        if r < .84:
            return '(%s) or (%s)' % (self.C(d - 1), self.C(d - 1))
        if r < .92:
            return 'not (%s)' % self.C(d - 1)
        return '%s < %s <= %s' % (self.leaf(), self.leaf(), self.leaf())

    def T(self):
        return self.r.choice(['a', 'b', 'scope.p', 'scope.q', 'a', 'b'])

    def S(self, depth=1):
        """lines of one statement"""
        r = self.r.random()
        if r < .34:
            return ['%s = %s' % (self.T(), self.E(2))]
        if r < .46:
            return ['%s %s %s' % (self.T(), self.r.choice(['+=', '-=', '*=']), self.E(1) if self.r.random() < .5 else '2')]
        if r < .54:
            t = self.r.sample(['a', 'b', 'scope.p', 'scope.q'], 2)
            return ['%s, %s = %s, %s' % (t[0], t[1], self.E(1), self.E(1))]
        if r < .58:
            t = self.r.sample(['a', 'b', 'scope.p', 'scope.q'], 2)
            return ['%s, %s = gp(%s, %s)' % (t[0], t[1], self.E(0), self.E(0))]
        if r < .64:
            t = self.r.sample(['a', 'b', 'scope.p', 'scope.q'], 2)
            return ['%s = %s = %s' % (t[0], t[1], self.E(1))]
        if depth <= 0:
            return ['%s = %s' % (self.T(), self.E(1))]
        out = ['if %s:' % self.C(1)]
        for _ in range(self.r.choice([1, 1, 2])):
            out += ['    ' + l for l in self.S(depth - 1)]
        if self.r.random() < .25:
            out += ['elif %s:' % self.C(0)] + ['    ' + l for l in self.S(depth - 1)]
        if self.r.random() < .5:
            out += ['else:'] + ['    ' + l for l in self.S(depth - 1)]
        return out

    def program(self, n=3, depth=2):
        body = ['a = scope.x', 'b = scope.k - 1']
        for _ in range(n):
            body += self.S(depth)
        body += ['scope.x_dot = a', 'scope.y_dot = b - a']
        if not any('scope.p' in l.split('=')[0] for l in body):
            body.append('scope.p = a + b')
        if not any('scope.q' in l.split('=')[0] for l in body):
            body.append('scope.q = scope.p')
        return HEAD + '\n'.join('        ' + l for l in body) + '\n'


def make(seed, **kw):
    src = Gen(seed).program(**kw)
    name = 'geneq_%d' % seed
    path = os.path.join(os.getcwd(), name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    import linecache
    linecache.checkcache(path)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod.G, src
