"""deterministic enumeration of event functions (conditions and actions) and of the events of a system"""
import importlib.util
import linecache
import os
import random
import sys


class GenEv:
    """one function over the named variables; every function is made by a factory with closure variables
    `path` (prefix of names) and `gain`, so that events share these names with different values"""

    def __init__(self, r, names, prefix):
        self.r, self.names, self.prefix = r, names, prefix
        self.known = {}          # local path names assigned so far
        self.locals = []
        self.lines = []
        self.nloc = 0

    def ref(self, reuse=True):
        """source text of a reference to one variable"""
        n = self.r.choice(self.names)
        k = self.r.random()
        if k < .5:
            return "v[%r]" % n
        if reuse and self.known and k < .75:
            return 'v[%s]' % self.r.choice(sorted(self.known))
        return "v[%r]" % n

    def decl(self, ind):
        n = self.r.choice(self.names)
        nm = self.r.choice(['pos', 'vel', 'q%d' % len(self.known)])
        if self.prefix and n.startswith(self.prefix) and self.r.random() < .6:
            self.lines.append('%s%s = path + %r' % (ind, nm, n[len(self.prefix):]))
        else:
            self.lines.append('%s%s = %r' % (ind, nm, n))
        self.known[nm] = n

    def leaf(self):
        k = self.r.random()
        if k < .6:
            return self.ref()
        if k < .7:
            return 't'
        if k < .8:
            return 'gain'
        if k < .9 and self.locals:
            return self.r.choice(self.locals)
        return self.r.choice(['1.0', '2', '0.5', '-3.0'])

    def E(self, d=1):
        k = self.r.random()
        if d <= 0 or k < .3:
            return self.leaf()
        if k < .75:
            return '%s %s (%s)' % (self.E(d - 1), self.r.choice('+-'), self.E(d - 1))
        if k < .9:
            return '%s * (%s)' % (self.r.choice(['2', '0.5', 'gain']), self.E(d - 1))
        return '-(%s)' % self.E(d - 1)

    def S(self, ind, depth, target):
        k = self.r.random()
        if k < .2:
            self.decl(ind)
        if k < .65:
            self.lines.append('%s%s = %s' % (ind, target(), self.E(2)))
        elif k < .75:
            self.lines.append('%s%s %s %s' % (ind, target(), self.r.choice(['+=', '-=', '*=']), self.r.choice(['2', 'gain', '0.5'])))
        elif k < .85 or depth <= 0:
            # a constant
            self.lines.append('%s%s = %s' % (ind, target(), self.r.choice(['0.0', '1', '2.5', 'gain + 1', 'gain * 2', '1 - 3', 't'])))
        else:
            self.lines.append('%sif %s %s %s:' % (ind, self.leaf(), self.r.choice(['<', '>', '<=', '==', '!=']), self.leaf()))
            kn, lo = dict(self.known), list(self.locals)
            self.S(ind + '    ', depth - 1, target)
            end1 = self.known
            self.known, self.locals = dict(kn), list(lo)
            if self.r.random() < .6:
                self.lines.append('%selse:' % ind)
                self.S(ind + '    ', depth - 1, target)
            # a name that holds different paths after the branches is refused by the code under test
            self.known = {k: v for k, v in kn.items() if end1.get(k) == v and self.known.get(k) == v}
            self.locals = lo

    def local(self):
        self.nloc += 1
        n = 'a%d' % self.nloc
        self.locals.append(n)
        return n

    def action(self, n):
        for _ in range(self.r.choice([0, 1, 2])):
            self.decl('    ')
        if self.r.random() < .4:
            e = self.E(1)
            self.lines.append('    %s = %s' % (self.local(), e))
        for _ in range(n):
            self.S('    ', 1, lambda: self.ref())
        return self.lines

    def condition(self):
        for _ in range(self.r.choice([0, 1, 2])):
            self.decl('    ')
        if self.r.random() < .4:
            e = self.E(1)
            self.lines.append('    %s = %s' % (self.local(), e))
        self.lines.append('    return %s' % self.E(2))
        return self.lines


def factory(name, lines):
    return 'def make_%s(path, gain):\n    def %s(t, v):\n%s\n    return %s\n\n\n' % (
        name, name, '\n'.join('    ' + l for l in lines), name)


def load(src, name):
    path = os.path.join(os.getcwd(), name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    linecache.checkcache(path)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def relative(paths, owner):
    """names usable in an event of `owner` (path of an item or subsystem; None for the model)"""
    if owner is None:
        return list(paths), {p: p for p in paths}
    pre = owner + '.'
    m = {p[len(pre):]: p for p in paths if p.startswith(pre)}
    m.update({p: p for p in paths if not p.startswith(pre)})
    return sorted(m), m
