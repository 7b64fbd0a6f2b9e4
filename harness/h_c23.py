# C23: post-import hooks run exactly once per registration
import sys
import types
import pyamf
from pyamf import adapters
from pyamf.util import imports

BOUNDS = ('every history of 4 (thorough: 5) operations out of: registering a hook that keeps count, raises, imports the other module or registers '
          'again; importing either module; removing a module; over two modules and a module in a package, whose code runs through, fails '
          'the first time, fails always, imports the other module (first or last) or registers hooks; hooks for modules that do not exist')
ASSUMPTIONS = ['a module whose code registers a hook for itself counts as imported already unless hooks were waiting for it']
PRELOAD = ['pyamf.util.imports', 'pyamf.adapters']


class Boom(Exception):
    pass


class World(object):
    """modules made of thin air"""

    def __init__(self, s):
        self.s = s
        self.bodies = {}
        self.runs = {}
        self.regs = []
        self.raised = []
        self.busy = 0
        sys.meta_path.append(self)

    def find_module(self, name, path=None):
        if name in self.bodies:
            return self

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        m = types.ModuleType(name)
        m.done = False
        if name == 'vm_p':
            m.__path__ = ['/nowhere']
        sys.modules[name] = m
        self.runs[name] = self.runs.get(name, 0) + 1
        try:
            self.bodies[name](m, self.runs[name])
        except:
            del sys.modules[name]
            raise
        m.done = True
        return m

    def fail(self, what):
        self.raised.append(what)
        raise Boom(what)

    def register(self, name, kind, other):
        imported = sys.modules.get(name)
        partial = imported is not None and not imported.done
        waiting = [r for r in self.regs if r.name == name and not r.args]
        r = Registration(self, name, kind, other, partial and not waiting)
        self.regs.append(r)
        result = imports.when_imported(name, r)
        if imported is None:
            self.s.check(result is None, 'no module yet')
        elif not self.busy:
            self.s.check(result is imported, 'the module is returned')

    def op(self, f, *args):
        """runs f; everything that is due has happened afterwards, and nothing else"""
        del self.raised[:]
        try:
            f(*args)
        except Boom:
            self.s.check(len(self.raised) > 0, 'failed')
        else:
            self.s.check(len(self.raised) == 0, 'did not fail')
        self.check()

    def check(self):
        last = {}
        for r in self.regs:
            if r.name in sys.modules:
                r.due = True
            if r.due:
                self.s.check(len(r.args) == 1, 'ran once')
                m = r.args[0]
                self.s.check(m.__name__ == r.name, 'with the module')
                if not r.inside:
                    self.s.check(m.done, 'after the import')
                self.s.check(not r.name in last or last[r.name] < r.order, 'in order of registration')
                last[r.name] = r.order
            else:
                self.s.check(len(r.args) == 0, 'not run yet')


class Registration(object):
    clock = [0]

    def __init__(self, world, name, kind, other, inside):
        self.world, self.name, self.kind, self.other, self.inside = world, name, kind, other, inside
        self.args = []
        self.due = False

    def __call__(self, m):
        self.args.append(m)
        self.clock[0] += 1
        self.order = self.clock[0]
        self.world.s.check(sys.modules.get(self.name) is m, 'the module that was imported')
        if self.kind == 'raise':
            self.world.fail('hook')
        elif self.kind == 'import':
            __import__(self.other)
        elif self.kind == 'register':
            self.world.busy += 1
            self.world.register(self.name, 'count', None)
            self.world.busy -= 1


def body(w, kind, other):
    def f(m, n):
        if kind == 'fails first' and n == 1 or kind == 'fails':
            w.fail('body')
        if kind == 'import':
            __import__(other)
        elif kind == 'import and fail' and n == 1:
            __import__(other)
            w.fail('body')
        elif kind == 'register':
            w.busy += 1
            w.register(m.__name__, 'count', None)
            w.busy -= 1
        elif kind == 'register other':
            w.busy += 1
            w.register(other, 'count', None)
            w.busy -= 1
        elif kind == 'replace':
            new = types.ModuleType(m.__name__)
            new.done = True
            sys.modules[m.__name__] = new
    return f


def forget(name):
    if name in sys.modules:
        del sys.modules[name]


def history(s, w, ops, n):
    for i in range(n):
        op = s.choice('op%d' % i, ops)
        if op[0] == 'import':
            w.op(__import__, op[1])
        elif op[0] == 'remove':
            forget(op[1])
            for r in w.regs:
                # hooks still waiting are for the next import
                pass
        else:
            w.op(w.register, op[1], op[0], op[2])


def t_one(s):
    """one module"""
    w = World(s)
    w.bodies['vm_a'] = body(w, s.choice('body', ['plain', 'fails first', 'fails', 'register', 'replace']), None)
    w.bodies['vm_b'] = body(w, 'plain', None)
    history(s, w, [('count', 'vm_a', None), ('raise', 'vm_a', None), ('register', 'vm_a', None), ('import', 'vm_a'), ('remove', 'vm_a')],
            s.quick and 4 or 6)


def t_two(s):
    """two modules, one importing the other, and hooks that import"""
    w = World(s)
    w.bodies['vm_a'] = body(w, s.choice('a', ['import', 'import and fail', 'register other', 'fails first']), 'vm_b')
    w.bodies['vm_b'] = body(w, s.choice('b', ['plain', 'fails first', 'import']), 'vm_a')
    history(s, w, [('count', 'vm_a', None), ('import', 'vm_a', 'vm_b'), ('count', 'vm_b', None), ('raise', 'vm_b', None),
                   ('import', 'vm_a'), ('import', 'vm_b')],
            s.quick and 3 or 4)
    w.op(__import__, 'vm_a')
    w.op(__import__, 'vm_b')


def t_hook_imports(s):
    """hooks that import other modules"""
    w = World(s)
    w.bodies['vm_a'] = body(w, 'plain', None)
    w.bodies['vm_b'] = body(w, s.choice('b', ['plain', 'import', 'fails first']), 'vm_a')
    for i in range(s.quick and 3 or 4):
        h = s.choice('h%d' % i, ['count a', 'a imports b', 'count b', 'b imports a', 'a raises'])
        if h == 'count a':
            w.op(w.register, 'vm_a', 'count', None)
        elif h == 'a imports b':
            w.op(w.register, 'vm_a', 'import', 'vm_b')
        elif h == 'count b':
            w.op(w.register, 'vm_b', 'count', None)
        elif h == 'b imports a':
            w.op(w.register, 'vm_b', 'import', 'vm_a')
        else:
            w.op(w.register, 'vm_a', 'raise', None)
    first = s.choice('first', ['vm_a', 'vm_b'])
    w.op(__import__, first)
    w.op(__import__, 'vm_a')
    w.op(__import__, 'vm_b')


def t_package(s):
    """modules in packages"""
    w = World(s)
    w.bodies['vm_p'] = body(w, s.choice('p', ['plain', 'import', 'fails first']), 'vm_p.c')
    w.bodies['vm_p.c'] = body(w, s.choice('c', ['plain', 'fails first']), None)
    history(s, w, [('count', 'vm_p', None), ('count', 'vm_p.c', None), ('raise', 'vm_p', None), ('import', 'vm_p'), ('import', 'vm_p.c')],
            s.quick and 3 or 4)
    for i in range(2):
        w.op(__import__, 'vm_p.c')
    if 'vm_p.c' in sys.modules:
        s.check(sys.modules['vm_p'].c is sys.modules['vm_p.c'], 'attribute of the package')


def t_many(s):
    """several hooks registered at once"""
    w = World(s)
    w.bodies['vm_a'] = body(w, 'plain', None)
    if s.bool('imported'):
        __import__('vm_a')
    n = s.choice('n', 4)
    for i in range(n):
        w.regs.append(Registration(w, 'vm_a', s.choice('kind%d' % i, ['count', 'raise', 'register']), None, False))
    w.op(imports.when_imported, 'vm_a', *w.regs[:])
    w.op(__import__, 'vm_a')
    w.op(__import__, 'vm_a')


def t_other_finder(s):
    """another import hook, there before this library, provides the module"""
    w = World(s)
    w.bodies['vm_a'] = body(w, s.choice('body', ['plain', 'fails first']), None)
    # as if imported now
    del sys.modules['pyamf.util.imports']
    import pyamf.util.imports
    fresh = sys.modules['pyamf.util.imports']
    got = []
    s.check(fresh.when_imported('vm_a', got.append) is None, 'no module yet')
    for i in range(2):
        try:
            __import__('vm_a')
        except Boom:
            s.check(len(got) == 0, 'not imported')
    __import__('vm_a')
    s.check(len(got) == 1 and got[0] is sys.modules['vm_a'], 'ran once')


def t_missing(s):
    """modules that do not exist, or not yet"""
    w = World(s)
    w.op(w.register, 'vm_a', 'count', None)
    w.op(w.register, 'vm_p.c', 'count', None)
    for i in range(s.choice('tries', 3)):
        for name in ('vm_a', 'vm_p.c'):
            try:
                __import__(name)
            except ImportError:
                pass
            else:
                s.fail('imported')
            w.check()
    w.bodies['vm_p'] = w.bodies['vm_p.c'] = w.bodies['vm_a'] = body(w, 'plain', None)
    w.op(__import__, 'vm_a')
    w.op(__import__, 'vm_p.c')


def t_unaffected(s):
    """modules without hooks are imported as ever"""
    w = World(s)
    w.bodies['vm_a'] = body(w, 'plain', None)
    w.bodies['vm_b'] = body(w, 'plain', None)
    w.op(w.register, 'vm_b', 'count', None)
    n = s.uni('n', 4, 127)
    s.assume(n != u'vm_b' and n != u'sets')
    s.check(imports.finder.find_module(n) is None, 'not its business')
    s.check(imports.finder.find_module('vm_a', []) is None, 'not its business')
    w.op(__import__, 'vm_a')
    s.check(w.runs == {'vm_a': 1}, 'once')
    w.op(__import__, 'vm_b')
    s.check(imports.finder.find_module('vm_b') is None, 'not its business any more')
    m = sys.modules['vm_b']
    forget('vm_b')
    w.op(__import__, 'vm_b')
    s.check(sys.modules['vm_b'] is not m and w.runs == {'vm_a': 1, 'vm_b': 2}, 'imported again')


def t_adapter(s):
    """register_adapter refuses what cannot be called, and is otherwise the same"""
    w = World(s)
    w.bodies['vm_a'] = body(w, 'plain', None)
    bad = s.choice('bad', [None, 'x', 1, object()])
    if s.bool('first'):
        __import__('vm_a')
    try:
        adapters.register_adapter('vm_a', bad)
    except TypeError:
        pass
    else:
        s.fail('accepted')
    r = Registration(w, 'vm_a', 'count', None, False)
    w.regs.append(r)
    w.op(adapters.register_adapter, 'vm_a', r)
    w.op(__import__, 'vm_a')
