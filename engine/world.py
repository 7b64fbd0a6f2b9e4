"""Per-path guest interpreter state: modules and imports."""
import os
import types as T
import rt
import pybuiltins
import stubs
from core import E, Unsupported
from values import UStr

REPO = os.environ.get('VERIF_REPO', '/repo')


class Source:
    """compiled guest modules, shared by all paths"""
    def __init__(self):
        self.code = {}       # module name -> (code, uconsts, is_pkg, filename, absolute_import)
        self.paths = {}      # module name -> (path, is_pkg)
        self.front = None

    def find_all(self, root, pkg):
        for d, ds, fs in os.walk(os.path.join(root, pkg)):
            ds.sort()
            rel = os.path.relpath(d, root).replace(os.sep, '.')
            if rel.startswith(pkg + '.tests'):
                continue
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                if f == '__init__.py':
                    self.paths[rel] = (os.path.join(d, f), True)
                else:
                    self.paths[rel + '.' + f[:-3]] = (os.path.join(d, f), False)


SRC = Source()
OVER = {}             # models of library modules this run asked for


class World:
    def __init__(self):
        self.modules = rt.PyDict()
        self.builtins = pybuiltins.make()
        self.builtins.update(rt.NAMES)
        self.stub_over = dict(OVER)
        self.loading = []
        self.failed = set()
        bm = T.ModuleType('__builtin__')
        bm.__dict__.update({k: v for k, v in self.builtins.items() if not k.startswith('_rt_')})
        self.modules['__builtin__'] = bm
        self.sysmod = stubs.make_sys(self)
        self.modules['sys'] = self.sysmod
        self.import_log = []
        self.pkgs = {'pyamf'}

    def package_of(self, modname):
        m = self.modules.get(modname)
        if m is not None and hasattr(m, '__path__'):
            return modname
        return modname.rpartition('.')[0] or None

    # -- finding and loading
    def load(self, name):
        """module object for a fully qualified name; ImportError if there is none"""
        tok = self.modules._find(name)
        hooks = self.sysmod.meta_path
        if tok is not None:
            m = self.modules._val(tok)
            if m is None:
                raise ImportError('No module named %s' % name)
            return m
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            # importing the parent may have imported the child
            tok = self.modules._find(name)
            if tok is not None and self.modules._val(tok) is not None:
                return self.modules._val(tok)
        m = None
        for f in list(hooks):
            path = getattr(self.modules.get(parent), '__path__', None) if parent else None
            loader = rt.call(rt.getattr_(f, 'find_module'), name, path)
            if loader is not None:
                m = rt.call(rt.getattr_(loader, 'load_module'), name)
                break
        if m is None:
            m = self.load_plain(name)
        if parent:
            p = self.modules.get(parent)
            if p is not None:
                setattr(p, name.rpartition('.')[2], m)
        return m

    def load_plain(self, name):
        if name in self.stub_over:
            m = self.stub_over[name](self)
            self.modules[name] = m
            return m
        mk = stubs.STUBS.get(name)
        if mk is not None:
            m = mk(self)
            self.modules[name] = m
            return m
        if name in SRC.code or SRC.front.compile(name):
            return self.exec_module(name)
        raise ImportError('No module named %s' % name)

    def exec_module(self, name):
        code, uconsts, is_pkg, filename, absimp = SRC.code[name]
        m = T.ModuleType(name)
        g = m.__dict__
        g['__builtins__'] = self.builtins
        g['__file__'] = filename
        pkg = name if is_pkg else (name.rpartition('.')[0] or None)
        if is_pkg:
            g['__path__'] = [os.path.dirname(filename)]
        g['_rt_pkg'] = (pkg, not absimp)
        for n, v in uconsts.items():
            g[n] = UStr(v)
        self.modules[name] = m
        try:
            exec(code, g)
        except BaseException:
            tok = self.modules._find(name)
            if tok is not None:
                self.modules._del(tok)
            raise
        r = self.modules.get(name)
        return r if r is not None else m

    # -- statements
    def absolute(self, pkginfo, name):
        """resolve implicit relative imports"""
        pkg, implicit = pkginfo
        if pkg and implicit:
            first = name.split('.')[0]
            cand = pkg + '.' + first
            if cand in SRC.paths or cand in self.stub_over or self.modules._find(cand) is not None and \
                    self.modules.get(cand) is not None:
                return pkg + '.' + name
        return name

    def do_import(self, pkginfo, name, has_as):
        if name == '':
            raise ValueError('Empty module name')
        full = self.absolute(pkginfo, name)
        parts = full.split('.')
        if '' in parts:
            # as Jython does
            if parts[0] == '':
                raise ImportError('No module named ')
            name = '.'.join(x for x in name.split('.') if x)
            full = '.'.join(x for x in parts if x)
            parts = full.split('.')
        for i in range(1, len(parts) + 1):
            self.load('.'.join(parts[:i]))
        if has_as:
            return self.modules[full]
        n = len(parts) - len(name.split('.')) + 1
        return self.modules['.'.join(parts[:n])]

    def import_from(self, pkginfo, mod, attr, level):
        if level > 0:
            base = pkginfo[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            full = base + ('.' + mod if mod else '')
        else:
            full = self.absolute(pkginfo, mod)
        m = self.load(full)
        if attr is None:
            return m
        try:
            return rt.getattr_(m, attr)
        except AttributeError:
            pass
        if hasattr(m, '__path__'):
            sub = full + '.' + attr
            if self.modules._find(sub) is not None or sub in self.stub_over or sub in SRC.paths or sub in stubs.STUBS \
                    or self.sysmod.meta_path:
                try:
                    return self.load(sub)
                except ImportError as e:
                    if str(e) != 'No module named %s' % sub:
                        raise
        raise ImportError('cannot import name %s' % attr)

    def importable(self):
        return set(k for k in list(self.modules) if isinstance(k, str)) | set(SRC.paths) | set(stubs.STUBS) | set(self.stub_over)

    def open(self, *a, **k):
        raise IOError(2, 'No such file or directory')


def new_world():
    import values
    values.FLOATS.clear()
    values.INTSRC.clear()
    values.B64SRC.clear()
    rt.WORLD = World()
    return rt.WORLD
