# Runs under Jython: one harness function on the real code, with concrete input values.
import datetime
import os
import struct
import sys
import traceback
import types

HARNESS = os.environ['VERIF_HARNESS']
if HARNESS not in sys.path:
    sys.path.insert(0, HARNESS)
META = list(sys.meta_path)
HMODS = set(f[:-3] for f in os.listdir(HARNESS) if f.endswith('.py'))
CANON_NAN = '7ff8000000000000'


class Fail(BaseException):
    def __init__(self, label):
        self.label = label


class Stop(BaseException):
    pass


def canon(v, depth=0):
    if depth > 12:
        return '<deep>'
    if v is None or v is True or v is False:
        return v
    if isinstance(v, (int, long)):
        return ['i', str(int(v))]
    if isinstance(v, float):
        return ['f', CANON_NAN if v != v else '%016x' % struct.unpack('!Q', struct.pack('!d', v))[0]]
    if isinstance(v, unicode):
        return ['u', [ord(c) for c in v]]
    if isinstance(v, str):
        return ['s', [ord(c) for c in v]]
    if isinstance(v, (list, tuple)):
        return [isinstance(v, list) and 'l' or 't', [canon(x, depth + 1) for x in v]]
    if isinstance(v, dict):
        ks = [[canon(k, depth + 1), canon(v[k], depth + 1)] for k in list(v)]
        ks.sort(key=repr)
        return ['d', ks]
    if isinstance(v, BaseException):
        return ['exc', v.__class__.__name__]
    if isinstance(v, (type, types.ClassType)):
        return ['type', v.__name__]
    return ['o', v.__class__.__name__]


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, long)) and isinstance(b, (int, long)):
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return canon(a) == canon(b)
    if isinstance(a, basestring) and isinstance(b, basestring):
        return isinstance(a, unicode) == isinstance(b, unicode) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in list(a):
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return bool(a == b)


class S(object):
    symbolic = False

    def __init__(self, values, quick, known):
        self.values = values
        self.quick = quick
        self._known = known
        self.used = {}
        self.fails = []
        self.observed = []
        self.region = None

    def _get(self, n, default):
        k = self.used.get(n, 0)
        self.used[n] = k + 1
        if k:
            n = '%s~%d' % (n, k)
        return self.values.get(n, default)

    def int(self, name, lo, hi):
        v = int(self._get(name, str(lo)))
        if not lo <= v <= hi:
            raise Stop('range')
        return v

    def byte(self, name):
        return self.bytes(name, 1)

    def bytes(self, name, n):
        return ''.join([chr(c) for c in self._get(name, [0] * n)])

    def bytes_upto(self, name, n, least=0):
        return self.bytes(name, least + self.choice(name + '.len', n - least + 1))

    def uni(self, name, n, hi=0x10ffff):
        return u''.join([unichr(c) for c in self._get(name, [0] * n)])

    def uni_upto(self, name, n, hi=0x10ffff, least=0):
        return self.uni(name, least + self.choice(name + '.len', n - least + 1), hi)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        l = None
        if not isinstance(n, (int, long)):
            l = list(n)
        i = int(self._get(name, 0))
        return l is None and i or (l[i] if l is not None else i)

    def float(self, name):
        return struct.unpack('!d', struct.pack('!Q', int(self._get(name, '0'), 16)))[0]

    def instant(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(v // 86400000000, v % 86400000000 // 1000000, v % 1000000)

    def duration(self, name, lo, hi, unit=1):
        v = self.int(name, lo, hi) * unit
        return datetime.timedelta(v // 86400000000, v % 86400000000 // 1000000, v % 1000000)

    def day(self, name, lo, hi):
        return datetime.date(1970, 1, 1) + datetime.timedelta(self.int(name, lo, hi))

    def assume(self, c):
        if not c:
            raise Stop('assume')

    def check(self, c, label='check'):
        if not c:
            raise Fail(label)

    def fail(self, label='fail'):
        raise Fail(label)

    def observe(self, label, v):
        self.observed.append([label, canon(v)])

    def known(self, kid, c=True):
        if kid in self._known and c:
            self.region = kid
            return True
        return False

    def budget(self, ticks, seconds):
        pass

    def stop(self):
        raise Stop('stop')

    def reached(self, what):
        pass

    def is_(self, v, tp):
        return isinstance(v, tp)

    def And(self, *bs):
        for b in bs:
            if not b:
                return False
        return True

    def Or(self, *bs):
        for b in bs:
            if b:
                return True
        return False

    def Not(self, b):
        return not b

    def Implies(self, a, b):
        return bool(b or not a)

    def If(self, c, a, b):
        if c:
            return a
        return b

    def same(self, a, b):
        return same(a, b)

    def concrete(self, v):
        return v

    def stub(self, modname, attrs):
        m = __import__(modname, {}, {}, ['x'])
        for k in attrs:
            _patched.append((m, k, getattr(m, k, _patched)))
            setattr(m, k, attrs[k])

    def provide(self, modname, attrs, path=None):
        m = types.ModuleType(modname)
        m.__dict__.update(attrs)
        if path is not None:
            m.__path__ = path
        _provided.append((modname, sys.modules.get(modname)))
        sys.modules[modname] = m
        parent, _, leaf = modname.rpartition('.')
        if parent and parent in sys.modules:
            setattr(sys.modules[parent], leaf, m)
        return m


_patched = []
_provided = []


def purge():
    for m, k, v in reversed(_patched):
        if v is _patched:
            delattr(m, k)
        else:
            setattr(m, k, v)
    del _patched[:]
    for n, m in reversed(_provided):
        if m is None:
            sys.modules.pop(n, None)
        else:
            sys.modules[n] = m
    del _provided[:]
    for k in list(sys.modules):
        if k == 'pyamf' or k.startswith('pyamf.') or k.startswith('vm_') or k in HMODS:
            del sys.modules[k]
    sys.meta_path[:] = META
    # made by setup.py build; a fresh checkout may not have it
    if not os.path.exists(os.path.join(os.environ['JYTHONPATH'].split(':')[0], 'pyamf', '_version.py')):
        class Finder(object):
            def find_module(self, name, path=None):
                if name == 'pyamf._version':
                    return self

            def load_module(self, name):
                m = types.ModuleType(name)
                sys.modules[name] = m
                from pyamf.versions import Version
                m.version = Version(0, 8, 0)
                return m
        sys.meta_path.append(Finder())


def handle(req):
    purge()
    s = S(req['values'], req['quick'], set(req['known']))
    out = {'fail': None, 'exc': None, 'stop': None}
    try:
        try:
            mod = __import__(req['module'])
            getattr(mod, req['case'])(s)
        except Fail, f:
            out['fail'] = f.label
        except Stop, f:
            out['stop'] = str(f)
        except MemoryError:
            out['exc'] = 'MemoryError'
        except Exception, e:
            out['exc'] = e.__class__.__name__
            out['trace'] = traceback.format_exc()[-1500:]
        except:
            # a Java exception
            e = sys.exc_info()[0]
            out['exc'] = 'java:' + str(e)
            out['trace'] = traceback.format_exc()[-1500:]
    finally:
        out['observed'] = s.observed
        out['region'] = s.region
        purge()
    return out
