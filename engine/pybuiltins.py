"""The guest's __builtin__ module."""
import builtins as B
import types as T
import rt
import values as V
import reals
from rt import *
from rt import _MISSING
from core import E, Unsupported


class StandardError_(Exception):
    pass


class BufferType(object):
    pass


def b_range(*a):
    return list(range(*[plain(x, 'range') for x in a]))


class SymRange(object):
    """xrange with a symbolic end: one branch per step"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while truth(lt(i, self.stop) if self.step > 0 else gt(i, self.stop)):
            yield i
            i += self.step


def b_xrange(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    start, step = plain(start, 'xrange'), plain(step, 'xrange')
    if type(stop) is SymInt:
        if truth(gt(stop, 2147483647)):
            raise OverflowError('long int too large to convert to int')
        if step in (1, -1):
            return SymRange(start, stop, step)
    stop = plain(stop, 'xrange')
    r = range(start, stop, step)
    for x in (start, stop, step):
        if isinstance(x, int) and not -2147483648 <= x <= 2147483647:
            raise OverflowError('long int too large to convert to int')
    return r


def b_map(f, *its):
    if len(its) == 1:
        return [x if f is None else call(f, x) for x in iter_(its[0])]
    ls = [list(iter_(i)) for i in its]
    n = max(map(len, ls))
    ls = [l + [None] * (n - len(l)) for l in ls]
    return [t if f is None else call(f, *t) for t in zip(*ls)]


def b_filter(f, it):
    r = [x for x in iter_(it) if truth(x if f is None else call(f, x))]
    if isinstance(it, tuple):
        return tuple(r)
    if isinstance(it, str):
        return str_join('' if not is_uni(it) else UStr(''), r)
    return r


def b_zip(*its):
    return [tuple(t) for t in zip(*[list(iter_(i)) for i in its])]


def b_reduce(f, it, *init):
    it = list(iter_(it))
    if init:
        acc = init[0]
    else:
        if not it:
            raise TypeError('reduce() of empty sequence with no initial value')
        acc = it.pop(0)
    for x in it:
        acc = call(f, acc, x)
    return acc


def b_sum(it, start=0):
    for x in iter_(it):
        start = add(start, x)
    return start


def _ext(name, op):
    def f(*a, **k):
        key = k.get('key')
        it = list(iter_(a[0])) if len(a) == 1 else list(a)
        if not it:
            raise ValueError(name + '() arg is an empty sequence')
        best = it[0]
        bk = call(key, best) if key else best
        for x in it[1:]:
            xk = call(key, x) if key else x
            if truth(op(xk, bk)):
                best, bk = x, xk
        return best
    f.__name__ = name
    return f


b_min = _ext('min', rt.lt)
b_max = _ext('max', rt.gt)


def b_all(it):
    for x in iter_(it):
        if not truth(x):
            return False
    return True


def b_any(it):
    for x in iter_(it):
        if truth(x):
            return True
    return False


def b_iter(x, *s):
    if s:
        def g():
            while True:
                v = call(x)
                if truth(eq(v, s[0])):
                    return
                yield v
        return g()
    return B.iter(iter_(x))


def b_next(it, *d):
    try:
        if hasattr(type(it), '__next__'):
            return B.next(it)
        return call(getattr_(it, 'next'))
    except StopIteration:
        if d:
            return d[0]
        raise


def b_enumerate(it, start=0):
    return enumerate(iter_(it), start)


def b_reversed(it):
    if hasattr(type(it), '__reversed__') and type(it) is not list:
        return it.__reversed__()
    return iter(list(iter_(it))[::-1])


def b_dir(*a):
    if not a:
        raise Unsupported('dir() without argument')
    o = a[0]
    return sorted(n for n in dir_names(o) if not n.startswith('_rt') and n not in ('__next__', '__bool__'))


OBJECT_DIR = {'__class__', '__delattr__', '__doc__', '__format__', '__getattribute__', '__hash__', '__init__',
              '__new__', '__reduce__', '__reduce_ex__', '__repr__', '__setattr__', '__str__', '__subclasshook__'}
FUNC_DIR = OBJECT_DIR | {'__call__', '__closure__', '__code__', '__defaults__', '__dict__', '__get__', '__globals__', '__module__', '__name__',
                         'func_closure', 'func_code', 'func_defaults', 'func_dict', 'func_doc', 'func_globals', 'func_name'}


def dir_names(o):
    if isinstance(o, T.FunctionType):
        return FUNC_DIR | set(vars(o))
    c = o if isinstance(o, type) else type(o)
    if is_sym(o) or isinstance(o, T.ModuleType) or c in PLAIN:
        return dir(o)
    own, old = set(), False
    for k in c.__mro__:
        if k is object or k is InstanceType:
            continue
        if k.__module__ == 'builtins':
            return dir(o)
        old = old or is_oldclass(k)
        own.update(n for n in vars(k) if n not in ('__dict__', '__weakref__', '__match_args__', '__static_attributes__', '__firstlineno__'))
    if o is not c:
        own.update(getattr(o, '__dict__', ()))
    if all(is_oldclass(k) for k in c.__mro__ if k is not object):
        return own | {'__doc__', '__module__'}
    return own | OBJECT_DIR | {'__module__', '__dict__', '__weakref__'}


def b_vars(*a):
    if not a:
        raise Unsupported('vars()')
    return getattr_special(a[0], type(a[0]), '__dict__')


def b_id(x):
    return id(x)


def b_cmp(a, b):
    return rt.cmp(a, b)


def b_abs(x):
    return abs(x)


def b_round(x, n=0):
    import math
    if reals.is_num(x) and n == 0:
        return reals.rround(x)
    x = plain(x, 'round')
    if n == 0:
        return math.copysign(math.floor(abs(x) + 0.5), x)
    return round(x, n)


def b_divmod(a, b):
    return (floordiv(a, b), mod(a, b))


def b_pow(a, b, *m):
    if m:
        return pow(plain(a), plain(b), *m)
    return pow_(a, b)


def b_apply(f, a=(), k={}):
    return call(f, *iter_(a), **starkw(k))


def b_globals():
    import sys
    return DictView(sys._getframe(1).f_globals)


def b_locals():
    import sys
    return mkdict([(k, v) for k, v in sys._getframe(1).f_locals.items() if not k.startswith('_rt')])


def known_module(name):
    """a symbolic module name: one of the modules of this world, or none at all"""
    if V.is_uni(name):
        for it in V.items_of(name):
            if not isinstance(it, (int, str)) and E.branch(z3.UGT(it, 127)):
                raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
    for m in sorted(rt.WORLD.importable()):
        if len(m) == len_(name) and truth(eq(name, m)):
            return m
    raise ImportError('No module named ' + '?')


def b_import(name, globals=None, locals=None, fromlist=None, level=-1):
    pkg = None
    if globals is not None and len_(globals):
        n = globals.get('__name__')
        pkg = rt.WORLD.package_of(n) if n else None
    if V.is_sym(name):
        name = known_module(name)
    m = rt.WORLD.do_import((pkg, True), str(name), False)
    if fromlist:
        m = rt.WORLD.modules.get(str(name))
        for f in fromlist:
            try:
                rt.WORLD.import_from((None, False), str(name), f, 0)
            except ImportError:
                pass
    return m


def b_intern(s):
    return s


def b_file(*a, **k):
    return rt.WORLD.open(*a, **k)


def b_hasattr(o, n):
    return hasattr_(o, n)


def bin_(x):
    return bin(plain(x))


def oct_(x):
    x = plain(x)
    return '0' + oct(x)[2:] if x else '0'


class bytearray_(object):
    """bytearray with symbolic bytes"""
    def __init__(self, src=(), enc=None, errors='strict'):
        if is_uni(src):
            src = V.s_encode(src, enc, errors) if type(src) is UStr else V.encode_items(src, enc, errors)
        if isinstance(src, str):
            self._l = [rt.ord_(c) for c in rt.iter_(src)]
        elif isinstance(src, int) or type(src) is SymInt:
            self._l = [0] * plain(src)
        elif isinstance(src, bytearray_):
            self._l = list(src._l)
        else:
            self._l = []
            for x in rt.iter_(src):
                self.append(x)

    def _byte(self, x):
        if isinstance(x, str):
            return rt.ord_(x)
        if not rt.truth(rt.V.and_(x >= 0, x <= 255)):
            raise ValueError('byte must be in range(0, 256)')
        return x

    def __str__(self):
        out = []
        for x in self._l:
            out += rt.items_of(rt.chr_(x))
        return V.SymStr.make(out)

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        return iter(list(self._l))

    def __getitem__(self, k):
        r = rt.getitem(self._l, k)
        return bytearray_(r) if type(r) is list else r

    def __setitem__(self, k, v):
        if type(k) is slice:
            self._l[rt.conc_slice(k)] = bytearray_(v)._l
        else:
            self._l[plain(k)] = self._byte(v)

    def __delitem__(self, k):
        del self._l[rt.conc_slice(k) if type(k) is slice else plain(k)]

    def append(self, x):
        self._l.append(self._byte(x))

    def extend(self, it):
        self._l.extend(bytearray_(it)._l)

    def insert(self, i, x):
        self._l.insert(i, self._byte(x))

    def pop(self, *a):
        return self._l.pop(*a)

    def reverse(self):
        self._l.reverse()

    def decode(self, *a):
        return rt.call(rt.getattr_(self.__str__(), 'decode'), *a)

    def __eq__(self, o):
        if isinstance(o, bytearray_):
            o = o.__str__()
        return rt.eq(self.__str__(), o)

    def __ne__(self, o):
        return V.not_(self.__eq__(o))

    __hash__ = None

    def __contains__(self, x):
        return rt.contains(x, self.__str__() if isinstance(x, str) else self._l)

    def __add__(self, o):
        r = bytearray_(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        return bytearray_(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        return bytearray_(self._l * plain(n))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return rt.getattr_(self.__str__(), n)


class memoryview_(object):
    def __init__(self, s):
        self._s = s.__str__() if isinstance(s, bytearray_) else s

    def __len__(self):
        return len(self._s)

    def __getitem__(self, k):
        r = rt.getitem(self._s, k)
        return memoryview_(r) if type(k) is slice else r

    def tobytes(self):
        return self._s

    def tolist(self):
        return [rt.ord_(c) for c in rt.iter_(self._s)]


bytearray_.__name__ = bytearray_.__qualname__ = 'bytearray'


def long_(x=0, base=None):
    return int_(x, base)


def b_object():
    return B.object()


class FileType(object):
    pass


def make():
    g = dict(
        abs=b_abs, all=b_all, any=b_any, apply=b_apply, basestring=basestring, bool=bool, buffer=BufferType, bin=bin_,
        bytearray=bytearray_, bytes=str, callable=callable_, chr=chr_, classmethod=classmethod, cmp=b_cmp, delattr=b_delattr,
        dict=PyDict, dir=b_dir, divmod=b_divmod, enumerate=b_enumerate, file=b_file, filter=b_filter, float=float,
        format=lambda v, s='': str_format('{0:%s}' % s, (v,), {}), frozenset=PyFrozenSet, getattr=b_getattr,
        globals=b_globals, hasattr=hasattr_, hash=hash_, hex=hex_, id=b_id, int=int, intern=b_intern,
        isinstance=isinstance_, issubclass=issubclass_, iter=b_iter, len=len_, list=list, locals=b_locals, long=PyLong,
        map=b_map, max=b_max, min=b_min, next=b_next, object=object, oct=oct_, open=b_file, ord=ord_, pow=b_pow,
        property=property, range=b_range, reduce=b_reduce, repr=repr_, reversed=b_reversed, round=b_round, set=PySet,
        setattr=b_setattr, slice=slice, sorted=sorted_, staticmethod=staticmethod, str=str, sum=b_sum, super=super,
        tuple=tuple, type=type, unichr=unichr_, unicode=UStr, vars=b_vars, xrange=b_xrange, zip=b_zip,
        NotImplemented=NotImplemented, Ellipsis=Ellipsis, StandardError=StandardError_,
        __build_class__=build_class, __import__=b_import, complex=complex, reload=lambda m: m,
        memoryview=memoryview_, execfile=lambda *a: rt.unsupported('execfile'), exit=None, quit=None,
    )
    for n in dir(B):
        o = getattr(B, n)
        if isinstance(o, type) and issubclass(o, BaseException) and n not in (
                'ExceptionGroup', 'BaseExceptionGroup', 'ModuleNotFoundError', 'FileNotFoundError', 'TimeoutError',
                'RecursionError', 'StopAsyncIteration', 'BlockingIOError', 'ConnectionError', 'BrokenPipeError',
                'ChildProcessError', 'ConnectionAbortedError', 'ConnectionRefusedError', 'ConnectionResetError',
                'EncodingWarning', 'FileExistsError', 'InterruptedError', 'IsADirectoryError', 'NotADirectoryError',
                'PermissionError', 'ProcessLookupError', 'ResourceWarning', 'BytesWarning'):
            g[n] = o
    g['__debug__'] = True
    g['None'] = None
    g['True'] = True
    g['False'] = False
    return g


# types called through the guest
CM = rt.CALLMAP
for _t, _f in ((str, str_), (UStr, unicode_), (int, int_), (PyLong, long_), (float, float_), (bool, bool_),
               (list, list_), (tuple, tuple_), (type, type3), (isinstance, isinstance_), (len, len_), (repr, repr_)):
    CM[id(_t)] = _f

STANDARD = (ArithmeticError, AssertionError, AttributeError, BufferError, EOFError, OSError, ImportError, LookupError,
            MemoryError, NameError, ReferenceError, RuntimeError, SyntaxError, SystemError, TypeError, ValueError)
rt.EXC_MAP[StandardError_] = STANDARD + (StandardError_,)
