"""Models of the standard library modules the code uses (Jython 2.7 behaviour)."""
import math
import struct as _struct
import sys as _sys
import types as T
import zlib as _zlib
import z3
import rt
import values as V
import reals
from core import E, Unsupported
from rt import (UStr, PyDict, PySet, call, getattr_, getitem, is_sym, is_uni, items_of, iter_, plain, str_, truth,
                unicode_, SymStr, SymInt, SymFloat)

STUBS = {}


def stub(name):
    def deco(f):
        STUBS[name] = f
        return f
    return deco


def mod(name, /, **d):
    m = T.ModuleType(name)
    m.__dict__.update(d)
    m.__file__ = name
    return m


def wrap(f):
    return f


class JavaError(BaseException):
    """a Java exception: not an Exception for Jython code"""


# ---------------------------------------------------------------- sys
def make_sys(world):
    def exc_info():
        e = _sys.exc_info()
        if e[0] is rt.OldRaised:
            return type(e[1].instance), e[1].instance, e[2]
        return e

    def exc_clear():
        pass

    class flags(object):
        optimize = 0
    return mod('sys', modules=world.modules, meta_path=[], path=[], path_hooks=[], path_importer_cache=PyDict(),
               maxint=rt.MAXINT, maxunicode=1114111, byteorder='big', version='2.7.3 (jython)',
               version_info=(2, 7, 3, 'final', 0), platform='java', exc_info=exc_info, exc_clear=exc_clear,
               getrecursionlimit=lambda: 1000, setrecursionlimit=lambda n: None, argv=[''], stdout=NullFile(),
               stderr=NullFile(), stdin=NullFile(), getdefaultencoding=lambda: 'ascii', maxsize=2 ** 63 - 1,
               hexversion=0x020703f0, getsizeof=lambda o: 64, _getframe=_sys._getframe, executable='jython',
               exit=lambda *a: rt.unsupported('sys.exit'), flags=flags(), intern=lambda s: s,
               getfilesystemencoding=lambda: 'utf-8', builtin_module_names=())


class NullFile(object):
    def write(self, s):
        pass

    def flush(self):
        pass


# ---------------------------------------------------------------- struct
class struct_error(Exception):
    pass


struct_error.__name__ = 'error'
struct_error.__module__ = 'struct'
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'x': 1, 'c': 1, '?': 1, 's': 1, 'p': 1}


def parse_fmt(fmt):
    fmt = str(plain(fmt, 'struct format'))
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    native = order == '@'
    big = order in '@=>!'        # the JVM is big-endian
    out = []
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch.isspace():
            i += 1
            continue
        n = None
        j = i
        while j < len(fmt) and fmt[j].isdigit():
            j += 1
        if j > i:
            n = int(fmt[i:j])
            if j >= len(fmt):
                raise struct_error('repeat count given without format specifier')
        ch = fmt[j]
        i = j + 1
        sz = SIZES.get(ch)
        if ch in 'lL':
            sz = 4
        if sz is None:
            raise struct_error('bad char in struct format')
        out.append((ch, n, sz, sz if native and ch not in 'sxcp?bB' else 1))
    return big, out


def fmt_size(items):
    off = 0
    for ch, n, sz, al in items:
        if off % al:
            off += al - off % al
        off += (1 if n is None else n) * sz
    return off


def calcsize(fmt):
    return fmt_size(parse_fmt(fmt)[1])


def int_bytes(v, sz, big):
    """little chunks of an int, wrapping as Jython does"""
    if type(v) is SymInt:
        e = V.fit(v.e, sz * 8)
        bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, e)) for k in range(sz)]
        bs = [b.as_long() if z3.is_bv_value(b) else b for b in bs]
    else:
        bs = [(v >> (8 * k)) & 255 for k in range(sz)]
    return bs[::-1] if big else bs


def bytes_bv(bs, big):
    bs = list(bs) if big else list(bs)[::-1]
    es = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in bs]
    return z3.simplify(z3.Concat(*es)) if len(es) > 1 else es[0]


def to_float_arg(v):
    if isinstance(v, (int, float)):
        return v
    if hasattr(type(v), '__float__') and not isinstance(v, str):
        return call(float, v)
    raise TypeError('a float is required')


F32 = z3.Float32()


def pack_item(ch, sz, v, big):
    if ch in 'bBhHiIlLqQ?':
        if isinstance(v, str) or v is None or not isinstance(v, (int, float)):
            if hasattr(type(v), '__int__') and v is not None and not isinstance(v, str):
                v = rt.int_(v)
            else:
                raise struct_error('required argument is not an integer')
        if isinstance(v, float):
            v = rt.int_(v)
        if type(v) is V.SymBool:
            v = int(bool(v))
        return int_bytes(v, sz, big)
    if ch == 'd':
        v = to_float_arg(v)
        v = V.tofloat(v) if not reals.is_num(v) else v.as_float()
        if type(v) is reals.RFloat:
            b = v.pattern()
            bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(8)]
            return bs[::-1] if big else bs
        if type(v) is SymFloat:
            b = v.packed_bits()
            if b.get_id() not in V.FLOATS:
                V.FLOATS[b.get_id()] = v
                E.keep.append(b)
            bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(8)]
            return bs[::-1] if big else bs
        return list(_struct.pack('>d' if big else '<d', v if v == v else float('nan')))
    if ch == 'f':
        v = V.tofloat(to_float_arg(v))
        if type(v) is SymFloat and v.f32 is not None:
            # a single precision pattern read earlier: widening and narrowing is the identity
            b = v.f32
            b = z3.simplify(z3.If(z3.fpIsNaN(z3.fpBVToFP(b, F32)), z3.BitVecVal(0x7fc00000, 32), b))
            bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(4)]
            return bs[::-1] if big else bs
        if type(v) is SymFloat:
            fp = z3.fpToFP(V.RNE, v.fp, F32)
            b = E.fresh('f32', z3.BitVecSort(32))
            E.assume(z3.If(z3.fpIsNaN(fp), b == z3.BitVecVal(0x7fc00000, 32), z3.fpBVToFP(b, F32) == fp))
            bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(4)]
            return bs[::-1] if big else bs
        try:
            r = _struct.pack('>f', v)
        except OverflowError:
            r = _struct.pack('>f', float('inf') if v > 0 else float('-inf'))
        if v != v:
            r = b'\x7f\xc0\0\0'
        return list(r if big else r[::-1])
    raise Unsupported('struct format ' + ch)


def pack(fmt, *args):
    big, items = parse_fmt(fmt)
    out = []
    args = list(args)
    for ch, n, sz, al in items:
        while len(out) % al:
            out.append(0)
        if ch == 'x':
            out.extend([0] * (1 if n is None else n))
            continue
        if ch in 'sp':
            n = 1 if n is None else n
            if not args:
                raise struct_error('insufficient arguments to pack')
            v = args.pop(0)
            if not isinstance(v, str):
                raise struct_error("argument for 's' must be a string")
            it = list(items_of(v))[:n]
            if is_uni(v):
                it = list(items_of(rt.call(rt.getattr_(v, 'encode'), 'latin-1')))[:n]
            out.extend(it + [0] * (n - len(it)))
            continue
        for _ in range(1 if n is None else n):
            if not args:
                raise struct_error('insufficient arguments to pack')
            v = args.pop(0)
            if ch == 'c':
                if not isinstance(v, str) or len(v) != 1:
                    raise struct_error('char format require string of length 1')
                out.extend(items_of(v))
            else:
                out.extend(pack_item(ch, sz, v, big))
    if args:
        raise struct_error('too many arguments for pack format')
    return SymStr.make(out)


def unpack_item(ch, sz, bs, big):
    if all(isinstance(b, int) for b in bs):
        raw = bytes(bs)
        if ch == 'd':
            f = _struct.unpack('>d' if big else '<d', raw)[0]
            return f
        if ch == 'f':
            return _struct.unpack('>f' if big else '<f', raw)[0]
        if ch == '?':
            return raw[0] != 0
        return int.from_bytes(raw, 'big' if big else 'little', signed=ch in 'bhilq')
    bv = bytes_bv(bs, big)
    if ch == 'd':
        return V.float_from_bits(bv)
    if ch == 'f':
        r = SymFloat(fp=z3.fpToFP(V.RNE, z3.fpBVToFP(bv, F32), V.FP64))
        r.f32 = bv
        return r
    n = 8 * sz
    if ch in 'bhilq':
        return V.mkint(bv, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    if ch == '?':
        return V.mkbool(bv != 0)
    return V.mkint(z3.ZeroExt(1, bv), 0, (1 << n) - 1)


def unpack(fmt, s):
    big, items = parse_fmt(fmt)
    if not isinstance(s, str):
        raise TypeError('unpack() argument 2 must be string')
    it = items_of(s)
    if len(it) != fmt_size(items):
        raise struct_error('unpack str size does not match format')
    return unpack_from_items(big, items, it, 0)


def unpack_from_items(big, items, it, off):
    out = []
    st = off
    for ch, n, sz, al in items:
        while (off - st) % al:
            off += 1
        if ch == 'x':
            off += 1 if n is None else n
            continue
        if ch in 'sp':
            n = 1 if n is None else n
            out.append(SymStr.make(it[off:off + n]))
            off += n
            continue
        for _ in range(1 if n is None else n):
            if ch == 'c':
                out.append(SymStr.make(it[off:off + 1]))
            else:
                out.append(unpack_item(ch, sz, it[off:off + sz], big))
            off += sz
    return tuple(out)


class StructObj(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, s):
        return unpack(self.format, s)

    def unpack_from(self, s, offset=0):
        return unpack_from(self.format, s, offset)


def unpack_from(fmt, s, offset=0):
    n = calcsize(fmt)
    if len(s) - offset < n:
        raise struct_error('unpack_from str size does not match format')
    return unpack(fmt, getitem(s, slice(offset, offset + n)))


@stub('struct')
def _(w):
    return mod('struct', pack=pack, unpack=unpack, calcsize=calcsize, error=struct_error, Struct=StructObj,
               unpack_from=unpack_from)


# ---------------------------------------------------------------- cStringIO
class StringIO(object):
    """org.python.modules.cStringIO: the position is a plain int that is never checked"""
    def __init__(self, init=None):
        self.buf = []
        self.pos = 0
        self.closed = False
        if init is not None:
            self.buf = list(items_of(str_(init)))

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    @staticmethod
    def _int(x, what):
        if isinstance(x, float) or not isinstance(x, int):
            raise TypeError(what + ": 1st arg can't be coerced to long")
        if type(x) is SymInt:
            if not truth(V.and_(x >= -2147483648, x <= 2147483647)):
                raise OverflowError('long int too large to convert to int')
            return x
        if not -2147483648 <= x <= 2147483647:
            raise OverflowError('long int too large to convert to int')
        return int(x)

    def write(self, s):
        self._open()
        if not isinstance(s, str):
            if s is None:
                raise JavaError('NullPointerException')
            s = str_(s)
        it = list(items_of(s))
        if is_uni(s):
            for i in it:
                if not isinstance(i, int):
                    if E.branch(z3.UGT(i, 255)):
                        raise JavaError('non-byte value in a byte string')
            it = [i if isinstance(i, int) else z3.simplify(z3.Extract(7, 0, i)) for i in it]
        p = self.pos = plain(self.pos, 'position')
        n = len(self.buf)
        if p < 0:
            raise JavaError('StringIndexOutOfBoundsException')
        if p > n:
            self.buf.extend([0] * (p - n))
        self.buf[p:p + len(it)] = it
        self.pos = p + len(it)

    def writelines(self, l):
        for x in iter_(l):
            self.write(x)

    def read(self, n=-1):
        self._open()
        n = self._int(n, 'read()')
        p = self.pos = plain(self.pos, 'position')
        ln = len(self.buf)
        if truth(n < 0):
            if p < 0:
                raise JavaError('StringIndexOutOfBoundsException')
            r = [] if p >= ln else self.buf[p:]
            self.pos = ln
            return SymStr.make(r)
        if p < 0 or p > ln:
            raise JavaError('StringIndexOutOfBoundsException')
        if type(n) is SymInt:
            if truth(n >= ln - p):
                n = ln - p
            else:
                n = n.concretize('read length')
        e = min(p + n, ln)
        r = self.buf[p:e]
        self.pos = e
        return SymStr.make(r)

    def readline(self, n=-1):
        self._open()
        r = []
        while self.pos < len(self.buf):
            c = self.buf[self.pos]
            self.pos += 1
            r.append(c)
            if (c == 10) if isinstance(c, int) else E.branch(c == 10):
                break
        return SymStr.make(r)

    def readlines(self, n=0):
        out = []
        while self.pos < len(self.buf):
            out.append(self.readline())
        return out

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, pos, mode=0):
        self._open()
        pos = self._int(pos, 'seek()')
        mode = plain(mode)
        if mode == 1:
            self.pos = self.pos + pos
        elif mode == 2:
            self.pos = pos + len(self.buf)
        else:
            self.pos = pos

    def reset(self):
        self.pos = 0

    def tell(self):
        self._open()
        return self.pos

    def truncate(self, n=None):
        self._open()
        p = self.pos if n is None else self._int(n, 'truncate()')
        p = plain(p, 'truncate')
        if p < 0:
            raise JavaError('StringIndexOutOfBoundsException')
        self.buf = self.buf[:p] + [0] * (p - len(self.buf))
        self.pos = p

    def getvalue(self):
        self._open()
        return SymStr.make(self.buf)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True


@stub('cStringIO')
def _(w):
    return mod('cStringIO', StringIO=StringIO, InputType=StringIO, OutputType=StringIO)


@stub('StringIO')
def _(w):
    return mod('StringIO', StringIO=StringIO)


@stub('io')
def _(w):
    class UStringIO(StringIO):
        def getvalue(self):
            return V.s_decode(StringIO.getvalue(self), 'utf-8')
    return mod('io', BytesIO=StringIO, StringIO=UStringIO, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)


# ---------------------------------------------------------------- types, inspect
@stub('types')
def _(w):
    def gen():
        yield 1

    class C(object):
        def m(self):
            pass
    d = dict(NoneType=type(None), TypeType=type, ObjectType=object, BooleanType=bool, IntType=int, LongType=rt.PyLong,
             FloatType=float, StringType=str, UnicodeType=UStr, StringTypes=(str, UStr), TupleType=tuple, ListType=list,
             DictType=PyDict, DictionaryType=PyDict, FunctionType=T.FunctionType, LambdaType=T.FunctionType,
             CodeType=T.CodeType, GeneratorType=T.GeneratorType, ClassType=rt.OldMeta, InstanceType=rt.InstanceType,
             MethodType=MethodTypeShim, UnboundMethodType=MethodTypeShim, BuiltinFunctionType=T.BuiltinFunctionType,
             BuiltinMethodType=T.BuiltinFunctionType, ModuleType=T.ModuleType, FileType=NullFile, SliceType=slice,
             XRangeType=range, TracebackType=T.TracebackType, FrameType=T.FrameType, EllipsisType=type(Ellipsis),
             NotImplementedType=type(NotImplemented), DictProxyType=rt.DictView, ComplexType=complex,
             BufferType=object)
    return mod('types', **d)


class _MM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, T.MethodType) or isinstance(x, T.FunctionType) and rt.is_unbound(x)

    def __subclasscheck__(cls, c):
        return c is T.MethodType or c is cls


class MethodTypeShim(object, metaclass=_MM):
    """instancemethod (bound or unbound)"""
    def __new__(cls, f, o=None, c=None):
        return T.MethodType(f, o) if o is not None else f


rt.METHOD_SHIM = MethodTypeShim


@stub('inspect')
def _(w):
    def getmro(k):
        r = k.__mro__
        if type(k) is rt.OldMeta:
            return tuple(c for c in r if c is not object)
        return r

    def getargspec(f):
        if isinstance(f, T.MethodType):
            f = f.__func__
        if not isinstance(f, T.FunctionType):
            raise TypeError('arg is not a Python function')
        c = f.__code__
        n = c.co_argcount
        names = list(c.co_varnames)
        args = names[:n]
        va = ka = None
        i = n + c.co_kwonlyargcount
        if c.co_flags & 4:
            va = names[i]
            i += 1
        if c.co_flags & 8:
            ka = names[i]
        return ArgSpec((args, va, ka, f.__defaults__))

    def getmembers(o, pred=None):
        out = []
        for k in sorted(dir(o)):
            if k.startswith('_rt') or k in ('__next__', '__bool__'):
                continue
            try:
                v = getattr_(o, k)
            except AttributeError:
                continue
            if pred is None or truth(call(pred, v)):
                out.append((k, v))
        return out
    own = (__file__.rsplit('/', 1)[0] + '/', _sys.prefix, _sys.base_prefix + '/lib', '<')

    def stack(*a):
        """the frames of the program itself, innermost first"""
        out, f = [], _sys._getframe(1)
        while f is not None:
            name = f.f_code.co_filename
            if not name.startswith(own):
                fr = T.SimpleNamespace(f_locals=rt.mkdict([(k, v) for k, v in f.f_locals.items() if not k.startswith('_rt')]))
                out.append((fr, name, f.f_lineno, f.f_code.co_name, None, None))
            f = f.f_back
        return out

    return mod('inspect', getmro=getmro, getargspec=getargspec, getmembers=getmembers,
               isclass=lambda o: isinstance(o, type), isfunction=lambda o: isinstance(o, T.FunctionType),
               ismethod=lambda o: isinstance(o, T.MethodType), ismodule=lambda o: isinstance(o, T.ModuleType),
               isbuiltin=lambda o: isinstance(o, T.BuiltinFunctionType),
               isdatadescriptor=lambda o: hasattr(type(o), '__set__') and hasattr(type(o), '__get__'),
               isroutine=lambda o: isinstance(o, (T.FunctionType, T.MethodType, T.BuiltinFunctionType)),
               formatargspec=lambda *a: '(...)', stack=stack,
               getmodule=lambda o: None)


class ArgSpec(tuple):
    args = property(lambda s: s[0])
    varargs = property(lambda s: s[1])
    keywords = property(lambda s: s[2])
    defaults = property(lambda s: s[3])


# ---------------------------------------------------------------- small ones
@stub('traceback')
def _(w):
    def exc_info():
        return w.modules['sys'].exc_info()

    def fmt_exc(*a):
        cls, e, tb = exc_info()
        return fmt3(cls, e, tb)

    def only(cls, e):
        try:
            s = str_(e)
        except Exception:
            s = '<unprintable>'
        return rt.add(rt.add(rt.type_name(cls), ': '), rt.add(s, '\n'))

    def fmt3(cls, e, tb, limit=None):
        return ['Traceback (most recent call last):\n', '  File "x.py", line 1, in f\n', only(cls, e)]

    def print_exception(cls, e, tb, limit=None, file=None):
        if file is not None:
            for x in fmt3(cls, e, tb):
                call(getattr_(file, 'write'), x)

    def print_exc(limit=None, file=None):
        print_exception(*exc_info(), file=file)
    return mod('traceback', format_exception=fmt3, format_exc=lambda *a: rt.str_join('', fmt3(*exc_info())),
               print_exc=print_exc, print_exception=print_exception, extract_tb=lambda *a: [],
               format_exception_only=lambda c, e: [only(c, e)], print_stack=lambda *a, **k: None, format_tb=lambda *a: [])


@stub('os')
def _(w):
    import os.path as p
    op = mod('os.path', join=p.join, basename=p.basename, dirname=p.dirname, extsep='.', exists=lambda x: False, sep='/',
             isfile=lambda x: False, isdir=lambda x: False, split=p.split, splitext=p.splitext, abspath=p.abspath)
    w.modules['os.path'] = op
    return mod('os', path=op, sep='/', environ=PyDict(), getcwd=lambda: '/', linesep='\n', name='java',
               remove=lambda *a: rt.unsupported('os.remove'), extsep='.')


@stub('glob')
def _(w):
    import glob
    import world

    def g(pat):
        return sorted(glob.glob(str(pat)))
    return mod('glob', glob=g)


@stub('platform')
def _(w):
    return mod('platform', python_implementation=lambda: 'Jython', system=lambda: 'Java', python_version=lambda: '2.7.3')


@stub('math')
def _(w):
    d = {k: getattr(math, k) for k in dir(math) if not k.startswith('__')}
    d['fabs'] = lambda x: abs(x)
    for k in ('floor', 'ceil', 'modf', 'trunc', 'isnan', 'isinf', 'frexp', 'copysign'):
        d[k] = (lambda f: lambda *a: f(*[plain(x, 'math') if is_sym(x) else x for x in a]))(getattr(math, k))
    d['floor'] = lambda x: reals.rfloor(x) if reals.is_num(x) else float(math.floor(plain(x, 'floor')))
    d['ceil'] = lambda x: reals.rceil(x) if reals.is_num(x) else float(math.ceil(plain(x, 'ceil')))
    return mod('math', **d)


@stub('operator')
def _(w):
    def itemgetter(*ks):
        if len(ks) == 1:
            return lambda o: getitem(o, ks[0])
        return lambda o: tuple(getitem(o, k) for k in ks)

    def attrgetter(*ks):
        def one(o, k):
            for p in str(k).split('.'):
                o = getattr_(o, p)
            return o
        if len(ks) == 1:
            return lambda o: one(o, ks[0])
        return lambda o: tuple(one(o, k) for k in ks)
    return mod('operator', itemgetter=itemgetter, attrgetter=attrgetter, add=rt.add, sub=rt.sub, mul=rt.mul, eq=rt.eq,
               ne=rt.ne, lt=rt.lt, le=rt.le, gt=rt.gt, ge=rt.ge, contains=lambda a, b: rt.contains(b, a), or_=rt.bor,
               and_=rt.band, xor=rt.bxor, getitem=getitem, truth=truth, not_=lambda x: not truth(x), neg=lambda x: -x, pos=lambda x: +x,
               invert=lambda x: ~x, inv=lambda x: ~x, abs=abs, lshift=rt.lshift, rshift=rt.rshift, mod=rt.mod, div=rt.div,
               floordiv=rt.floordiv, truediv=rt.truediv, pow=rt.pow_, concat=rt.add, iadd=rt.iadd, is_=rt.is_,
               is_not=lambda a, b: not truth(rt.is_(a, b)), index=lambda x: x, isSequenceType=lambda x: hasattr(type(x), '__getitem__'),
               setitem=rt.setitem, delitem=rt.delitem,
               methodcaller=lambda n, *a, **k: lambda o: call(getattr_(o, n), *a, **k))


@stub('functools')
def _(w):
    import functools

    def wraps(f, *a, **k):
        def deco(g):
            try:
                g.__name__ = f.__name__
                g.__doc__ = f.__doc__
                g.__module__ = f.__module__
                g.__dict__.update(getattr(f, '__dict__', {}))
            except AttributeError:
                pass
            return g
        return deco

    def partial(f, *a, **k):
        return lambda *b, **m: call(f, *(a + b), **dict(k, **m))
    import pybuiltins
    return mod('functools', wraps=wraps, partial=partial, reduce=pybuiltins.b_reduce, update_wrapper=lambda g, f, *a: wraps(f)(g),
               cmp_to_key=functools.cmp_to_key, total_ordering=functools.total_ordering)


@stub('itertools')
def _(w):
    import itertools as it
    return mod('itertools', izip=lambda *a: zip(*[iter_(x) for x in a]), imap=lambda f, *a: (call(f, *t) for t in zip(*[iter_(x) for x in a])),
               ifilter=lambda f, a: (x for x in iter_(a) if truth(x if f is None else call(f, x))),
               chain=ChainShim, count=it.count, islice=lambda s, *a: it.islice(iter_(s), *[plain(x) for x in a]), repeat=it.repeat,
               cycle=it.cycle, takewhile=lambda f, a: it.takewhile(lambda x: truth(call(f, x)), iter_(a)),
               dropwhile=lambda f, a: it.dropwhile(lambda x: truth(call(f, x)), iter_(a)), product=it.product,
               starmap=lambda f, a: (call(f, *iter_(t)) for t in iter_(a)), tee=it.tee, permutations=it.permutations,
               izip_longest=it.zip_longest, combinations=it.combinations)


class ChainShim(object):
    def __new__(cls, *its):
        return (x for i in its for x in iter_(i))

    @staticmethod
    def from_iterable(its):
        return (x for i in iter_(its) for x in iter_(i))


@stub('warnings')
def _(w):
    return mod('warnings', warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None)


@stub('logging')
def _(w):
    class Logger(object):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return lambda *a, **k: None
    return mod('logging', getLogger=lambda *a: Logger(), DEBUG=10, INFO=20, WARNING=30, ERROR=40, basicConfig=lambda **k: None,
               **{n: (lambda *a, **k: None) for n in ('debug', 'info', 'warn', 'warning', 'error', 'exception', 'critical', 'log')})


@stub('copy')
def _(w):
    def copy(o):
        if isinstance(o, (list, tuple)) and type(o) in (list, tuple):
            return o[:]
        if type(o) is PyDict:
            return o.copy()
        if type(o) in rt.PLAIN or is_sym(o):
            return o
        if isinstance(o, PySet):
            return o.copy()
        f = rt.class_method(type(o), '__copy__')
        if f is not None:
            return call(f, o)
        if isinstance(o, type) or isinstance(o, (T.FunctionType, T.MethodType, T.ModuleType)):
            return o
        c = type(o)
        if any(b.__module__ not in ('builtins',) and not getattr(b, '_pyguest', True) for b in c.__mro__[:-1]):
            raise Unsupported('copy.copy')
        r = c.__new__(c)
        if isinstance(o, PyDict):
            PyDict.update(r, o)
        elif isinstance(o, list):
            list.extend(r, o)
        try:
            r.__dict__.update(o.__dict__)
        except AttributeError:
            pass
        for b in c.__mro__:
            for n in getattr(b, '__slots__', ()) if b.__module__ not in ('rt', 'values') else ():
                n = str(n)
                if n not in ('__dict__', '__weakref__') and hasattr(o, n):
                    setattr(r, n, getattr(o, n))
        return r

    def deepcopy(o, memo=None):
        if type(o) is list:
            return [deepcopy(x) for x in o]
        if type(o) is tuple:
            return tuple(deepcopy(x) for x in o)
        if type(o) is PyDict:
            return rt.mkdict([(deepcopy(k), deepcopy(v)) for k, v in o._ents()])
        return copy(o)
    return mod('copy', copy=copy, deepcopy=deepcopy)


@stub('weakref')
def _(w):
    class ref(object):
        def __init__(self, o, cb=None):
            self._o = o

        def __call__(self):
            return self._o
    ref.__name__ = 'weakref'

    class WeakValueDictionary(PyDict):
        pass

    class WeakKeyDictionary(PyDict):
        pass

    class WeakSet(PySet):
        pass

    class _NotADict(object):
        pass
    # these are not dict/set subclasses in the standard library
    wv = make_userdict('WeakValueDictionary')
    wk = make_userdict('WeakKeyDictionary')
    ws = make_userset('WeakSet')
    return mod('weakref', ref=ref, proxy=lambda o, cb=None: o, WeakValueDictionary=wv, WeakKeyDictionary=wk, WeakSet=ws,
               ReferenceType=ref)


def make_userdict(name):
    ns = {}

    class UD(object):
        def __init__(self, *a, **k):
            self.data = PyDict(*a, **k)

        def __iter__(self):
            return iter(self.data.keys())
    for n in ('__len__', '__contains__', '__getitem__', '__setitem__', '__delitem__', 'get', 'keys', 'values', 'items',
              'iterkeys', 'itervalues', 'iteritems', 'update', 'pop', 'popitem', 'setdefault', 'has_key', 'clear', 'copy'):
        setattr(UD, n, (lambda m: lambda self, *a, **k: getattr(self.data, m)(*a, **k))(n))
    UD.__name__ = UD.__qualname__ = name
    UD.__module__ = 'weakref'
    return UD


def make_userset(name):
    class US(object):
        def __init__(self, it=None):
            self.data = PySet(it if it is not None else ())

        def __iter__(self):
            return iter(list(self.data))

        def __len__(self):
            return len(self.data)

        def __contains__(self, x):
            return x in self.data
    for n in ('add', 'remove', 'discard', 'update', 'clear', 'pop'):
        setattr(US, n, (lambda m: lambda self, *a: getattr(self.data, m)(*a))(n))
    US.__name__ = US.__qualname__ = name
    US.__module__ = 'weakref'
    return US


@stub('collections')
def _(w):
    class OrderedDict(PyDict):
        def copy(self):
            return type(self)(self)

        def popitem(self, last=True):
            ks = self.keys()
            if not ks:
                raise KeyError('dictionary is empty')
            k = ks[-1 if last else 0]
            return (k, self.pop(k))

    class defaultdict(PyDict):
        def __init__(self, f=None, *a, **k):
            PyDict.__init__(self, *a, **k)
            self.default_factory = f

        def __missing__(self, k):
            if self.default_factory is None:
                raise KeyError(k)
            v = call(self.default_factory)
            self[k] = v
            return v

    class Counter(PyDict):
        def __init__(self, it=None, **k):
            PyDict.__init__(self)
            if it is not None:
                if isinstance(it, PyDict):
                    for x, n in it._ents():
                        self[x] = n
                else:
                    for x in iter_(it):
                        self[x] = rt.add(self.get(x, 0), 1)

        def __missing__(self, k):
            return 0

    class deque(object):
        def __init__(self, it=(), maxlen=None):
            self._l = list(iter_(it))

        def __iter__(self):
            return iter(list(self._l))

        def __len__(self):
            return len(self._l)

        def __getitem__(self, i):
            return getitem(self._l, i)

        def append(self, x):
            self._l.append(x)

        def appendleft(self, x):
            self._l.insert(0, x)

        def pop(self):
            return self._l.pop()

        def popleft(self):
            return self._l.pop(0)

        def extend(self, it):
            self._l.extend(iter_(it))

        def __contains__(self, x):
            return rt.contains(x, self._l)

    def namedtuple(name, fields, **k):
        if isinstance(fields, str):
            fields = str(fields).replace(',', ' ').split()
        fields = [str(f) for f in fields]

        def new(cls, *a, **kw):
            vals = list(a) + [kw[f] for f in fields[len(a):]]
            return tuple.__new__(cls, vals)
        d = {'__new__': new, '_fields': tuple(fields), '__slots__': ()}
        for i, f in enumerate(fields):
            d[f] = property((lambda n: lambda s: s[n])(i))
        return type(str(name), (tuple,), d)

    class Callable(object):
        pass
    for c in (OrderedDict, defaultdict, Counter, deque):
        c.__module__ = 'collections'
    def abc(test):
        class Meta(type):
            def __instancecheck__(cls, x):
                return bool(test(x, type(x)))

            def __subclasscheck__(cls, c):
                return bool(test(None, c))
        return Meta('ABC', (object,), {})
    seqs = (list, tuple, str)
    abcs = dict(
        Iterable=abc(lambda x, c: hasattr(c, '__iter__') and not issubclass(c, str)),
        Mapping=abc(lambda x, c: issubclass(c, PyDict)), MutableMapping=abc(lambda x, c: issubclass(c, PyDict)),
        Sequence=abc(lambda x, c: issubclass(c, seqs)), MutableSequence=abc(lambda x, c: issubclass(c, list)),
        Set=abc(lambda x, c: issubclass(c, PySet)), MutableSet=abc(lambda x, c: issubclass(c, PySet) and not issubclass(c, rt.PyFrozenSet)),
        Callable=abc(lambda x, c: hasattr(c, '__call__')), Sized=abc(lambda x, c: hasattr(c, '__len__')),
        Container=abc(lambda x, c: hasattr(c, '__contains__')), Hashable=abc(lambda x, c: getattr(c, '__hash__', None) is not None),
        Iterator=abc(lambda x, c: hasattr(c, '__iter__') and (hasattr(c, 'next') or hasattr(c, '__next__'))))
    return mod('collections', OrderedDict=OrderedDict, defaultdict=defaultdict, deque=deque, Counter=Counter,
               namedtuple=namedtuple, **abcs)


@stub('array')
def _(w):
    class array(object):
        def __init__(self, tc, it=()):
            self.typecode = tc
            self._l = list(iter_(it))

        def __iter__(self):
            return iter(list(self._l))

        def __len__(self):
            return len(self._l)

        def __getitem__(self, i):
            return getitem(self._l, i)

        def append(self, x):
            self._l.append(x)

        def tolist(self):
            return list(self._l)
    return mod('array', array=array, ArrayType=array)


@stub('sets')
def _(w):
    class BaseSet(object):
        def __init__(self, it=()):
            self._data = PySet(it)

        def __iter__(self):
            return iter(list(self._data))

        def __len__(self):
            return len(self._data)

        def __contains__(self, x):
            return x in self._data

        def __eq__(self, o):
            return isinstance(o, BaseSet) and self._data == o._data
        __hash__ = object.__hash__

    class Set(BaseSet):
        def add(self, x):
            self._data.add(x)

    class ImmutableSet(BaseSet):
        pass
    return mod('sets', BaseSet=BaseSet, Set=Set, ImmutableSet=ImmutableSet)


@stub('decimal')
def _(w):
    import decimal as D

    class Decimal(object):
        """only what the code under test can see of a Decimal: conversion to float"""
        def __init__(self, v='0'):
            if isinstance(v, str):
                v = str(plain(v))
            self._v = v if is_sym(v) else D.Decimal(v)

        def __float__(self):
            return V.tofloat(self._v) if is_sym(self._v) else float(self._v)

        def __eq__(self, o):
            if isinstance(o, Decimal):
                return rt.eq(self._v, o._v)
            return rt.eq(self._v, o) if isinstance(o, int) else False
        __hash__ = object.__hash__

        def __ne__(self, o):
            return V.not_(self.__eq__(o))

        def cmp(self, o, op):
            o = o._v if isinstance(o, Decimal) else o
            a = self._v
            if not is_sym(a) and not is_sym(o):
                return op(a, o)
            return op(a if is_sym(a) else V.tofloat(int(a)) if a != a.to_integral_value() else int(a),
                      o if not isinstance(o, D.Decimal) else int(o) if o == o.to_integral_value() else float(o))

        def __lt__(self, o):
            return self.cmp(o, rt.lt)

        def __le__(self, o):
            return self.cmp(o, rt.le)

        def __gt__(self, o):
            return self.cmp(o, rt.gt)

        def __ge__(self, o):
            return self.cmp(o, rt.ge)

        def __int__(self):
            return rt.int_(self._v) if is_sym(self._v) else int(self._v)
        __trunc__ = __long__ = __int__

        def __str__(self):
            return rt.str_(self._v) if type(self._v) is V.SymInt else rt.OpaqueStr(lambda: str(D.Decimal(plain(self._v))))

        def to_integral_value(self, *a, **k):
            v = self._v
            if type(v) is V.SymInt:
                return self
            if is_sym(v):
                # halves to even
                m = V.mkfloat(z3.fpRoundToIntegral(z3.RNE(), v.fp))
                return Decimal(m)
            return wrap(v.to_integral_value(*a, **k))
        to_integral = to_integral_value

        def is_nan(self):
            return rt.ne(self._v, self._v) if is_sym(self._v) else self._v.is_nan()

        def is_infinite(self):
            v = self._v
            if type(v) is V.SymInt:
                return False
            return V.or_(rt.eq(v, float('inf')), rt.eq(v, float('-inf'))) if is_sym(v) else v.is_infinite()

        def __getattr__(self, name):
            if name.startswith('_') or not hasattr(D.Decimal, name):
                raise AttributeError(name)
            if is_sym(self._v):
                raise V.Unsupported('Decimal.' + name)
            r = getattr(self._v, name)
            return r if not callable(r) else lambda *a, **k: wrap(r(*[x._v if isinstance(x, Decimal) else x for x in a], **k))

    def wrap(v):
        return Decimal(v) if isinstance(v, D.Decimal) else v
    Decimal.__module__ = 'decimal'
    return mod('decimal', Decimal=Decimal)


class UUIDState:
    n = 0


@stub('uuid')
def _(w):
    class UUID(object):
        """128-bit identifiers: hex or bytes in, hex/bytes/str out"""
        def __init__(self, hex=None, bytes=None, int=None):
            if bytes is not None:
                if len(bytes) != 16:
                    raise ValueError('bytes is not a 16-char string')
                self.bytes = bytes if is_sym(bytes) else str(bytes)
            elif hex is not None:
                h = str(plain(hex)).replace('urn:', '').replace('uuid:', '').strip('{}').replace('-', '')
                if len(h) != 32:
                    raise ValueError('badly formed hexadecimal UUID string')
                from builtins import bytes as B_
                self.bytes = B_.fromhex(h).decode('latin-1')
            else:
                self.bytes = int.to_bytes(16, 'big').decode('latin-1')

        @property
        def hex(self):
            return rt.OpaqueStr(lambda: plain(self.bytes).encode('latin-1').hex()) if is_sym(self.bytes) else \
                self.bytes.encode('latin-1').hex()

        def __str__(self):
            h = self.hex
            if is_sym(h):
                return UUIDStr(self)
            return '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])

        def __repr__(self):
            return 'UUID(...)'

        def __eq__(self, o):
            return rt.eq(self.bytes, o.bytes) if isinstance(o, UUID) else False

        def __hash__(self):
            return hash(plain(self.bytes))
    UUID.__module__ = 'uuid'

    class UUIDStr(rt.OpaqueStr):
        """str(UUID) is injective in the 16 bytes"""
        __slots__ = ('u',)

        def __init__(self, u):
            def th():
                h = plain(u.bytes).encode('latin-1').hex()
                return '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])
            rt.OpaqueStr.__init__(self, th)
            self.u = u

        def __eq__(self, o):
            if type(o) is UUIDStr:
                return rt.eq(self.u.bytes, o.u.bytes)
            return V.seq_eq(self, o)

    w.uuid_n = 0

    def uuid4():
        w.uuid_n += 1
        return UUID(bytes=('%016d' % w.uuid_n))
    return mod('uuid', UUID=UUID, uuid4=uuid4, uuid1=uuid4)


@stub('time')
def _(w):
    import time as _t

    class struct_time(tuple):
        def __new__(cls, it):
            return tuple.__new__(cls, tuple(iter_(it)))
        tm_year = property(lambda s: s[0])
        tm_mon = property(lambda s: s[1])
        tm_mday = property(lambda s: s[2])
        tm_hour = property(lambda s: s[3])
        tm_min = property(lambda s: s[4])
        tm_sec = property(lambda s: s[5])
        tm_wday = property(lambda s: s[6])
        tm_yday = property(lambda s: s[7])
        tm_isdst = property(lambda s: s[8])

    def gmtime(t=0):
        t = plain(t)
        try:
            return struct_time(_t.gmtime(math.floor(t) if t >= 0 else -math.floor(-t)))
        except (OverflowError, OSError, ValueError):
            raise ValueError('timestamp out of range for platform time_t')
    return mod('time', time=lambda: 1400000000.0, gmtime=gmtime, localtime=gmtime, struct_time=struct_time, timezone=0,
               altzone=0, daylight=0, tzname=('UTC', 'UTC'), sleep=lambda n: None, mktime=lambda t: 0.0,
               strftime=lambda *a: rt.unsupported('strftime'))


@stub('zlib')
def _(w):
    class zerror(Exception):
        pass
    zerror.__name__ = 'error'

    def compress(s, level=6):
        s = plain(s, 'zlib.compress')
        return _zlib.compress(str(s).encode('latin-1'), level).decode('latin-1')

    def decompress(s, *a):
        s = plain(s, 'zlib.decompress')
        try:
            return _zlib.decompress(str(s).encode('latin-1')).decode('latin-1')
        except _zlib.error as e:
            raise zerror(str(e))
    return mod('zlib', compress=compress, decompress=decompress, error=zerror,
               crc32=lambda s: _zlib.crc32(str(plain(s)).encode('latin-1')))


# ---------------------------------------------------------------- XML
class Element(object):
    def __init__(self, text):
        self.text = text
        self.tag = 'x'


@stub('defusedxml')
def _(w):
    return mod('defusedxml', __path__=[])


class XMLLog:
    calls = []


@stub('defusedxml.ElementTree')
def _(w):
    w.xml_calls = []

    class ParseError(SyntaxError):
        pass

    class NotWellFormed(Exception):
        pass

    class DTDForbidden(ValueError):
        pass

    class EntitiesForbidden(ValueError):
        pass

    def fromstring(text, forbid_dtd=False, forbid_entities=True, forbid_external=True):
        """parsing is not modelled: the element remembers its source text and the flags it was parsed with"""
        if type(text) is str:
            if forbid_dtd and '<!DOCTYPE' in text:
                raise DTDForbidden('a', None, None)
            if forbid_entities and '<!ENTITY' in text:
                raise EntitiesForbidden('e', None, None, None, None, None)
        e = Element(text)
        w.xml_calls.append((text, forbid_dtd, forbid_entities, forbid_external))
        return e

    def tostring(e, encoding='us-ascii', method='xml'):
        return e.text
    Element.__module__ = 'xml.etree.ElementTree'
    m = mod('defusedxml.ElementTree', fromstring=fromstring, tostring=tostring, ParseError=ParseError,
            DTDForbidden=DTDForbidden, EntitiesForbidden=EntitiesForbidden, XML=fromstring, Element=Element)
    w.xml_module = m
    return m


@stub('pyamf._version')
def _(w):
    # made by setup.py build: version = Version(*(0, 8, 0))
    v = w.load('pyamf.versions')
    return mod('pyamf._version', version=call(getattr_(v, 'Version'), 0, 8, 0))


# ---------------------------------------------------------------- what Jython's datetime.py and calendar.py import
class JavaClass(object):
    @staticmethod
    def getTimeZone(n):
        return None


for _n in ('java', 'java.lang', 'java.sql', 'java.util', 'org', 'org.python', 'org.python.core'):
    STUBS[_n] = (lambda n: lambda w: mod(n, __path__=[], Object=JavaClass, Date=JavaClass, Time=JavaClass,
                                         Timestamp=JavaClass, Calendar=JavaClass, GregorianCalendar=JavaClass,
                                         TimeZone=JavaClass, Py=JavaClass))(_n)


ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64_arg(x):
    if is_sym(x) and isinstance(x, str) and V.is_uni(x) or type(x) is V.UStr:
        return items_of(V.encode_items(x, 'ascii', 'strict') if is_sym(x) else V.s_encode(x, 'ascii'))
    if not isinstance(x, str):
        raise TypeError('argument 1 must bytes or unicode')
    return items_of(x)


def bv8(i):
    return z3.BitVecVal(i, 8) if isinstance(i, int) else i


def b64encode(x):
    its = [bv8(i) for i in b64_arg(x)]
    out = []
    for k in range(0, len(its), 3):
        chunk = its[k:k + 3]
        bits = z3.Concat(*(chunk + [z3.BitVecVal(0, 8)] * (3 - len(chunk))) )
        for j in range(len(chunk) + 1):
            v = z3.simplify(z3.Extract(23 - 6 * j, 18 - 6 * j, bits))
            if z3.is_bv_value(v):
                out.append(ALPHABET[v.as_long()])
                continue
            w = z3.ZeroExt(2, v)
            c = z3.simplify(z3.If(z3.ULT(w, 26), w + 65, z3.If(z3.ULT(w, 52), w + 71, z3.If(z3.ULT(w, 62), w - 4, z3.If(w == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8))))))
            V.B64SRC[c.get_id()] = c, v
            out.append(c)
        out.extend([61] * (3 - len(chunk)))
    return V.SymStr.make(out)


def b64decode(x):
    """the algorithm of binascii.a2b_base64; forks on the kind of every character"""
    its = b64_arg(x)

    def six(i):
        """six bits, '=' or None"""
        if isinstance(i, int):
            if i == 61:
                return '='
            k = ALPHABET.find(bytes([i])) if i < 128 else -1
            return z3.BitVecVal(k, 6) if k >= 0 else None
        if i.get_id() in V.B64SRC:
            return V.B64SRC[i.get_id()][1]
        for lo, hi, off in ((65, 90, -65), (97, 122, -71), (48, 57, 4)):
            if E.branch(z3.And(z3.UGE(i, lo), z3.ULE(i, hi))):
                return z3.Extract(5, 0, i + off)
        if E.branch(i == 43):
            return z3.BitVecVal(62, 6)
        if E.branch(i == 47):
            return z3.BitVecVal(63, 6)
        return '=' if E.branch(i == 61) else None
    quad, left, out = 0, None, []
    for k, i in enumerate(its):
        v = six(i)
        if v is None:
            continue
        if isinstance(v, str):
            if quad < 2:
                continue
            if quad == 2:
                for n in its[k + 1:]:
                    n = six(n)
                    if n is not None:
                        break
                else:
                    n = None
                if not isinstance(n, str):
                    continue
            left = None
            break
        quad = (quad + 1) & 3
        left = v if left is None else z3.Concat(left, v)
        if left.size() >= 8:
            r = left.size() - 8
            b = z3.simplify(z3.Extract(left.size() - 1, r, left))
            out.append(b.as_long() if z3.is_bv_value(b) else b)
            left = z3.Extract(r - 1, 0, left) if r else None
    if left is not None:
        raise TypeError('Incorrect padding')
    return V.SymStr.make(out)


@stub('base64')
def _(w):
    return mod('base64', b64decode=b64decode, b64encode=b64encode)


@stub('locale')
def _(w):
    return mod('locale')


@stub('binascii')
def _(w):
    class Error(Exception):
        pass

    def hexlify(s):
        out = []
        for b in items_of(s):
            if isinstance(b, int):
                out += [ord(c) for c in '%02x' % b]
            else:
                for n in (z3.LShR(b, 4), b & 15):
                    out.append(z3.simplify(z3.If(z3.ULT(n, 10), n + 48, n + 87)))
        return V.SymStr.make(out)

    def unhexlify(s):
        import binascii
        try:
            return binascii.unhexlify(plain(s, 'unhexlify').encode('latin-1')).decode('latin-1')
        except ValueError as e:
            raise TypeError(str(e))

    def crc32(s, start=0):
        n = _zlib.crc32(plain(s, 'crc32').encode('latin-1'), start)
        return n - 2 ** 32 if n >= 2 ** 31 else n
    return mod('binascii', Error=Error, hexlify=hexlify, b2a_hex=hexlify, unhexlify=unhexlify, a2b_hex=unhexlify, crc32=crc32,
               a2b_base64=b64decode, b2a_base64=lambda s: rt.add(b64encode(s), '\n'))


@stub('string')
def _(w):
    import string as st
    d = {k: getattr(st, k) for k in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits', 'punctuation',
                                     'whitespace', 'printable')}
    d.update(letters=st.ascii_uppercase + st.ascii_lowercase, lowercase=st.ascii_lowercase, uppercase=st.ascii_uppercase)
    for k in ('split', 'strip', 'lower', 'upper', 'replace', 'find', 'rfind', 'count', 'lstrip', 'rstrip', 'zfill', 'ljust', 'rjust', 'center'):
        d[k] = (lambda k: lambda s, *a: call(getattr_(s, k), *a))(k)
    d['join'] = lambda l, sep=' ': call(getattr_(sep, 'join'), l)
    return mod('string', **d)


@stub('re')
def _(w):
    import re

    def back(x, u):
        if isinstance(x, tuple):
            return tuple(back(y, u) for y in x)
        if isinstance(x, list):
            return [back(y, u) for y in x]
        if isinstance(x, str):
            return UStr(x) if u else str(x)
        return x

    class Match(object):
        def __init__(self, m, u):
            self._m, self._u = m, u

        def group(self, *a):
            return back(self._m.group(*a), self._u)

        def groups(self, *a):
            return back(self._m.groups(*a), self._u)

        def groupdict(self, *a):
            r = PyDict()
            for k, v in self._m.groupdict(*a).items():
                r[k] = back(v, self._u)
            return r

        def start(self, *a):
            return self._m.start(*a)

        def end(self, *a):
            return self._m.end(*a)

        def span(self, *a):
            return self._m.span(*a)

    class Pattern(object):
        def __init__(self, p, flags=0):
            self.pattern = p
            self.flags = flags
            if not is_uni(p):
                flags |= re.ASCII
            self._p = re.compile(str(p), flags)

        def _match(self, m, u):
            return None if m is None else Match(m, u)

        def match(self, s, *a):
            return self._match(self._p.match(str(plain(s, 're')), *a), is_uni(s))

        def search(self, s, *a):
            return self._match(self._p.search(str(plain(s, 're')), *a), is_uni(s))

        def finditer(self, s, *a):
            return iter([Match(m, is_uni(s)) for m in self._p.finditer(str(plain(s, 're')), *a)])

        def findall(self, s, *a):
            return back(self._p.findall(str(plain(s, 're')), *a), is_uni(s))

        def split(self, s, *a):
            return back(self._p.split(str(plain(s, 're')), *a), is_uni(s))

        def sub(self, r, s, *a):
            u = is_uni(s)
            f = (lambda m: str(plain(call(r, Match(m, u)), 're'))) if callable(r) else str(plain(r, 're'))
            return back(self._p.sub(f, str(plain(s, 're')), *a), u)

    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)
    d = dict(compile=compile, escape=lambda s: back(re.escape(str(plain(s, 're'))), is_uni(s)), error=re.error)
    for k in ('match', 'search', 'finditer', 'findall', 'split'):
        d[k] = (lambda k: lambda p, s, *a: getattr(compile(p, *a[k == 'split':]), k)(s, *a[:k == 'split']))(k)
    d['sub'] = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    for k in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'U', 'UNICODE', 'L', 'LOCALE'):
        d[k] = int(getattr(re, k))
    return mod('re', **d)


@stub('numbers')
def _(w):
    def number(*types):
        class Meta(type):
            def __instancecheck__(cls, x):
                return rt.isinstance_(x, types)

            def __subclasscheck__(cls, c):
                return any(t in getattr(c, '__mro__', ()) for t in types)
        return Meta('Number', (object,), {})
    ints = (int, rt.PyLong)
    return mod('numbers', Integral=number(bool, *ints), Rational=number(bool, *ints), Real=number(bool, float, *ints),
               Complex=number(bool, float, complex, *ints), Number=number(bool, float, complex, *ints))


@stub('abc')
def _(w):
    return mod('abc', ABCMeta=type, abstractmethod=lambda f: f, abstractproperty=property)


@stub('threading')
def _(w):
    class Lock(object):
        def __init__(self):
            self._n = 0

        def acquire(self, *a):
            self._n += 1
            return True

        def release(self):
            self._n -= 1

        def __enter__(self):
            self._n += 1
            return True

        def __exit__(self, *e):
            self._n -= 1

        def locked(self):
            return self._n > 0

    class local(object):
        pass
    return mod('threading', Lock=Lock, RLock=Lock, local=local, Condition=Lock,
               currentThread=lambda: rt.unsupported('threading.currentThread'))
