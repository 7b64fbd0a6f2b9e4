"""Runtime: Python 2 semantics for lowered code, over concrete and symbolic values."""
import builtins as B
import functools
import sys
import types as T
import z3
import values as V
import reals
from core import E, Ctl, Unsupported, PathEnd
from values import (UStr, PyLong, Sym, SymBool, SymInt, SymFloat, SymSeq, SymStr, SymUni, is_sym, is_uni,
                    items_of, to_uni_items, seq_eq, mkbool, not_, and_, or_, mkint, tofloat)

MAXINT = 2147483647      # Jython: sys.maxint


class OpaqueStr(SymStr):
    """text whose content depends on symbolic values in a way that is only computed if somebody looks"""
    __slots__ = ('thunk', 'cache')

    def __init__(self, thunk):
        self.thunk = thunk
        self.cache = None
        self.sub = None

    @classmethod
    def make(cls, items):
        return SymStr.make(items)

    @property
    def items(self):
        if self.cache is None:
            r = self.thunk()
            self.cache = items_of(r)
        return self.cache


def plain(x, what='value'):
    """concrete version of a scalar (forks)"""
    if is_sym(x):
        if type(x) is SymBool:
            return bool(x)
        return x.concretize(what)
    return x


# ------------------------------------------------------------------ classes
class OldMeta(type):
    """metaclass of old-style classes"""

    def __call__(cls, *a, **k):
        if '__init__' not in dir(cls) or cls.__init__ is object.__init__:
            if a or k:
                raise TypeError('this constructor takes no arguments')
        return type.__call__(cls, *a, **k)


class InstanceType(object):
    pass


INTERNAL_NAMES = ('_rtt', '_rtu')


def _mk_cmp(op):
    def f(self, o):
        r = self.__cmp__(o)
        if r is NotImplemented:
            return r
        return {'eq': r == 0, 'ne': r != 0, 'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[op]
    return f


def _len_bool(self):
    return truth(type(self).__len__(self))


def _next(self):
    return self.next()


def _nz(self):
    return truth(type(self).__nonzero__(self))


def fix_namespace(ns, bases):
    for k in [k for k in ns if k.startswith('_rtt')]:
        del ns[k]
    if 'next' in ns and '__next__' not in ns:
        ns['__next__'] = _next
    if '__nonzero__' in ns:
        ns['__bool__'] = _nz
    elif '__len__' in ns and not any(hasattr(b, '__nonzero__') for b in bases):
        ns['__bool__'] = _len_bool
    if '__cmp__' in ns:
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            ns.setdefault('__%s__' % op, _mk_cmp(op))
    if '__eq__' in ns and '__hash__' not in ns:
        h = None
        for b in bases:
            h = getattr(b, '__hash__', None)
            if h is not None:
                break
        ns['__hash__'] = h or object.__hash__
    if '__div__' in ns:
        ns.setdefault('__truediv__', ns['__div__'])


HIDDEN_CLASS_ATTRS = frozenset(['__next__', '__bool__'])


def build_class(func, name, *bases, **kw):
    bases = tuple(MAP_BASE.get(b, b) if isinstance(b, type) else b for b in bases)
    scalar = any(b in (str, UStr, int, PyLong, float) or type(b) is V.SubMeta for b in bases)

    def meta(n, bs, ns):
        fix_namespace(ns, bs)
        m = ns.get('__metaclass__')
        if m is not None and m is not type:
            return call(m, n, bs, ns)
        if not bases and m is None:
            return OldMeta(n, bs, ns)
        best = V.SubMeta if scalar else type
        for b in bs:
            if issubclass(type(b), best):
                best = type(b)
        if best is OldMeta and any(type(b) is not OldMeta for b in bs):
            best = NewFromOld
        return best(n, bs, ns)

    def prepare(n, bs, **k):
        return {}
    meta.__prepare__ = prepare
    return B.__build_class__(func, name, *bases, metaclass=meta)


class NewFromOld(OldMeta):
    """new-style class with an old-style base"""


MAP_BASE = {}


def is_oldclass(c):
    return type(c) is OldMeta


# ------------------------------------------------------------------ truth, equality, order
def truth(x):
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return E.branch(x.e)
    if type(x) is SymInt:
        return bool(x)
    return bool(x)


PLAIN = frozenset([int, str, UStr, float, bool, type(None)])


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta in PLAIN and tb in PLAIN:
        if ta is tb:
            return a == b
        if ta is UStr or tb is UStr:
            if (ta is str and not a.isascii()) or (tb is str and not b.isascii()):
                return False
        return a == b
    if a is b and not (ta is float or ta is SymFloat):
        if ta in (list, tuple):
            return True
    if issubclass(ta, SymSeq) or issubclass(tb, SymSeq):
        if isinstance(a, str) and isinstance(b, str):
            return seq_eq(a, b)
        if issubclass(ta, SymSeq):
            return eq_fallback(b, a)
        return eq_fallback(a, b)
    if issubclass(ta, Sym):
        if issubclass(tb, Sym) or tb in PLAIN:
            r = a == b
            return False if r is NotImplemented else r
        return eq_fallback(b, a)
    if issubclass(tb, Sym):
        if ta in PLAIN:
            r = b == a
            return False if r is NotImplemented else r
        return eq_fallback(a, b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        return eq_seq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a).__eq__ in (list.__eq__, tuple.__eq__) \
            and type(b).__eq__ in (list.__eq__, tuple.__eq__):
        if isinstance(a, list) != isinstance(b, list):
            return False
        return eq_seq(a, b)
    return a == b


def eq_fallback(a, b):
    """a is an ordinary object, b symbolic"""
    f = getattr(type(a), '__eq__', None)
    if f is None or f in (object.__eq__, list.__eq__, tuple.__eq__):
        return False
    r = f(a, b)
    return False if r is NotImplemented else r


def eq_seq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y and type(x) not in (float, SymFloat):
            continue
        r = eq(x, y)
        if type(r) is SymBool:
            out.append(r)
        elif not r:
            return False
    return and_(*out)


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta not in PLAIN and tb not in PLAIN and not is_sym(a) and not is_sym(b) and \
            not isinstance(a, (list, tuple)):
        f = ta.__dict__.get('__ne__')
        if f is not None:
            return a != b
    return not_(eq(a, b))


ORDER_NUM = (int, float)


def type_rank(x):
    if x is None:
        return ''
    if isinstance(x, (int, float)):
        return '\0'       # numbers come before all named types
    return type_name(type_(x))


def cmp(a, b):
    """Python 2 three-way comparison (any types)"""
    if truth(eq(a, b)):
        return 0
    if truth(lt(a, b)):
        return -1
    return 1


def comparable(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return True
    return False


def lt(a, b):
    return order(a, b, 'lt')


def le(a, b):
    return order(a, b, 'le')


def gt(a, b):
    return order(a, b, 'gt')


def ge(a, b):
    return order(a, b, 'ge')


import operator
OPS = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}


def order(a, b, op):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return OPS[op](a, b)
    if isinstance(a, str) and isinstance(b, str):
        if not is_sym(a) and not is_sym(b) and is_uni(a) == is_uni(b):
            return OPS[op](str(a), str(b))
        if not is_sym(a):
            return SymSeqOrder(a, b, op)
        return OPS[op](a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list):
        for x, y in zip(a, b):
            if not truth(eq(x, y)):
                return order(x, y, op)
        return OPS[op](len(a), len(b))
    if a is None and b is None:
        return op in ('le', 'ge')
    for x in (a, b):
        t = type(x)
        if t in PLAIN or is_sym(x) or isinstance(x, (list, tuple)):
            continue
        if any(getattr(t, '__%s__' % o, None) not in (None, getattr(object, '__%s__' % o)) for o in OPS):
            try:
                return OPS[op](a, b)
            except TypeError:
                break
    ra, rb = type_rank(a), type_rank(b)
    if ra == rb:
        ra, rb = id(a), id(b)
    return OPS[op](ra, rb)


def SymSeqOrder(a, b, op):
    la = SymUni(items_of(a)) if is_uni(a) else SymStr(items_of(a))
    return OPS[op](la, b)


def chain(left, ops, *rights):
    r = True
    for op, rf in zip(ops, rights):
        right = rf()
        r = COMPARE[op](left, right)
        if not truth(r):
            return r
        left = right
    return r


def is_(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if type(b) is not SymBool:
            a, b = b, a
        if type(a) is SymBool:
            return mkbool(a.e == b.e)
        return b if a is True else not_(b) if a is False else False
    return a is b


def isnot(a, b):
    r = is_(a, b)
    return not_(r)


def contains(x, coll):
    t = type(coll)
    if t in (list, tuple) or isinstance(coll, (list, tuple)) and t.__contains__ in (list.__contains__, tuple.__contains__):
        for y in coll:
            if y is x or truth(eq(y, x)):
                return True
        return False
    if isinstance(coll, str):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, not " + type_name(type_(x)))
        if is_sym(x) or is_sym(coll) or is_uni(x) != is_uni(coll):
            if is_uni(x) or is_uni(coll):
                return SymUni(to_uni_items(coll)).find(SymUni(to_uni_items(x))) >= 0
            return SymStr(items_of(coll)).find(x) >= 0
        return str.__contains__(coll, x)
    f = getattr(t, '__contains__', None)
    if f is not None:
        return truth(f(coll, x))
    if hasattr(t, '__iter__') or hasattr(t, '__getitem__'):
        for y in coll:
            if y is x or truth(eq(y, x)):
                return True
        return False
    raise TypeError("argument of type '%s' is not iterable" % type_name(type_(coll)))


def notcontains(x, coll):
    return not contains(x, coll)


COMPARE = dict(eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge, contains=contains, notcontains=notcontains,
               is_=is_, isnot=isnot)


# ------------------------------------------------------------------ arithmetic
def add(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a + b
    if isinstance(a, str) and isinstance(b, str):
        if ta is str and tb is str:
            return a + b
        return V.seq_add(a, b)
    if is_sym(a) or is_sym(b):
        if isinstance(a, str) != isinstance(b, str) and not has_radd(a, b):
            raise TypeError('cannot concatenate')
    return a + b


def has_radd(a, b):
    return hasattr(type(b), '__radd__') and not is_sym(b) or hasattr(type(a), '__add__') and not is_sym(a) and not isinstance(a, str)


def iadd(a, b):
    if type(a) is list or isinstance(a, list):
        if type(b) in (list, tuple):
            a += b
        else:
            a += list(B.iter(b))
        return a
    f = getattr(type(a), '__iadd__', None)
    if f is not None and type(a) not in PLAIN:
        r = f(a, b)
        if r is not NotImplemented:
            return r
    return add(a, b)


def sub(a, b):
    return a - b


def mul(a, b):
    if isinstance(a, UStr) and isinstance(b, int):
        return UStr(str(a) * operator.index(b))
    if isinstance(b, UStr) and isinstance(a, int):
        return UStr(str(b) * operator.index(a))
    return a * b


def isint(x):
    return isinstance(x, int)


def div(a, b):
    if isint(a) and isint(b):
        return a // b
    return a / b


def truediv(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    if isinstance(a, str):
        return format_percent(a, b)
    return a % b


def pow_(a, b):
    if isint(a) and isint(b) and not is_sym(b) and b < 0:
        return float(a) ** b
    return a ** b


def lshift(a, b):
    return a << b


def rshift(a, b):
    return a >> b


def bor(a, b):
    return a | b


def bxor(a, b):
    return a ^ b


def band(a, b):
    return a & b


def nan():
    return float('nan')


# ------------------------------------------------------------------ formatting
def conv_s(x):
    """what %s inserts: a guest string (str or unicode)"""
    if isinstance(x, str):
        return x
    return str_(x)


def format_percent(fmt, args):
    uni = is_uni(fmt)
    if is_sym(fmt):
        fmt = fmt.concretize('format string')
    f = str(fmt)
    if isinstance(args, tuple):
        vals = list(args)
        mapping = None
    else:
        vals = [args]
        mapping = args if not isinstance(args, (str, int, float)) and hasattr(type(args), '__getitem__') \
            and not isinstance(args, list) else None
    out = []
    i = 0
    n = len(f)
    used = 0
    single = not isinstance(args, tuple)
    while i < n:
        j = f.find('%', i)
        if j < 0:
            out.append(f[i:])
            break
        if j > i:
            out.append(f[i:j])
        i = j + 1
        if i >= n:
            raise ValueError('incomplete format')
        key = None
        if f[i] == '(':
            k = f.index(')', i)
            key = f[i + 1:k]
            i = k + 1
        st = i
        while i < n and f[i] in '#0- +':
            i += 1
        while i < n and (f[i].isdigit() or f[i] == '*'):
            if f[i] == '*':
                raise Unsupported('* in format')
            i += 1
        if i < n and f[i] == '.':
            i += 1
            while i < n and f[i].isdigit():
                i += 1
        while i < n and f[i] in 'hlL':
            i += 1
        spec = f[st:i].rstrip('hlL')
        if i >= n:
            raise ValueError('incomplete format')
        c = f[i]
        i += 1
        if c == '%':
            out.append('%')
            continue
        if key is not None:
            if mapping is None:
                raise TypeError('format requires a mapping')
            v = getitem(mapping, key)
            used = len(vals)
        else:
            if used >= len(vals):
                raise TypeError('not enough arguments for format string')
            v = vals[used]
            used += 1
        out.append(fmt_one(c, spec, v))
    if used < len(vals) and mapping is None:
        raise TypeError('not all arguments converted during string formatting')
    if uni or any(is_uni(x) for x in out):
        if not any(is_sym(x) for x in out):
            return UStr(''.join(map(str, [V.SymUni.concrete(to_uni_items(x)) for x in out])))
        items = []
        for x in out:
            items.extend(to_uni_items(x))
        return SymUni.make(items)
    if any(type(x) is OpaqueStr for x in out):
        return OpaqueStr(lambda: SymStr.make([k for x in out for k in items_of(x)]))
    if any(is_sym(x) for x in out):
        return SymStr.make([k for x in out for k in items_of(x)])
    return ''.join(out)


def fmt_one(c, spec, v):
    if c == 's' or c == 'r':
        s = conv_s(v) if c == 's' else repr_(v)
        if spec:
            if is_sym(s):
                s = s.concretize('format width')
            r = ('%' + spec + 's') % str(s)
            return UStr(r) if is_uni(s) else r
        return s
    if c in 'dixXou':
        if isinstance(v, str) or not isinstance(v, (int, float)):
            if hasattr(type(v), '__int__') and not isinstance(v, str):
                v = int_(v)
            else:
                raise TypeError('%%%s format: a number is required, not %s' % (c, type_name(type_(v))))
        if is_sym(v):
            if type(v) is SymFloat:
                v = V.float_to_int(v)
            if is_sym(v):
                return OpaqueStr(lambda: ('%' + spec + c) % v.concretize('number formatting'))
        return ('%' + spec + c) % (int(v) if isinstance(v, float) else v)
    if c in 'eEfFgG':
        if not isinstance(v, (int, float)):
            raise TypeError('float argument required, not ' + type_name(type_(v)))
        if is_sym(v):
            return OpaqueStr(lambda: ('%' + spec + c) % v.concretize('number formatting'))
        return ('%' + spec + c) % v
    if c == 'c':
        if isinstance(v, str):
            return v
        return chr_(v)
    raise ValueError('unsupported format character %r' % c)


# ------------------------------------------------------------------ str / repr
def str_(x=''):
    t = type(x)
    if t is str:
        return x
    if t is UStr or t is SymUni:
        if t is UStr:
            return V.s_encode(x, 'ascii')
        return V.encode_items(x, 'ascii', 'strict')
    if issubclass(t, SymStr):
        return x if x.sub is None else V.unsub(x)
    if t is SymBool:
        return str(bool(x))
    if t is SymInt:
        return OpaqueStr(lambda: int_text(x))
    if t is SymFloat:
        return float_str(x)
    if t is bool or t is int or x is None:
        return str(x)
    if t is float:
        return py2_float_str(x)
    if isinstance(x, BaseException):
        return exc_str(x, str_)
    f = class_method(t, '__str__')
    if f is not None:
        r = f(x)
        if is_uni(r):
            return str_(r)
        return r
    return repr_(x)


def int_text(x):
    """decimal digits of a symbolic integer: forks on the sign and on the number of digits"""
    if max(abs(x.lo), abs(x.hi)) >= 10 ** 12:
        return str(x.concretize('str(int)'))
    its = []
    if x.lo < 0 and E.branch((x < 0).e if type(x < 0) is SymBool else z3.BoolVal(bool(x < 0))):
        its.append(45)
        x = abs(x)
        if type(x) is int:
            return '-' + str(x)
    e, lo, hi = x.e, x.lo, x.hi
    w = e.size() + 1
    e = z3.ZeroExt(1, e)
    hi = max(abs(lo), hi)
    n = 1
    while 10 ** n <= hi:
        if E.branch(z3.ULT(e, z3.BitVecVal(10 ** n, w))):
            break
        n += 1
    w2 = max(w, 9)
    e = z3.ZeroExt(w2 - w, e) if w2 > w else e
    for k in range(n - 1, -1, -1):
        d = z3.URem(z3.UDiv(e, z3.BitVecVal(10 ** k, w2)), z3.BitVecVal(10, w2)) if k else z3.URem(e, z3.BitVecVal(10, w2))
        if k == n - 1:
            d = z3.UDiv(e, z3.BitVecVal(10 ** k, w2))
        its.append(z3.simplify(z3.Extract(7, 0, d) + 48))
    return SymStr.make([i.as_long() if z3.is_bv_value(i) else i for i in its])


def class_method(t, name):
    """a guest-defined special method"""
    for k in t.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            if k in (object, type, OldMeta) or k.__module__ == 'builtins' or isinstance(f, (T.WrapperDescriptorType,)):
                return None
            return getattr(t, name)
    return None


def py2_float_str(x):
    """str(float) of Python 2.7: 12 significant digits"""
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    s = '%.12g' % x
    if '.' not in s and 'e' not in s:
        s += '.0'
    return s


class FloatStr(OpaqueStr):
    """str() of a symbolic float: comparisons with 'nan'/'inf' are exact"""
    __slots__ = ('f',)

    def __init__(self, f):
        OpaqueStr.__init__(self, lambda: py2_float_str(f.concretize('str(float)')))
        self.f = f

    def __eq__(self, o):
        if type(o) is str and self.cache is None:
            if self.f.ival is not None and o in ('nan', 'inf', '-inf'):
                return False
            if o == 'nan':
                return mkbool(z3.simplify(z3.fpIsNaN(self.f.fp)))
            if o == 'inf':
                return mkbool(z3.simplify(z3.And(z3.fpIsInf(self.f.fp), z3.Not(z3.fpIsNegative(self.f.fp)))))
            if o == '-inf':
                return mkbool(z3.simplify(z3.And(z3.fpIsInf(self.f.fp), z3.fpIsNegative(self.f.fp))))
        return seq_eq(self, o)


def float_str(x):
    return FloatStr(x)


def exc_str(x, conv):
    t = type(x)
    f = class_method(t, '__str__') if conv is str_ else (class_method(t, '__unicode__') or class_method(t, '__str__'))
    if f is not None:
        return conv(f(x))
    if isinstance(x, UnicodeError) and len(x.args) == 5:
        s = str(x)
        return s if conv is str_ else UStr(s)
    a = x.args
    if isinstance(x, KeyError) and len(a) == 1:
        return conv(repr_(a[0]))
    if isinstance(x, OSError) and len(a) == 2:
        return conv('[Errno %s] %s' % (a[0], str_(a[1])))
    if not a:
        return conv('')
    if len(a) == 1:
        return conv(a[0])
    return conv(repr_(a))


def unicode_(x='', *enc, **kw):
    if kw:
        enc = tuple(kw[k] for k in ('encoding', 'errors') if k in kw)
    t = type(x)
    if enc:
        if is_uni(x):
            raise TypeError('decoding Unicode is not supported')
        if issubclass(t, SymSeq):
            return x.decode(*enc)
        if not isinstance(x, str):
            raise TypeError('coercing to Unicode: need string or buffer, %s found' % type_name(t))
        return V.s_decode(x, *enc)
    if is_uni(x):
        return x if t is UStr or x.sub is None else V.unsub(x)
    if isinstance(x, str):
        if is_sym(x):
            return x.decode('ascii')
        return V.s_decode(x, 'ascii')
    if isinstance(x, BaseException):
        return exc_str(x, unicode_)
    f = class_method(t, '__unicode__')
    if f is not None:
        return unicode_(f(x))
    return unicode_(str_(x))


def py2_escape(s, quote):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == quote or ch == '\\':
            out.append('\\' + ch)
        elif ch == '\n':
            out.append('\\n')
        elif ch == '\r':
            out.append('\\r')
        elif ch == '\t':
            out.append('\\t')
        elif 32 <= o < 127:
            out.append(ch)
        elif o < 256:
            out.append('\\x%02x' % o)
        elif o < 0x10000:
            out.append('\\u%04x' % o)
        else:
            out.append('\\U%08x' % o)
    return ''.join(out)


def repr_seq(x):
    """repr of a symbolic string: forks on the kind of every character, not on its value"""
    def has(c):
        return any(i == c if isinstance(i, int) else E.branch(i == c) for i in x.items)

    def digits(i, n):
        for k in range(n - 1, -1, -1):
            lo, hi = 4 * k, min(4 * k + 3, i.size() - 1)
            if lo >= i.size():
                yield 48
                continue
            d = z3.ZeroExt(8 - (hi - lo + 1), z3.Extract(hi, lo, i))
            yield z3.If(z3.ULT(d, 10), d + 48, d + 87)
    q = 34 if has(39) and not has(34) else 39
    out = ([117] if x.uni else []) + [q]
    for i in x.items:
        if isinstance(i, int):
            out.extend(map(ord, py2_escape(chr(i), chr(q))))
            continue
        if E.branch(z3.And(z3.UGE(i, 32), z3.ULT(i, 127))):
            if E.branch(z3.Or(i == q, i == 92)):
                out.append(92)
            out.append(i if i.size() == 8 else z3.Extract(7, 0, i))
            continue
        for c, l in ((10, 'n'), (13, 'r'), (9, 't')):
            if E.branch(i == c):
                out.extend([92, ord(l)])
                break
        else:
            if i.size() == 8 or E.branch(z3.ULT(i, 256)):
                out.extend([92, ord('x')])
                out.extend(digits(i, 2))
            elif E.branch(z3.ULT(i, 65536)):
                out.extend([92, ord('u')])
                out.extend(digits(i, 4))
            else:
                out.extend([92, ord('U')])
                out.extend(digits(i, 8))
    out.append(q)
    return SymStr.make(out)


def repr_(x, depth=0):
    t = type(x)
    if is_sym(x):
        if t is SymBool:
            return repr(bool(x))
        if issubclass(t, V.SymSeq):
            return OpaqueStr(lambda: repr_seq(x))
        return OpaqueStr(lambda: repr_(x.concretize('repr')))
    if isinstance(x, str):
        q = '"' if "'" in x and '"' not in x else "'"
        return ('u' if is_uni(x) else '') + q + py2_escape(str(x), q) + q
    if t is bool or x is None:
        return str(x)
    if t is int:
        return str(x) + ('L' if not -MAXINT - 1 <= x <= MAXINT else '')
    if t is float:
        return repr(x)
    if depth > 8:
        return '...'
    if t is list or t is tuple or isinstance(x, (list, tuple)) and class_method(t, '__repr__') is None:
        parts = [repr_(y, depth + 1) for y in x]
        if any(is_sym(p) for p in parts):
            return OpaqueStr(lambda: ''.join(map(str, [plain(p) for p in parts])))
        if isinstance(x, list):
            return '[' + ', '.join(parts) + ']'
        return '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')')
    f = class_method(t, '__repr__')
    if f is not None:
        r = f(x)
        return str_(r) if is_uni(r) else r
    if isinstance(x, BaseException):
        return type_name(t) + (repr_(tuple(x.args), depth + 1) if x.args or True else '()')
    if isinstance(x, type):
        if is_oldclass(x):
            return '<class %s.%s at 0x1>' % (x.__module__, x.__name__)
        m = getattr(x, '__module__', None)
        if m in ('builtins', '__builtin__', None):
            return "<type '%s'>" % type_name(x)
        return "<class '%s.%s'>" % (m, x.__name__)
    if isinstance(x, (T.FunctionType, T.BuiltinFunctionType)):
        return '<function %s at 0x%x>' % (x.__name__, id(x))
    if isinstance(x, T.MethodType):
        return '<bound method %s.%s of %s>' % (type(x.__self__).__name__, x.__func__.__name__, 'obj')
    if isinstance(x, T.ModuleType):
        return "<module '%s'>" % x.__name__
    return '<%s.%s object at 0x%x>' % (getattr(t, '__module__', '?'), type_name(t), id(x))


TYPE_NAMES = {UStr: 'unicode', PyLong: 'long', OldMeta: 'classobj', InstanceType: 'instance'}


def type_name(t):
    return TYPE_NAMES.get(t) or t.__name__


# ------------------------------------------------------------------ type() and friends
def type_(x):
    t = type(x)
    if t is int:
        return int if -MAXINT - 1 <= x <= MAXINT else PyLong
    if issubclass(t, Sym):
        if t is SymInt:
            if x.sub is not None:
                return x.sub
            if x.lo >= -MAXINT - 1 and x.hi <= MAXINT:
                return int
            return int if truth(and_(x >= -MAXINT - 1, x <= MAXINT)) else PyLong
        if t is V.BigTrunc:
            return PyLong
        return x.__class__
    if t is OldMeta:
        return OldMeta
    if type(t) is OldMeta:
        return InstanceType
    if t is NewFromOld or t is V.SubMeta:
        return type
    if t is DictView:
        return PyDict
    if t is T.MethodType:
        return METHOD_SHIM
    return t


METHOD_SHIM = None


def type3(*a):
    if len(a) == 1:
        return type_(a[0])
    n, bases, ns = a
    ns = dict((k if type(k) is str else str_(k), v) for k, v in ns.items()) if not isinstance(ns, dict) else dict(ns)
    fix_namespace(ns, bases)
    return type(str_(n), tuple(MAP_BASE.get(b, b) for b in bases), ns)


class Basestring(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)


class basestring(object, metaclass=Basestring):
    pass


def isinstance_(x, c):
    if isinstance(c, tuple):
        if int in c and PyLong in c and isinstance(x, int):
            return True
        for k in c:
            if isinstance_(x, k):
                return True
        return False
    if c is str:
        return isinstance(x, str) and not is_uni(x)
    if c is int:
        if type(x) is int:
            return -MAXINT - 1 <= x <= MAXINT
        if type(x) is SymInt:
            return issubclass_(type_(x), int)
        if type(x) is V.BigTrunc:
            return False
        return isinstance(x, int)
    if c is PyLong:
        if type(x) is V.BigTrunc:
            return True
        return type(x) in (int, SymInt) and issubclass(type_(x), PyLong)
    if c is type:
        return isinstance(x, type) and type(x) is not OldMeta
    if c is InstanceType:
        return type(type(x)) is OldMeta
    if c is OldMeta:
        return type(x) is OldMeta
    if c is PySet:
        return isinstance(x, PySet) and not isinstance(x, PyFrozenSet)
    if not isinstance(c, type) and not hasattr(type(c), '__instancecheck__'):
        raise TypeError('isinstance() arg 2 must be a class, type, or tuple of classes and types')
    return isinstance(x, c)


def issubclass_(a, c):
    if isinstance(c, tuple):
        return any(issubclass_(a, k) for k in c)
    if not isinstance(a, type):
        raise TypeError('issubclass() arg 1 must be a class')
    if c is str and issubclass(a, UStr) or c is int and issubclass(a, PyLong):
        return False
    if a is bool and c is int:
        return True
    if c is object and is_oldclass(a):
        return False
    if c is PySet and issubclass(a, PyFrozenSet):
        return False
    if not isinstance(c, type):
        raise TypeError('issubclass() arg 2 must be a class or tuple of classes')
    return issubclass(a, c)


def int_(x=0, base=None):
    t = type(x)
    if base is not None:
        return int(plain(x), base)
    if t is SymInt and x.sub is not None:
        return V.unsub(x)
    if t is SymInt or t is int or t is V.BigTrunc:
        return x
    if t is SymBool:
        return mkint(z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if t is SymFloat:
        return V.float_to_int(x)
    if reals.is_num(x):
        return x.__int__()
    if isinstance(x, str):
        if is_sym(x):
            return parse_int(x)
        s = str(x).strip()
        if '_' in s:
            raise ValueError('invalid literal for int() with base 10: %r' % s)
        return int(s)
    if t is bool or t is float:
        return int(x)
    f = getattr(t, '__int__', None)
    if f is None:
        f = getattr(t, '__trunc__', None)
    if f is None:
        raise TypeError("int() argument must be a string or a number, not '%s'" % type_name(type_(x)))
    return f(x)


def parse_int(s):
    it = items_of(s.strip())
    neg = False
    k = 0
    if it:
        c = it[0]
        if (c in (43, 45)) if isinstance(c, int) else False:
            neg = c == 45
            k = 1
        elif not isinstance(c, int):
            if E.branch(c == 45):
                neg, k = True, 1
            elif E.branch(c == 43):
                k = 1
    ds = it[k:]
    if not ds:
        raise ValueError('invalid literal for int() with base 10')
    v = 0
    for c in ds:
        if isinstance(c, int):
            if not 48 <= c <= 57:
                raise ValueError('invalid literal for int() with base 10')
            d = c - 48
        else:
            if not E.branch(z3.And(z3.UGE(c, 48), z3.ULE(c, 57))):
                raise ValueError('invalid literal for int() with base 10')
            d = mkint(z3.ZeroExt(1, c - 48), 0, 9)
        v = v * 10 + d
    return -v if neg else v


def float_(x=0.0):
    t = type(x)
    if t is SymFloat or t is float:
        return x if t is float or x.sub is None else V.unsub(x)
    if reals.is_num(x):
        return x.as_float()
    if t in (SymInt, SymBool, V.BigTrunc):
        return tofloat(x)
    if isinstance(x, str):
        return float(str(plain(x)))
    if t is int or t is bool:
        return float(x)
    f = getattr(t, '__float__', None)
    if f is None:
        raise TypeError('float() argument must be a string or a number')
    return f(x)


def bool_(x=False):
    return truth(x)


def list_(x=()):
    if isinstance(x, list) and type(x) is list:
        return list(x)
    return list(iter_(x))


def tuple_(x=()):
    if type(x) is tuple:
        return x
    return tuple(iter_(x))


def chr_(i):
    if type(i) is SymInt:
        if not truth(and_(i >= 0, i <= 255)):
            raise ValueError('chr() arg not in range(256)')
        return SymStr.make((z3.simplify(z3.Extract(7, 0, V.fit(i.e, 9))),))
    if not isinstance(i, int):
        raise TypeError('an integer is required')
    if not 0 <= i <= 255:
        raise ValueError('chr() arg not in range(256)')
    return chr(i)


def unichr_(i):
    if type(i) is SymInt:
        if not truth(and_(i >= 0, i <= 0x10ffff)):
            raise ValueError('unichr() arg not in range(0x110000)')
        if truth(and_(i >= 0xd800, i <= 0xdfff)):
            raise ValueError('unichr() arg is a lone surrogate')
        return SymUni.make((z3.simplify(z3.Extract(20, 0, V.fit(i.e, 22))),))
    if not 0 <= i <= 0x10ffff or 0xd800 <= i <= 0xdfff:
        raise ValueError('unichr() arg not in range')
    return UStr(chr(i))


def ord_(s):
    if not isinstance(s, str):
        raise TypeError('ord() expected string of length 1, but %s found' % type_name(type_(s)))
    if issubclass(type(s), SymSeq):
        if len(s.items) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(s.items))
        i = s.items[0]
        if isinstance(i, int):
            return i
        return mkint(z3.ZeroExt(1, i), 0, 0x10ffff if is_uni(s) else 255)
    if len(s) != 1:
        raise TypeError('ord() expected a character, but string of length %d found' % len(s))
    return ord(s)


def hex_(x):
    if is_sym(x):
        return OpaqueStr(lambda: hex(x.concretize('hex')))
    return hex(x) + ('L' if not -MAXINT - 1 <= x <= MAXINT else '')


def len_(x):
    t = type(x)
    if t in (list, tuple, str, UStr):
        return len(x)
    f = getattr(t, '__len__', None)
    if f is None:
        raise TypeError("object of type '%s' has no len()" % type_name(type_(x)))
    return f(x)


def java_hash(x):
    """hash of a string under Jython, that is String.hashCode(): collisions are for the solver to find"""
    h = 0
    for i in items_of(x):
        if isinstance(i, int):
            us = [i] if i < 0x10000 else [0xd800 + (i - 0x10000 >> 10), 0xdc00 + (i - 0x10000 & 0x3ff)]
        elif i.size() == 8:
            us = [z3.ZeroExt(24, i)]
        else:
            w = z3.ZeroExt(32 - i.size(), i)
            if E.branch(z3.UGT(w, 0xffff)):
                us = [z3.LShR(w - 0x10000, 10) + 0xd800, (w & 0x3ff) + 0xdc00]
            else:
                us = [w]
        for u in us:
            h = h * 31 + u
            if isinstance(h, int):
                h &= 0xffffffff
    if isinstance(h, int):
        return h - (h >> 31 << 32)
    return mkint(h, -2 ** 31, 2 ** 31 - 1)


def hash_(x):
    t = type(x)
    if isinstance(x, str):
        return java_hash(x)
    if t is SymInt:
        return x
    if is_sym(x):
        return x.concretize('hash').__hash__()
    if isinstance(x, tuple) and has_sym(x):
        raise Unsupported('hash of a tuple with symbolic members')
    if isinstance(x, (list, PyDict)) and t.__hash__ in (None, PyDict.__hash__):
        raise TypeError("unhashable type: '%s'" % type_name(t))
    return hash(x)


def has_sym(x):
    if is_sym(x):
        return True
    return isinstance(x, tuple) and any(has_sym(y) for y in x)


def callable_(x):
    return callable(x)


# ------------------------------------------------------------------ items
def slice_(a, b, c):
    return slice(a, b, c)


def conc_slice(k):
    return slice(*[plain(x, 'slice') for x in (k.start, k.stop, k.step)])


def getitem(o, k):
    t = type(o)
    if t is str or t is UStr:
        if type(k) is slice:
            r = str.__getitem__(o, conc_slice(k))
        elif type(k) is SymInt:
            return (SymUni if t is UStr else SymStr)(items_of(o))[k]
        else:
            r = str.__getitem__(o, k)
        return UStr(r) if t is UStr else r
    if t is list or t is tuple:
        if type(k) is slice:
            return o[conc_slice(k)]
        if type(k) is SymInt:
            n = len(o)
            if not truth(and_(k >= -n, k < n)):
                raise IndexError('list index out of range')
            k = k.concretize('index')
        return o[k]
    if type(k) is slice and k.step is None and hasattr(t, '__getslice__'):
        n = MAXINT
        return t.__getslice__(o, 0 if k.start is None else k.start, n if k.stop is None else k.stop)
    if type(k) is slice and isinstance(o, (list, tuple)):
        k = conc_slice(k)
    if isinstance(o, type) or isinstance(o, T.FunctionType):
        raise TypeError("'%s' object is not subscriptable" % type_name(type_(o)))
    if not hasattr(t, '__getitem__'):
        raise TypeError("'%s' object has no attribute '__getitem__'" % type_name(type_(o)))
    return o[k]


def setitem(o, k, v):
    if type(o) is list:
        if type(k) is slice:
            k = conc_slice(k)
        elif type(k) is SymInt:
            n = len(o)
            if not truth(and_(k >= -n, k < n)):
                raise IndexError('list assignment index out of range')
            k = k.concretize('index')
    o[k] = v


def delitem(o, k):
    if type(o) is list and type(k) is slice:
        k = conc_slice(k)
    elif type(o) is list and type(k) is SymInt:
        n = len(o)
        if not truth(and_(k >= -n, k < n)):
            raise IndexError('list assignment index out of range')
        k = k.concretize('index')
    del o[k]


def unpack(v, n):
    if type(v) in (tuple, list):
        if len(v) != n:
            raise ValueError('need more than %d values to unpack' % len(v) if len(v) < n else 'too many values to unpack')
        return v
    v = list(iter_(v))
    if len(v) != n:
        raise ValueError('need more than %d values to unpack' % len(v) if len(v) < n else 'too many values to unpack')
    return v


def iter_(x):
    t = type(x)
    if t in (list, tuple):
        return x
    if t is str:
        return x
    if t is UStr:
        return [UStr(c) for c in str.__iter__(x)]
    if isinstance(x, type) and not hasattr(type(x), '__iter__'):
        raise TypeError("'%s' object is not iterable" % type_name(type_(x)))
    return B.iter(x)


# ------------------------------------------------------------------ dict
class _Tok(object):
    __slots__ = ()


def norm_key(k):
    t = type(k)
    if t is str:
        if not k.isascii():
            return ('\0bytes', str(k))
        return k
    if t is UStr:
        return str(k)
    if t is tuple:
        return ('\0t',) + tuple(norm_key(x) for x in k)
    if t in PLAIN:
        return k
    if isinstance(k, (list, PyDict, PySet)) and t.__hash__ in (None, PyDict.__hash__):
        raise TypeError("unhashable type: '%s'" % type_name(type_(k)))
    return k


class PyDict(object):
    """the guest dict"""
    __slots__ = ('_d', '_s')

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        DICT_D(o, {})
        DICT_S(o, [])
        return o

    def __init__(self, *a, **k):
        if len(a) > 1:
            raise TypeError('dict expected at most 1 arguments, got %d' % len(a))
        if a:
            _update(self, a[0])
        for n, v in k.items():
            self._put(n, v)

    # primitives
    def _find(self, k):
        if is_sym(k) and type(k) is SymBool:
            k = bool(k)
        if has_sym(k):
            for tok, ent in list(self._d.items()):
                if ent[0] is k or truth(eq(ent[0], k)):
                    return tok
            return None
        nk = norm_key(k)
        if nk in self._d:
            return nk
        for tok in self._s:
            if truth(eq(self._d[tok][0], k)):
                return tok
        return None

    def _val(self, tok):
        return self._d[tok][1]

    def _put(self, k, v):
        tok = self._find(k)
        if tok is not None:
            self._d[tok][1] = v
            return
        if type(k) is SymBool:
            k = bool(k)
        if has_sym(k):
            tok = _Tok()
            self._s.append(tok)
        else:
            tok = norm_key(k)
        self._d[tok] = [k, v]

    def _del(self, tok):
        del self._d[tok]
        if type(tok) is _Tok:
            self._s.remove(tok)

    def _ents(self):
        return [(e[0], e[1]) for e in self._d.values()]

    def _clear(self):
        self._d.clear()
        del self._s[:]

    # protocol
    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return self._find(k) is not None

    def has_key(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        tok = self._find(k)
        if tok is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._val(tok)

    def __setitem__(self, k, v):
        self._put(k, v)

    def __delitem__(self, k):
        tok = self._find(k)
        if tok is None:
            raise KeyError(k)
        self._del(tok)

    def get(self, k, d=None):
        tok = self._find(k)
        return d if tok is None else self._val(tok)

    def setdefault(self, k, d=None):
        tok = self._find(k)
        if tok is not None:
            return self._val(tok)
        self._put(k, d)
        return d

    def pop(self, k, *d):
        tok = self._find(k)
        if tok is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._val(tok)
        self._del(tok)
        return v

    def popitem(self):
        for k, v in self._ents():
            self._del(self._find(k))
            return (k, v)
        raise KeyError('popitem(): dictionary is empty')

    def keys(self):
        return [k for k, v in self._ents()]

    def values(self):
        return [v for k, v in self._ents()]

    def items(self):
        return self._ents()

    def iterkeys(self):
        return iter([k for k, v in self._ents()])

    def itervalues(self):
        return iter([v for k, v in self._ents()])

    def iteritems(self):
        return iter(self._ents())

    def viewkeys(self):
        return PySet(self.keys())

    viewvalues = values

    def viewitems(self):
        return PySet(self.items())

    def __iter__(self):
        return iter([k for k, v in self._ents()])

    def update(self, *a, **k):
        if a:
            _update(self, a[0])
        for n, v in k.items():
            self._put(n, v)

    def copy(self):
        r = PyDict()
        for k, v in self._ents():
            r._put(k, v)
        return r

    def clear(self):
        self._clear()

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in iter_(it):
            r[k] = v
        return r

    def __eq__(self, o):
        if not isinstance(o, PyDict):
            return NotImplemented
        if self is o:
            return True
        if len(self._ents()) != len(o._ents()):
            return False
        out = []
        for k, v in self._ents():
            tok = o._find(k)
            if tok is None:
                return False
            r = eq(v, o._val(tok))
            if type(r) is SymBool:
                out.append(r)
            elif not r:
                return False
        return and_(*out)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = None

    def __repr__(self):
        parts = [(repr_(k), repr_(v)) for k, v in self._ents()]
        if any(is_sym(a) or is_sym(b) for a, b in parts):
            return OpaqueStr(lambda: '{' + ', '.join('%s: %s' % (plain(a), plain(b)) for a, b in parts) + '}')
        return '{' + ', '.join('%s: %s' % p for p in parts) + '}'


DICT_D = PyDict.__dict__['_d'].__set__
DICT_S = PyDict.__dict__['_s'].__set__
del PyDict.__slots__
PyDict.__name__ = PyDict.__qualname__ = 'dict'
PyDict.__module__ = '__builtin__'
dict_put = PyDict._put


def _update(d, x):
    if type(x) is PyDict or isinstance(x, PyDict) and type(x).keys is PyDict.keys:
        for k, v in x._ents():
            d._put(k, v)
    elif isinstance(x, dict):
        for k, v in x.items():
            d._put(k, v)
    elif hasattr_(x, 'keys'):
        for k in iter_(call(getattr_(x, 'keys'))):
            d._put(k, getitem(x, k))
    else:
        n = 0
        for p in iter_(x):
            try:
                p = list(iter_(p))
            except TypeError:
                raise TypeError('cannot convert dictionary update sequence element #%d to a sequence' % n)
            if len(p) != 2:
                raise ValueError('dictionary update sequence element #%d has length %d; 2 is required' % (n, len(p)))
            d._put(p[0], p[1])
            n += 1


class DictView(PyDict):
    """obj.__dict__ as a guest dict over the host dictionary"""
    def __new__(cls, h):
        o = PyDict.__new__(cls)
        VIEW_H(o, h)
        return o

    def __init__(self, h):
        pass

    __slots__ = ('_h',)

    def _find(self, k):
        if is_sym(k):
            if not isinstance(k, str):
                return None
            for n in list(self._h):
                if isinstance(n, str) and truth(eq(n, k)):
                    return n
            return None
        if isinstance(k, UStr):
            k = str(k)
        return k if k in self._h and k not in HIDDEN_CLASS_ATTRS else None

    def _val(self, tok):
        return self._h[tok]

    def _put(self, k, v):
        if is_sym(k):
            t = self._find(k)
            k = t if t is not None else str(k.concretize('attribute name'))
        if isinstance(k, UStr):
            k = str(k)
        self._h[k] = v

    def _del(self, tok):
        del self._h[tok]

    def _ents(self):
        return [(k, v) for k, v in self._h.items() if k not in HIDDEN_CLASS_ATTRS]

    def _clear(self):
        self._h.clear()

    def __len__(self):
        return len(self._ents())


VIEW_H = DictView.__dict__['_h'].__set__
del DictView.__slots__
DictView.__name__ = 'dict'
DictView.__module__ = '__builtin__'


def mkdict(pairs):
    d = PyDict()
    for k, v in pairs:
        d._put(k, v)
    return d


def kwdict(h):
    d = PyDict()
    for k, v in h.items():
        d._put(k, v)
    return d


def starkw(x):
    if isinstance(x, dict):
        return x
    out = {}
    for k in (x.keys()):
        v = getitem(x, k)
        if is_sym(k):
            k = k.concretize('keyword name')
        if not isinstance(k, str):
            raise TypeError('keywords must be strings')
        out[str(k)] = v
    return out


def starargs(x):
    return iter_(x)


# ------------------------------------------------------------------ set
class PySet(object):
    __slots__ = ('_m',)

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        SET_M(o, PyDict())
        return o

    def __init__(self, it=()):
        if isinstance(self, PyFrozenSet) and len(self._m):
            return
        self._m._clear()
        for x in iter_(it):
            self._m._put(x, True)

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return len(self._m) > 0

    def __iter__(self):
        return iter(self._m.keys())

    def __contains__(self, x):
        return self._m._find(x) is not None

    def add(self, x):
        self._m._put(x, True) if x not in self else None

    def discard(self, x):
        t = self._m._find(x)
        if t is not None:
            self._m._del(t)

    def remove(self, x):
        t = self._m._find(x)
        if t is None:
            raise KeyError(x)
        self._m._del(t)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._m._clear()

    def update(self, *its):
        for it in its:
            for x in iter_(it):
                self.add(x)

    def copy(self):
        return type(self)(list(self))

    def _new(self, it):
        return (PyFrozenSet if isinstance(self, PyFrozenSet) else PySet)(it)

    def union(self, *its):
        r = list(self)
        s = PySet(r)
        for it in its:
            for x in iter_(it):
                s.add(x)
        return self._new(list(s))

    def intersection(self, *its):
        r = list(self)
        for it in its:
            o = it if isinstance(it, PySet) else PySet(it)
            r = [x for x in r if x in o]
        return self._new(r)

    def difference(self, *its):
        r = list(self)
        for it in its:
            o = it if isinstance(it, PySet) else PySet(it)
            r = [x for x in r if x not in o]
        return self._new(r)

    def symmetric_difference(self, it):
        o = it if isinstance(it, PySet) else PySet(it)
        return self._new([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        for it in its:
            for x in list(iter_(it)):
                self.discard(x)

    def intersection_update(self, *its):
        r = list(self.intersection(*its))
        self._m._clear()
        self.update(r)

    def symmetric_difference_update(self, it):
        r = list(self.symmetric_difference(it))
        self._m._clear()
        self.update(r)

    def issubset(self, o):
        o = o if isinstance(o, PySet) else PySet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in iter_(o))

    def isdisjoint(self, o):
        return not any(x in self for x in iter_(o))

    def _bin(name):
        def f(self, o):
            if not isinstance(o, PySet):
                return NotImplemented
            return getattr(self, name)(o)
        return f
    __or__ = _bin('union')
    __and__ = _bin('intersection')
    __sub__ = _bin('difference')
    __xor__ = _bin('symmetric_difference')
    __le__ = _bin('issubset')
    __ge__ = _bin('issuperset')

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, PySet):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = None

    def __repr__(self):
        return 'set(%s)' % str_(repr_(list(self)))


SET_M = PySet.__dict__['_m'].__set__
del PySet.__slots__
PySet.__name__ = 'set'
PySet.__module__ = '__builtin__'


class PyFrozenSet(PySet):
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(norm_key(x) for x in self))

    def __init__(self, it=()):
        if not len(self._m):
            for x in iter_(it):
                self._m._put(x, True)

    def __repr__(self):
        return 'frozenset(%s)' % str_(repr_(list(self)))


for _n in ('add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update',
           'symmetric_difference_update', '__ior__', '__isub__', '__iand__'):
    setattr(PyFrozenSet, _n, None)
    delattr(PyFrozenSet, _n)


class _NoAttr(object):
    def __init__(self, n):
        self.n = n

    def __get__(self, o, t):
        raise AttributeError("'frozenset' object has no attribute '%s'" % self.n)


for _n in ('add', 'discard', 'remove', 'pop', 'clear', 'update'):
    setattr(PyFrozenSet, _n, _NoAttr(_n))
del PyFrozenSet.__slots__
PyFrozenSet.__name__ = 'frozenset'
PyFrozenSet.__module__ = '__builtin__'
# a guest set and a guest frozenset are unrelated types
TYPES_UNRELATED = {PyFrozenSet: PySet}


def mkset(l):
    return PySet(l)


# ------------------------------------------------------------------ attributes
def s_wrap(r, uni):
    if type(r) is str:
        return UStr(r) if uni else r
    if type(r) is list:
        return [s_wrap(x, uni) for x in r]
    if type(r) is tuple:
        return tuple(s_wrap(x, uni) for x in r)
    return r


STR_OK = frozenset(['center', 'count', 'endswith', 'expandtabs', 'find', 'index', 'isalnum', 'isalpha', 'isdigit',
                    'islower', 'isspace', 'istitle', 'isupper', 'join', 'ljust', 'lower', 'lstrip', 'partition',
                    'replace', 'rfind', 'rindex', 'rjust', 'rpartition', 'rsplit', 'rstrip', 'split', 'splitlines',
                    'startswith', 'strip', 'swapcase', 'title', 'translate', 'upper', 'zfill', 'capitalize'])


def str_attr(o, name):
    """bound method of a concrete guest string"""
    uni = type(o) is not str
    if name == 'join':
        return lambda it: str_join(o, it)
    if name == 'encode':
        if uni:
            return lambda enc='ascii', errors='strict': V.s_encode(o, enc, errors)

        def enc_(enc='ascii', errors='strict'):
            e = V.norm_enc(enc)
            if e in ('hex', 'base64', 'zlib'):
                import binascii, base64, zlib
                b = str.encode(o, 'latin-1')
                return {'hex': binascii.hexlify, 'base64': base64.encodebytes, 'zlib': zlib.compress}[e](b).decode('latin-1')
            return V.s_encode(V.s_decode(o, 'ascii'), enc, errors)
        return enc_
    if name == 'decode':
        if uni:
            return lambda enc='ascii', errors='strict': V.s_decode(V.s_encode(o, 'ascii'), enc, errors)
        return lambda enc='ascii', errors='strict': V.s_decode(o, enc, errors)
    if name == 'format':
        return lambda *a, **k: str_format(o, a, k)
    if name == '__class__':
        return UStr if uni else str
    if name in ('__iter__',) and not uni:
        raise AttributeError("'str' object has no attribute '__iter__'")
    if name == '__dict__':
        raise AttributeError("'str' object has no attribute '__dict__'")
    if name == 'isdecimal' or name == 'isnumeric':
        if not uni:
            raise AttributeError(name)
        return getattr(str(o), name)
    if name in STR_OK:
        hostm = getattr(str, name)

        def m(*args, **kw):
            if any(is_sym(a) or (type(a) is tuple and has_sym(a)) for a in args):
                return getattr((SymUni if uni else SymStr)(items_of(o)), name)(*args, **kw)
            u = uni or any(isinstance(a, UStr) for a in args)
            s = o
            if u and not uni:
                s = V.s_decode(o, 'ascii')
            if u:
                args = tuple(V.s_decode(a, 'ascii') if type(a) is str else a for a in args)
            if name in ('strip', 'lstrip', 'rstrip') and (not args or args[0] is None):
                args = (' \t\n\r\x0b\x0c',)
            elif name == 'split' and not u and (not args or args[0] is None):
                b = str.encode(s, 'latin-1').split(*args)
                return [x.decode('latin-1') for x in b]
            elif not u and name in ('lower', 'upper', 'swapcase', 'title', 'capitalize', 'isalpha', 'isalnum', 'isdigit',
                                    'islower', 'isupper', 'isspace', 'istitle', 'splitlines'):
                r = getattr(str.encode(s, 'latin-1'), name)(*args)
                if isinstance(r, bytes):
                    return r.decode('latin-1')
                if isinstance(r, list):
                    return [x.decode('latin-1') for x in r]
                return r
            args = tuple(str(a) if isinstance(a, str) else a for a in args)
            return s_wrap(hostm(str(s), *args, **kw), u)
        m.__name__ = name
        return m
    if name.startswith('__'):
        return getattr(o, name)
    raise AttributeError("'%s' object has no attribute '%s'" % ('unicode' if uni else 'str', name))


def str_join(sep, it):
    parts = list(iter_(it))
    for n, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError('sequence item %d: expected string, %s found' % (n, type_name(type_(p))))
    if len(parts) == 1:
        return V.unsub(parts[0]) if is_sym(parts[0]) and parts[0].sub is not None else parts[0]
    if all(type(p) is str for p in parts) and type(sep) is str:
        return str.join(sep, parts)
    uni = is_uni(sep) or any(is_uni(p) for p in parts)
    get = to_uni_items if uni else items_of
    out = []
    for n, p in enumerate(parts):
        if n:
            out.extend(get(sep))
        out.extend(get(p))
    return (SymUni if uni else SymStr).make(out)


def str_format(fmt, a, k):
    a = [plain(x) if is_sym(x) else x for x in a]
    k = dict((n, plain(x) if is_sym(x) else x) for n, x in k.items())
    uni = is_uni(fmt)

    class W(object):
        def __init__(self, v):
            self.v = v

        def __format__(self, spec):
            v = self.v
            if isinstance(v, (int, float)):
                return format(v, spec)
            return format(str(conv_s(v)), spec)

        def __repr__(self):
            return str(repr_(self.v))
        __str__ = lambda self: str(conv_s(self.v))

        def __getattr__(self, n):
            return W(getattr_(self.v, n))

        def __getitem__(self, n):
            return W(getitem(self.v, n))
    r = str(fmt).format(*[W(x) for x in a], **{n: W(x) for n, x in k.items()})
    return UStr(r) if uni else r


class ListMethods(object):
    @staticmethod
    def index(l, x, *a):
        s, e, _ = slice(*(a + (None,) * (2 - len(a)))).indices(len(l))
        for i in range(s, e):
            if l[i] is x or truth(eq(l[i], x)):
                return i
        raise ValueError('%s is not in list' % (repr_(x),))

    @staticmethod
    def remove(l, x):
        for i in range(len(l)):
            if l[i] is x or truth(eq(l[i], x)):
                del l[i]
                return
        raise ValueError('list.remove(x): x not in list')

    @staticmethod
    def count(l, x):
        return sum(1 for y in l if y is x or truth(eq(y, x)))

    @staticmethod
    def sort(l, cmp=None, key=None, reverse=False):
        l[:] = sorted_(l, cmp, key, reverse)

    @staticmethod
    def extend(l, x):
        list.extend(l, iter_(x))

    @staticmethod
    def insert(l, i, x):
        list.insert(l, plain(i, 'index'), x)

    @staticmethod
    def pop(l, *a):
        if a and type(a[0]) is SymInt:
            n = len(l)
            if not truth(and_(a[0] >= -n, a[0] < n)):
                raise IndexError('pop index out of range')
        return list.pop(l, *[plain(i, 'index') for i in a])


LISTM = {k: v.__func__ for k, v in ListMethods.__dict__.items() if isinstance(v, staticmethod)}


def sorted_(it, cmp=None, key=None, reverse=False):
    c = cmp
    if c is None:
        def c(a, b):
            if truth(lt(a, b)):
                return -1
            if truth(lt(b, a)):
                return 1
            return 0
    kf = functools.cmp_to_key(lambda a, b: plain(c(a[0], b[0])))
    pairs = [((call(key, x) if key is not None else x), x) for x in iter_(it)]
    return [x for _, x in sorted(pairs, key=lambda p: kf(p), reverse=bool(reverse))]


FUNC_ALIASES = {'func_code': '__code__', 'func_name': '__name__', 'func_defaults': '__defaults__',
                'func_globals': '__globals__', 'func_doc': '__doc__', 'func_closure': '__closure__', 'func_dict': '__dict__',
                'im_func': '__func__', 'im_self': '__self__'}
SPECIAL = frozenset(list(FUNC_ALIASES) + ['__dict__', 'im_class', 'message', 'next', '__class__', '__slots__', '__bases__',
                                          '__mro__', '__name__', '__next__', '__bool__', '__iter__', '__hash__',
                                          '__getinitargs__', '__module__', '__nonzero__', '__unicode__', 'func_dict'])


def sub_new(cls, *a):
    return cls(*a)


def getattr_(o, name):
    t = type(o)
    if t is V.SubMeta:
        if name == '__new__':
            return sub_new
    elif issubclass(t, V.Sym) and getattr(o, 'sub', None) is not None:
        if name == '__dict__':
            return DictView(o.att)
        if name in o.att:
            return o.att[name]
    if t is str or t is UStr:
        return str_attr(o, name)
    if t is list and name in LISTM:
        return functools.partial(LISTM[name], o)
    if name in SPECIAL:
        return getattr_special(o, t, name)
    if t is int or t is float or t is bool or t is SymInt or t is SymFloat:
        return num_attr(o, t, name)
    return getattr(o, name)


def num_attr(o, t, name):
    if name in ('real', 'numerator') :
        return o
    if name == 'imag':
        return 0
    if t in (int, bool, SymInt) and name in ('as_integer_ratio', 'to_bytes', 'from_bytes', 'is_integer', 'bit_count', 'e', 'lo', 'hi', 'concretize'):
        raise AttributeError("'int' object has no attribute '%s'" % name)
    if t is SymInt and name == 'bit_length':
        return lambda: plain(o).bit_length()
    if t is SymFloat and name in ('bv', 'fp', 'ival', 'concretize'):
        raise AttributeError(name)
    return getattr(o, name)


def getattr_special(o, t, name):
    if name == '__dict__':
        if isinstance(o, type):
            return DictView(type_dict(o))
        if isinstance(o, T.ModuleType):
            return DictView(o.__dict__)
        return DictView(getattr(o, '__dict__'))
    if name == '__class__':
        if is_sym(o) or t in PLAIN:
            return type_(o)
        if isinstance(o, type):
            if t is OldMeta:
                raise AttributeError("class %s has no attribute '__class__'" % o.__name__)
            return type if t is NewFromOld else t
        return PyDict if t is DictView else getattr(o, '__class__')
    if name in FUNC_ALIASES:
        if isinstance(o, T.FunctionType) and name in ('im_func', 'im_self') or \
                isinstance(o, T.MethodType) and name not in ('im_func', 'im_self'):
            if isinstance(o, T.MethodType):
                return getattr(o.__func__, FUNC_ALIASES[name])
            if name == 'im_self' and is_unbound(o):
                return None
            if name == 'im_func' and is_unbound(o):
                return o
            raise AttributeError("'function' object has no attribute '%s'" % name)
        if isinstance(o, (T.FunctionType, T.MethodType)):
            return getattr(o, FUNC_ALIASES[name])
        return getattr(o, name)
    if name == 'im_class':
        if isinstance(o, T.MethodType):
            return type(o.__self__) if not isinstance(o.__self__, type) else o.__self__
        return getattr(o, name)
    if name == 'message' and isinstance(o, BaseException):
        try:
            return getattr(o, 'message')
        except AttributeError:
            return o.args[0] if len(o.args) == 1 else ''
    if name == 'next':
        try:
            return getattr(o, 'next')
        except AttributeError:
            if hasattr(t, '__next__') and not isinstance(o, type):
                return o.__next__
            raise
    if name in ('__next__', '__bool__'):
        raise AttributeError(name)
    if name == '__slots__':
        r = getattr(o, name)
        return r
    if name == '__bases__' and isinstance(o, type):
        b = o.__bases__
        return () if is_oldclass(o) and b == (object,) else b
    if name == '__mro__' and is_oldclass(o):
        raise AttributeError("class %s has no attribute '__mro__'" % o.__name__)
    if name == '__name__' and isinstance(o, type):
        return type_name(o)
    if name == '__hash__' and t in (list, PyDict):
        return None
    if name in ('__iter__',) and isinstance(o, str):
        raise AttributeError("'str' object has no attribute '__iter__'")
    if name == '__module__':
        r = getattr(o, name)
        return '__builtin__' if r == 'builtins' else ('exceptions' if False else r)
    return getattr(o, name)


def is_unbound(f):
    return '.' in f.__qualname__ and '<locals>' not in f.__qualname__.rsplit('.', 1)[0].split('.')[-1]


class TypeDict(dict):
    pass


def type_dict(c):
    d = dict(c.__dict__)
    return d


def setattr_(o, name, v):
    if type(name) is UStr:
        name = str(name)
    if name == '__dict__' and isinstance(v, PyDict):
        h = {}
        for k, x in v._ents():
            h[str(plain(k))] = x
        o.__dict__ = h
        return
    t = type(o)
    if is_sym(o) and getattr(o, 'sub', None) is not None:
        if name == '__class__':
            raise TypeError('__class__ assignment')
        o.att[name] = v
        return
    if t in PLAIN or is_sym(o):
        raise AttributeError("'%s' object has no attribute '%s'" % (type_name(type_(o)), name))
    if isinstance(o, T.MethodType):
        raise AttributeError("'instancemethod' object has no attribute '%s'" % name)
    if name in FUNC_ALIASES and isinstance(o, T.FunctionType):
        return setattr(o, FUNC_ALIASES[name], v)
    setattr(o, name, v)


def delattr_(o, name):
    delattr(o, name)


_MISSING = object()


def attr_name(n):
    if not isinstance(n, str):
        raise TypeError('attribute name must be string')
    if is_sym(n):
        n = n.concretize('attribute name')
    if type(n) is UStr:
        return V.s_encode(n, 'ascii')
    return n


def sym_attr(o, n):
    """resolve a symbolic attribute name against the attributes the object has"""
    if not is_sym(n):
        return attr_name(n)
    names = set()
    try:
        names.update(dir(o))
    except Exception:
        pass
    for c in sorted(names):
        if len(c) == len(n) and truth(eq(n, c)):
            return c
    return None


def b_getattr(o, n, *d):
    if not isinstance(n, str):
        raise TypeError('getattr(): attribute name must be string')
    if is_sym(n):
        r = sym_attr(o, n)
        if r is None:
            if hasattr(type(o), '__getattr__') and not is_sym(o):
                n = n.concretize('attribute name')
            else:
                if d:
                    return d[0]
                raise AttributeError(n)
        else:
            n = r
    n = attr_name(n)
    if d:
        try:
            return getattr_(o, n)
        except AttributeError:
            return d[0]
    return getattr_(o, n)


def hasattr_(o, n):
    try:
        b_getattr(o, n)
    except Exception:
        return False
    return True


def b_setattr(o, n, v):
    if is_sym(n):
        r = sym_attr(o, n)
        n = r if r is not None else n.concretize('attribute name')
    setattr_(o, attr_name(n), v)


def b_delattr(o, n):
    delattr_(o, attr_name(n))


# ------------------------------------------------------------------ calls
CALLMAP = {}
V.SubMeta.convert = staticmethod(lambda t, *a, **k: call(t, *a, **k))


def call(f, /, *a, **k):
    h = CALLMAP.get(id(f))
    if h is not None:
        return h(*a, **k)
    if a and isinstance(f, T.MethodDescriptorType) and (isinstance(a[0], str) or type(a[0]) is list):
        # str.upper(x), list.index(l, x)
        return getattr_(a[0], f.__name__)(*a[1:], **k)
    return f(*a, **k)


class OldRaised(BaseException):
    """carries an instance of an old-style class that was raised"""

    def __init__(self, instance):
        self.instance = instance


def mkexc(t, v=_MISSING):
    if isinstance(t, type):
        if is_oldclass(t):
            if v is not _MISSING and type(v) is t:
                return OldRaised(v)
            return OldRaised(t() if v is _MISSING or v is None else t(*v) if isinstance(v, tuple) else t(v))
        if not issubclass(t, BaseException):
            raise TypeError('exceptions must be old-style classes or derived from BaseException, not type')
        if v is _MISSING or v is None:
            return t()
        if isinstance(v, t):
            return v
        if isinstance(v, tuple):
            return t(*v)
        return t(v)
    if is_oldclass(type(t)):
        return OldRaised(t)
    if not isinstance(t, BaseException):
        raise TypeError('exceptions must be classes or instances, not ' + type_name(type_(t)))
    return t


def exctype(t):
    """types in an except clause"""
    if isinstance(t, tuple):
        out = ()
        for x in t:
            r = exctype(x)
            out += r if isinstance(r, tuple) else (r,)
        return out
    if isinstance(t, type) and issubclass(t, BaseException):
        return EXC_MAP.get(t, t)
    if isinstance(t, type) and is_oldclass(t):
        raise Unsupported('except clause with an old-style class')
    return NeverRaised


class NeverRaised(BaseException):
    pass


class StandardErrorMeta(type):
    pass


EXC_MAP = {}


def caught(e):
    # a guest handler saw this exception; drop host chaining to keep memory down
    if E.aborting:
        raise PathEnd('aborting')


def print_(vals):
    pass


def unsupported(what):
    raise Unsupported(what)


def tick():
    E.tick()


def enter(name):
    f = E.stats.functions
    f[name] = f.get(name, 0) + 1
    E.tick()


WORLD = None


def import_(name, pkg, n, has_as):
    return WORLD.do_import(pkg, n, has_as)


def importfrom(name, pkg, mod, n, level):
    return WORLD.import_from(pkg, mod, n, level)


def importstar(name, pkg, mod, level, g):
    m = WORLD.import_from(pkg, mod, None, level)
    names = getattr(m, '__all__', None)
    if names is None:
        names = [k for k in m.__dict__ if not k.startswith('_')]
    for k in names:
        g[k] = getattr(m, k)


NAMES = {}
for _k, _v in dict(call=call, getattr=getattr_, setattr=setattr_, delattr=delattr_, getitem=getitem, setitem=setitem,
                   delitem=delitem, slice=slice_, unpack=unpack, iter=iter_, mkdict=mkdict, mkset=mkset, kwdict=kwdict,
                   starkw=starkw, starargs=starargs, chain=chain, mkexc=mkexc, exctype=exctype, caught=caught,
                   print=print_, unsupported=unsupported, tick=tick, enter=enter, repr=repr_, nan=nan,
                   importfrom=importfrom, importstar=importstar, Ctl=Ctl,
                   add=add, sub=sub, mul=mul, div=div, truediv=truediv, mod=mod, pow=pow_, lshift=lshift, rshift=rshift,
                   bor=bor, bxor=bxor, band=band, floordiv=floordiv, eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge,
                   contains=contains, is_=is_, isnot=isnot, notcontains=notcontains, iadd=iadd, isub=sub, imul=mul, idiv=div, imod=mod,
                   ipow=pow_, ilshift=lshift, irshift=rshift, ibor=bor, ibxor=bxor, iband=band, ifloordiv=floordiv).items():
    NAMES['_rt_' + _k] = _v
NAMES['_rt_import'] = import_
