"""Symbolic guest values (Python 2 semantics)."""
import math
import struct as _struct
import z3
from core import E, Unsupported, Inconclusive

FP64 = z3.Float64()
FP32 = z3.Float32()
RNE = z3.RNE()


class UStr(str):
    """a concrete Python 2 unicode object"""
    __slots__ = ()

    def __repr__(self):
        return 'u' + str.__repr__(self)


class PyLong(int):
    """only a type object: values are plain ints"""


def is_sym(x):
    return isinstance(x, Sym)


class Sym(object):
    __slots__ = ()
    __hash__ = None


# ---------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('e',)
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool) and type(o) is SymBool:
            return mkbool(self.e == o.e)
        return bool(self) == o

    def __ne__(self, o):
        return not_(self == o)

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return '<SymBool>'

    def __getattr__(self, n):
        return getattr(bool(self), n)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def not_(b):
    if type(b) is SymBool:
        return mkbool(z3.simplify(z3.Not(b.e)))
    return not b


def and_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es) if len(es) > 1 else es[0])


def or_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es) if len(es) > 1 else es[0])


# ---------------------------------------------------------------- integers
def width_for(lo, hi):
    w = 2
    w = max(w, hi.bit_length() + 1, (-lo - 1).bit_length() + 1 if lo < 0 else 1)
    return w


def fit(e, w):
    """sign-extend or truncate (mod 2^w) a signed term"""
    n = e.size()
    if n == w:
        return e
    if n < w:
        return z3.SignExt(w - n, e)
    return z3.Extract(w - 1, 0, e)


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    if lo > hi:
        # empty interval: only on an infeasible path
        return lo
    w = width_for(lo, hi)
    e = fit(e, w) if e.size() != w else e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def as_sym(x):
    """-> (e, lo, hi) for int-like"""
    if type(x) is SymInt:
        return x.e, x.lo, x.hi
    if type(x) is SymBool:
        return z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    x = int(x)
    w = width_for(x, x)
    return z3.BitVecVal(x, w), x, x


def intlike(x):
    return type(x) is SymInt or type(x) is SymBool or (isinstance(x, int) and not is_sym(x))


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi', 'sub', 'att')
    __class__ = property(lambda s: s.sub or int)

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.sub = None       # the subclass of int or long this is an instance of

    def __repr__(self):
        return '<SymInt %d..%d>' % (self.lo, self.hi)

    def concretize(self, what='int'):
        return E.concretize_bv(self.e, True, what)

    def __index__(self):
        return self.concretize('index')

    def __int__(self):
        return self

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return E.branch(self.e != 0)

    def __hash__(self):
        return hash(self.concretize('hash'))

    # arithmetic -----------------------------------------------------
    def _arith(self, o, fn, rng):
        if not intlike(o):
            return NotImplemented
        a, al, ah = self.e, self.lo, self.hi
        b, bl, bh = as_sym(o)
        lo, hi = rng(al, ah, bl, bh)
        w = max(width_for(lo, hi), 2)
        return mkint(fn(fit(a, w), fit(b, w)), lo, hi)

    def __add__(self, o):
        if isinstance(o, float) or type(o) is SymFloat:
            return tofloat(self) + o
        return self._arith(o, lambda a, b: a + b, lambda al, ah, bl, bh: (al + bl, ah + bh))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) or type(o) is SymFloat:
            return tofloat(self) - o
        return self._arith(o, lambda a, b: a - b, lambda al, ah, bl, bh: (al - bh, ah - bl))

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - tofloat(self)
        return self._arith(o, lambda a, b: b - a, lambda al, ah, bl, bh: (bl - ah, bh - al))

    def __mul__(self, o):
        if isinstance(o, float) or type(o) is SymFloat:
            return tofloat(self) * o

        def rng(al, ah, bl, bh):
            p = (al * bl, al * bh, ah * bl, ah * bh)
            return min(p), max(p)
        if isinstance(o, (str, list, tuple)) and not intlike(o):
            return o * self.concretize('repeat')
        return self._arith(o, lambda a, b: a * b, rng)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        m = max(-self.lo, self.hi)
        w = width_for(-m, m)
        e = fit(self.e, w)
        return mkint(z3.If(e < 0, -e, e), 0, m)

    def __invert__(self):
        return mkint(~self.e, ~self.hi, ~self.lo)

    def _bits(self, o, fn, rng):
        if not intlike(o):
            return NotImplemented
        b, bl, bh = as_sym(o)
        w = max(self.e.size(), b.size())
        lo, hi = rng(self.lo, self.hi, bl, bh, w)
        return mkint(fn(fit(self.e, w), fit(b, w)), lo, hi)

    def __and__(self, o):
        def rng(al, ah, bl, bh, w):
            if al >= 0 and bl >= 0:
                return 0, min(ah, bh)
            if bl >= 0:
                return 0, bh
            if al >= 0:
                return 0, ah
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda a, b: a & b, rng)
    __rand__ = __and__

    def __or__(self, o):
        def rng(al, ah, bl, bh, w):
            if al >= 0 and bl >= 0:
                return max(al, bl), (1 << max(ah, bh).bit_length()) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda a, b: a | b, rng)
    __ror__ = __or__

    def __xor__(self, o):
        def rng(al, ah, bl, bh, w):
            if al >= 0 and bl >= 0:
                return 0, (1 << max(ah, bh).bit_length()) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda a, b: a ^ b, rng)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if not intlike(o):
            return NotImplemented
        if type(o) is SymInt:
            o = o.concretize('shift')
        if o < 0:
            raise ValueError('negative shift count')
        if o > 4096:
            raise Unsupported('huge shift')
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.concretize('shift')

    def __rshift__(self, o):
        if not intlike(o):
            return NotImplemented
        if type(o) is SymInt:
            o = o.concretize('shift')
        if o < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> o, self.hi >> o
        n = self.e.size()
        if o >= n:
            return mkint(z3.If(self.e < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)), lo, hi)
        return mkint(self.e >> o, lo, hi)

    def __rrshift__(self, o):
        return o >> self.concretize('shift')

    def __floordiv__(self, o):
        return self.divmod_(o)[0]

    def __mod__(self, o):
        return self.divmod_(o)[1]

    def __rfloordiv__(self, o):
        if isinstance(o, float):
            return o // float(self.concretize('div'))
        return lift(o).divmod_(self)[0]

    def __rmod__(self, o):
        if isinstance(o, float):
            return o % float(self.concretize('mod'))
        if not intlike(o):
            return NotImplemented
        return lift(o).divmod_(self)[1]

    def __divmod__(self, o):
        return self.divmod_(o)

    def divmod_(self, o):
        if type(o) is SymBool:
            o = bool(o)
        if isinstance(o, float) or type(o) is SymFloat:
            f = tofloat(self)
            return (f // o, f % o)
        if type(o) is SymInt:
            if o.lo <= 0 <= o.hi and E.branch(o.e == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            o = o.concretize('divisor')
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            q, r = (-self).divmod_(-o)
            return q, -r
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            q = self >> k
            if self.lo >= 0 or True:
                w = max(self.e.size(), k + 2)
                r = mkint(fit(self.e, w) & z3.BitVecVal(o - 1, w), 0, min(o - 1, self.hi) if self.lo >= 0 else o - 1)
            return q, r
        w = max(self.e.size(), width_for(-o, o)) + 1
        a = fit(self.e, w)
        b = z3.BitVecVal(o, w)
        lo, hi = self.lo // o, self.hi // o
        if self.lo >= 0:
            return mkint(z3.UDiv(a, b), lo, hi), mkint(z3.URem(a, b), 0, min(o - 1, self.hi))
        # z3's bvsmod has the sign of the divisor, as Python's %
        r = a % b
        q = (a - r) / b
        return mkint(q, lo, hi), mkint(r, 0, o - 1)

    def __truediv__(self, o):
        return tofloat(self) / o

    def __rtruediv__(self, o):
        return o / tofloat(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4 and not is_sym(o):
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.concretize('pow') ** o

    def __rpow__(self, o):
        return o ** self.concretize('pow')

    # comparison -----------------------------------------------------
    def _cmp(self, o, fn, yes, no):
        if type(o) is SymInt or type(o) is SymBool or isinstance(o, int):
            b, bl, bh = as_sym(o)
        elif isinstance(o, float) and not is_sym(o):
            return fcmp_int(self, o, fn)
        elif type(o) is SymFloat:
            return fn(tofloat(self), o)
        else:
            return NotImplemented
        if yes(self.lo, self.hi, bl, bh):
            return True
        if no(self.lo, self.hi, bl, bh):
            return False
        w = max(self.e.size(), b.size())
        return mkbool(fn(fit(self.e, w), fit(b, w)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda al, ah, bl, bh: ah < bl, lambda al, ah, bl, bh: al >= bh)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda al, ah, bl, bh: ah <= bl, lambda al, ah, bl, bh: al > bh)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda al, ah, bl, bh: al > bh, lambda al, ah, bl, bh: ah <= bl)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda al, ah, bl, bh: al >= bh, lambda al, ah, bl, bh: ah < bl)

    def __eq__(self, o):
        if is_sym(o) or isinstance(o, (int, float)):
            r = self._cmp(o, lambda a, b: a == b, lambda *a: False, lambda al, ah, bl, bh: ah < bl or bh < al)
            return False if r is NotImplemented else r
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)


class SubMeta(type):
    """classes derived from int, long, float, str or unicode; their instances are symbolic values that know their class"""
    convert = None

    def __call__(cls, *a, **k):
        for c in cls.__mro__:
            if type(c) is not SubMeta and c is not object:
                break
        v = SubMeta.convert(c, *a, **k)
        if isinstance(v, float) and type(v) is float:
            v = SymFloat(bv=z3.BitVecVal(bits_of(v), 64))
        elif type(v) is int:
            v = SymInt(*as_sym(v))
        elif type(v) in (str, UStr):
            v = (SymUni if type(v) is UStr else SymStr)(map(ord, v))
        else:
            v = unsub(v)
        if type(v) not in (SymInt, SymFloat, SymStr, SymUni):
            raise Unsupported('instance of ' + cls.__name__)
        for n in cls.__dict__:
            if n not in ('__module__', '__dict__', '__doc__', '__weakref__', '__qualname__', '__static_attributes__', '__firstlineno__'):
                raise Unsupported('members of ' + cls.__name__)
        v.sub = cls
        v.att = {}       # its instance dictionary
        return v


def unsub(x):
    """the same value as an instance of the basic type"""
    if type(x) is SymInt:
        return SymInt(x.e, x.lo, x.hi)
    if type(x) is SymFloat:
        r = SymFloat(x._bv, x._fp, x.ival)
        r.f32 = x.f32
        return r
    return type(x)(x.items)


def lift(x):
    if type(x) is SymInt:
        return x
    e, lo, hi = as_sym(x)
    return SymInt(e, lo, hi)


def fcmp_int(si, f, fn):
    """compare a symbolic int with a concrete float"""
    if f != f:
        return fn(0.0, f)
    if f in (float('inf'), float('-inf')):
        return fn(0, 1 if f > 0 else -1)
    if f == int(f):
        return fn(si, int(f))
    # non-integral: compare doubled values against an odd midpoint
    k = 2 * math.floor(f) + 1
    return fn(si * 2, k)


def sym_int(name, lo, hi):
    w = width_for(lo, hi)
    v = z3.BitVec(name, w)
    E.assume(z3.And(v >= lo, v <= hi)) if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1) else None
    return mkint(v, lo, hi)


# ---------------------------------------------------------------- floats
def bits_of(f):
    return _struct.unpack('>Q', _struct.pack('>d', f))[0]


def float_of(b):
    return _struct.unpack('>d', _struct.pack('>Q', b))[0]


CANON_NAN = 0x7ff8000000000000


class SymFloat(Sym):
    """a double: an IEEE bit pattern (bv), or the exact value of a SymInt (ival)"""
    __slots__ = ('_bv', '_fp', 'ival', 'f32', 'sub', 'att')
    __class__ = property(lambda s: s.sub or float)

    def __init__(self, bv=None, fp=None, ival=None):
        self._bv = bv
        self._fp = fp
        self.ival = ival
        self.f32 = None
        self.sub = None

    @property
    def fp(self):
        if self._fp is None:
            if self._bv is not None:
                self._fp = z3.simplify(z3.fpBVToFP(self._bv, FP64))
            else:
                self._fp = z3.fpSignedToFP(RNE, self.ival.e, FP64)
        return self._fp

    @property
    def bv(self):
        if self._bv is None:
            # definitional: a fresh pattern whose value is fp (NaN excluded or canonical)
            b = E.fresh('fbits', z3.BitVecSort(64))
            if self.ival is not None and type(self.ival) is SymInt:
                E.assume(b == int_bits(self.ival))
                self._bv = b
                FLOATS[b.get_id()] = self
                return b
            f = self.fp
            E.assume(z3.If(z3.fpIsNaN(f), b == z3.BitVecVal(CANON_NAN, 64),
                           z3.And(z3.fpBVToFP(b, FP64) == f, z3.Not(z3.fpIsNaN(z3.fpBVToFP(b, FP64))))))
            self._bv = b
            FLOATS[b.get_id()] = self
        return self._bv

    def packed_bits(self):
        """the pattern struct.pack writes: NaNs are made canonical by the JVM"""
        b = self.bv
        if self.ival is not None:
            return b
        isnan = z3.fpIsNaN(self.fp)
        return z3.simplify(z3.If(isnan, z3.BitVecVal(CANON_NAN, 64), b))

    def concretize(self, what='float'):
        v = E.concretize_bv(self.bv, False, what)
        return float_of(v)

    def __repr__(self):
        return '<SymFloat>'

    def __hash__(self):
        return hash(self.concretize('hash'))

    def __float__(self):
        return self.concretize('float()')

    def __bool__(self):
        if self.ival is not None:
            return bool(self.ival)
        return E.branch(z3.Not(z3.fpIsZero(self.fp)))

    def _c(self, o, fi, ff):
        if type(o) is BigTrunc:
            o = o.f
        elif type(o) is SymInt and self.ival is None and o.e.get_id() in INTSRC:
            o = tofloat(o)
        if type(o) is SymFloat:
            if self.ival is not None and o.ival is not None:
                return fi(self.ival, o.ival)
            return mkbool(z3.simplify(ff(self.fp, o.fp)))
        if intlike(o):
            if self.ival is not None:
                return fi(self.ival, o)
            return self._c(tofloat(o), fi, ff)
        if isinstance(o, float):
            if self.ival is not None:
                return fcmp_int(self.ival, o, fi)
            return mkbool(z3.simplify(ff(self.fp, z3.FPVal(o, FP64))))
        return NotImplemented

    def __eq__(self, o):
        if o is self or type(o) is BigTrunc and o.f is self:
            return mkbool(z3.simplify(z3.Not(z3.fpIsNaN(self.fp)))) if self.ival is None else True
        if self._bv is not None and type(o) is SymFloat and o._bv is not None and self._bv.eq(o._bv):
            return mkbool(z3.simplify(z3.Not(z3.fpIsNaN(self.fp))))
        return self._c(o, lambda a, b: a == b, z3.fpEQ)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, z3.fpLT)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, z3.fpLEQ)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, z3.fpGT)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, z3.fpGEQ)

    def _ar(self, o, f, swap=False):
        if not (intlike(o) or isinstance(o, float) or type(o) is SymFloat):
            return NotImplemented
        o = tofloat(o)
        b = o.fp if type(o) is SymFloat else z3.FPVal(o, FP64)
        a = self.fp
        return mkfloat(f(b, a) if swap else f(a, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: z3.fpAdd(RNE, a, b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: z3.fpSub(RNE, a, b), True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: z3.fpMul(RNE, a, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_sym(o) and o == 0:
            raise ZeroDivisionError('float division by zero')
        if is_sym(o) and not o:
            raise ZeroDivisionError('float division by zero')
        return self._ar(o, lambda a, b: z3.fpDiv(RNE, a, b))

    def __rtruediv__(self, o):
        if not self:
            raise ZeroDivisionError('float division by zero')
        return self._ar(o, lambda a, b: z3.fpDiv(RNE, a, b), True)

    def __neg__(self):
        return mkfloat(z3.fpNeg(self.fp))

    def __abs__(self):
        return mkfloat(z3.fpAbs(self.fp))

    def __floordiv__(self, o):
        return self.concretize('float //') // (o.concretize('float //') if is_sym(o) else o)

    def __mod__(self, o):
        return self.concretize('float %') % (o.concretize('float %') if is_sym(o) else o)

    def __pow__(self, o):
        return self.concretize('float **') ** o

    def is_integer(self):
        if self.ival is not None:
            return True
        return mkbool(z3.simplify(z3.And(z3.Not(z3.fpIsInf(self.fp)), z3.Not(z3.fpIsNaN(self.fp)),
                                         z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.fp), self.fp))))


def int_bits(n):
    """the bits of float(n), |n| <= 2^53, without the floating point theory"""
    hi = max(abs(n.lo), abs(n.hi))
    e = fit(n.e, max(n.e.size(), hi.bit_length() + 1))
    w = e.size()
    neg = e < 0 if n.lo < 0 else z3.BoolVal(False)
    a = z3.If(neg, -e, e) if n.lo < 0 else e
    a = z3.Extract(63, 0, a) if w > 64 else z3.ZeroExt(64 - w, a) if w < 64 else a
    r = z3.BitVecVal(0, 64)
    for k in range(hi.bit_length()):
        # highest bit set is k
        mant = a << (52 - k) if k <= 52 else z3.LShR(a, k - 52)
        v = (mant & ((1 << 52) - 1)) | (z3.BitVecVal(1023 + k, 64) << 52)
        r = z3.If(z3.UGE(a, z3.BitVecVal(1 << k, 64)), v, r)
    if n.lo < 0:
        r = r | z3.If(neg, z3.BitVecVal(1 << 63, 64), z3.BitVecVal(0, 64))
    return z3.simplify(r)


FLOATS = {}     # id of a pattern term -> SymFloat (keeps integer origin); reset per path


def mkfloat(fp):
    fp = z3.simplify(fp)
    if z3.is_fp_value(fp):
        return fpval(fp)
    return SymFloat(fp=fp)


def fpval(v):
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return float_of(b)


def truth_of(b):
    return E.branch(b.e) if type(b) is SymBool else bool(b)


def tofloat(x):
    if type(x) is SymFloat:
        return x if x.sub is None else unsub(x)
    if type(x) is SymBool:
        x = bool(x)
    if type(x) is BigTrunc:
        return x.f
    if type(x) is SymInt:
        src = INTSRC.get(x.e.get_id())
        if src is not None:
            return SymFloat(fp=src[1])
        if -(1 << 53) <= x.lo and x.hi <= (1 << 53):
            return SymFloat(ival=x)
        w = x.e.size()
        if x.lo < -(1 << 1023) or x.hi > (1 << 1023):
            lim = (1 << 1024) - (1 << 970)
            if truth_of(or_(x >= lim, x <= -lim)):
                raise OverflowError('long int too large to convert to float')
        return SymFloat(fp=z3.fpSignedToFP(RNE, x.e, FP64))
    return float(x)


def float_from_bits(bv):
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return float_of(bv.as_long())
    f = FLOATS.get(bv.get_id())
    if f is not None:
        return f
    f = SymFloat(bv=bv)
    FLOATS[bv.get_id()] = f
    return f


def float_to_int(f):
    """Python's int(float): truncation, ValueError/OverflowError for nan/inf"""
    if f.ival is not None:
        return f.ival
    fp = f.fp
    if E.branch(z3.fpIsNaN(fp)):
        raise ValueError('cannot convert float NaN to integer')
    if E.branch(z3.fpIsInf(fp)):
        raise OverflowError('cannot convert float infinity to integer')
    w = 55
    lim = float(1 << 53)
    if E.branch(z3.And(z3.fpLT(fp, z3.FPVal(lim, FP64)), z3.fpGT(fp, z3.FPVal(-lim, FP64)))):
        r = mkint(z3.fpToSBV(z3.RTZ(), fp, z3.BitVecSort(w)), -(1 << 53), 1 << 53)
        if type(r) is SymInt:
            INTSRC[r.e.get_id()] = r.e, z3.simplify(z3.fpRoundToIntegral(z3.RTZ(), fp))
        return r
    return BigTrunc(f)


class BigTrunc(Sym):
    """int(f) of a float of at least 2^53: the float is integral, so the integer equals it"""
    __slots__ = ('f',)
    __class__ = property(lambda s: int)

    def __init__(self, f):
        self.f = f

    def concretize(self, what='int'):
        return int(self.f.concretize(what))

    def __repr__(self):
        return '<BigTrunc>'

    def __index__(self):
        return self.concretize('index')

    def __int__(self):
        return self

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(self.concretize('hash'))

    def _o(self, o):
        if type(o) is BigTrunc:
            return o.f
        if isinstance(o, float) or type(o) is SymFloat:
            return o
        if intlike(o):
            if type(o) is not SymInt:
                o = int(o)
            lo, hi = (o.lo, o.hi) if type(o) is SymInt else (o, o)
            if -(1 << 53) < lo and hi < (1 << 53):
                return tofloat(o)
        return None

    def _cmp(op):
        def f(self, o):
            x = self._o(o)
            if x is None:
                if isinstance(o, int):
                    return op(self.concretize('big int'), o)
                return NotImplemented
            return op(self.f, x)
        return f

    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def _arith(op):
        return lambda self, o: op(self.concretize('big int'), o)

    def _rarith(op):
        return lambda self, o: op(o, self.concretize('big int'))
    import operator as _op
    for _n in 'add sub mul floordiv mod and_ or_ xor lshift rshift pow'.split():
        _k = _n.rstrip('_')
        locals()['__%s__' % _k] = _arith(getattr(_op, _n))
        locals()['__r%s__' % _k] = _rarith(getattr(_op, _n))
    del _op, _n, _k

    def __neg__(self):
        return BigTrunc(-self.f)

    def __abs__(self):
        return BigTrunc(abs(self.f))


B64SRC = {}     # id of a term for a base64 character -> (term, the six bits it stands for); reset per path
INTSRC = {}     # id of a term truncated from a float -> (term, the float rounded to integral); reset per path


# ---------------------------------------------------------------- sequences of characters
def item_eq(a, b):
    """equality of two items (int or z3 term of equal sort) -> bool or z3"""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if b >= (1 << a.size()) or b < 0:
            return False
        return a == b
    if a.eq(b):
        return True
    return a == b


class SymSeq(Sym):
    """fixed-length (per path) sequence of characters, some of them symbolic"""
    __slots__ = ('items', 'sub', 'att')
    W = 8
    uni = False

    def __init__(self, items):
        self.items = tuple(items)
        self.sub = None

    # construction
    @classmethod
    def make(cls, items):
        out = []
        conc = True
        for i in items:
            if not isinstance(i, int):
                if z3.is_bv_value(i):
                    i = i.as_long()
                else:
                    conc = False
            out.append(i)
        if conc:
            return cls.concrete(out)
        return cls(out)

    def char(self, it):
        return self.make((it,))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        for i in self.items:
            yield self.make((i,))

    def __hash__(self):
        return hash(self.concretize('hash'))

    def concretize(self, what='str'):
        out = []
        for i in self.items:
            out.append(i if isinstance(i, int) else E.concretize_bv(i, False, what))
        return self.concrete(out)

    def coerce(self, o):
        """other operand as item tuple of the same kind, or None"""
        if issubclass(type(o), SymSeq) and type(o).uni == self.uni:
            return o.items
        if isinstance(o, str) and not is_sym(o):
            if not self.uni and isinstance(o, UStr):
                return None
            return tuple(map(ord, o))
        return None

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[x.concretize('slice') if type(x) is SymInt else x for x in (k.start, k.stop, k.step)])
            return self.make(self.items[k])
        if type(k) is SymInt:
            n = len(self.items)
            if not (k >= -n and k < n):
                raise IndexError('string index out of range')
            k = k.concretize('index')
        try:
            return self.make((self.items[k],))
        except IndexError:
            raise IndexError('string index out of range')

    def _eq_items(self, a, b):
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            r = item_eq(x, y)
            if r is True:
                continue
            if r is False:
                return False
            es.append(r)
        if not es:
            return True
        return mkbool(z3.simplify(z3.And(*es) if len(es) > 1 else es[0]))

    def __eq__(self, o):
        return seq_eq(self, o)

    def __ne__(self, o):
        r = seq_eq(self, o)
        return r if r is NotImplemented else not_(r)

    def _lt(self, o, orequal):
        b = seq_items_cmp(self, o)
        if b is None:
            return NotImplemented
        a, b = b
        for x, y in zip(a, b):
            r = item_eq(x, y)
            if r is True or (r is not False and E.branch(r)):
                continue
            W = 21
            x = z3.BitVecVal(x, W) if isinstance(x, int) else z3.ZeroExt(W - x.size(), x)
            y = z3.BitVecVal(y, W) if isinstance(y, int) else z3.ZeroExt(W - y.size(), y)
            return E.branch(z3.ULT(x, y))
        return len(a) <= len(b) if orequal else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __add__(self, o):
        return seq_add(self, o)

    def __radd__(self, o):
        return seq_add(o, self)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = n.concretize('repeat')
        return self.make(self.items * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        import rt
        return rt.mod(self.concretize('format string'), args)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, ''.join(chr(i) if isinstance(i, int) and 32 <= i < 127 else '?' for i in self.items))

    # methods ---------------------------------------------------------
    def _arg(self, o):
        it = self.coerce(o)
        if it is None:
            if isinstance(o, (UStr, SymUni)):
                raise PromoteU()
            raise TypeError('expected a character buffer object')
        return it

    def _match(self, i, sub):
        if i < 0 or i + len(sub) > len(self.items):
            return False
        r = self._eq_items(self.items[i:i + len(sub)], sub)
        return bool(r)

    def _span(self, start, end):
        n = len(self.items)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = self._arg(sub)
        s, e = self._span(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._match(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._arg(sub)
        s, e = self._span(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._match(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        sub = self._arg(sub)
        n = i = 0
        while i + len(sub) <= len(self.items):
            if self._match(i, sub):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        p = self._arg(p)
        s, e = self._span(start, end)
        return e - s >= len(p) and self._match(s, p)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        p = self._arg(p)
        s, e = self._span(start, end)
        return e - s >= len(p) and self._match(e - len(p), p)

    WS = (9, 10, 11, 12, 13, 32)

    def _isin(self, it, chars):
        if isinstance(it, int):
            return it in chars
        return E.branch(z3.Or(*[it == c if isinstance(c, int) else it == c for c in chars]))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _strip(self, chars, l, r):
        c = self.WS if chars is None else self._arg(chars)
        it = self.items
        i, j = 0, len(it)
        if l:
            while i < j and self._isin(it[i], c):
                i += 1
        if r:
            while j > i and self._isin(it[j - 1], c):
                j -= 1
        return self.make(it[i:j])

    def split(self, sep=None, maxsplit=-1):
        it = self.items
        out = []
        if sep is None:
            i = 0
            n = len(it)
            while True:
                while i < n and self._isin(it[i], self.WS):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.make(it[i:]).rstrip() if False else self.make(it[i:]))
                    break
                j = i
                while j < n and not self._isin(it[j], self.WS):
                    j += 1
                out.append(self.make(it[i:j]))
                i = j
            return out
        sep = self._arg(sep)
        if not sep:
            raise ValueError('empty separator')
        st = i = 0
        while i + len(sep) <= len(it):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match(i, sep):
                out.append(self.make(it[st:i]))
                i += len(sep)
                st = i
            else:
                i += 1
        out.append(self.make(it[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported('rsplit on whitespace')
        sep = self._arg(sep)
        it = self.items
        out = []
        en = len(it)
        i = en - len(sep)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and self._match(i, sep):
                out.append(self.make(it[i + len(sep):en]))
                en = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self.make(it[:en]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self.make(self.items), self.concrete(()), self.concrete(()))
        n = len(self._arg(sep))
        return (self[:i], self[i:i + n], self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.concrete(()), self.concrete(()), self.make(self.items))
        n = len(self._arg(sep))
        return (self[:i], self[i:i + n], self[i + n:])

    def replace(self, a, b, n=-1):
        parts = self.split(a, n)
        return self.make_like(b).join(parts)

    def make_like(self, o):
        return o if issubclass(type(o), SymSeq) else (SymUni if self.uni else SymStr)(self._arg(o))

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.items)
            first = False
            out.extend(self._arg(x))
        return self.make(out)

    def _mapcase(self, lo, hi, delta):
        out = []
        for i in self.items:
            if isinstance(i, int):
                out.append(i + delta if lo <= i <= hi else i)
                if self.uni and i > 127:
                    raise Unsupported('case mapping of non-ASCII text')
            else:
                if self.uni and E.branch(z3.UGT(i, 127)):
                    return None
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(i, lo), z3.ULE(i, hi)), i + delta, i)))
        return self.make(out)

    def lower(self):
        r = self._mapcase(65, 90, 32)
        return r if r is not None else self.via_concrete('lower')

    def upper(self):
        r = self._mapcase(97, 122, -32)
        return r if r is not None else self.via_concrete('upper')

    def via_concrete(self, m, *a):
        import rt
        return rt.call(rt.getattr_(self.concretize('str.' + m), m), *a)

    def _allin(self, lo, hi, m):
        if not self.items:
            return False
        for i in self.items:
            if isinstance(i, int):
                if not lo <= i <= hi:
                    return False if not self.uni or i < 128 else self.via_concrete(m)
            else:
                if not E.branch(z3.And(z3.UGE(i, lo), z3.ULE(i, hi))):
                    if self.uni and E.branch(z3.UGE(i, 128)):
                        return self.via_concrete(m)
                    return False
        return True

    def isdigit(self):
        return self._allin(48, 57, 'isdigit')

    def __getattr__(self, n):
        import rt
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(str, n):
            raise AttributeError("'%s' object has no attribute '%s'" % ('unicode' if self.uni else 'str', n))
        return lambda *a, **k: self.via_concrete(n, *a, **k)

    def decode(self, enc='ascii', errors='strict'):
        if self.uni:
            return encode_items(self, 'ascii', 'strict').decode(enc, errors) if is_sym(encode_items(self, 'ascii', 'strict')) \
                else s_decode(encode_items(self, 'ascii', 'strict'), enc, errors)
        return decode_items(self, enc, errors)

    def encode(self, enc='ascii', errors='strict'):
        if self.uni:
            return encode_items(self, enc, errors)
        e = norm_enc(enc)
        if e in ('hex', 'base64', 'zlib'):
            return self.via_concrete('encode', enc)
        u = decode_items(self, 'ascii', 'strict')
        return u.encode(enc, errors) if is_sym(u) else s_encode(u, enc, errors)

    def isalnum(self):
        return self.via_concrete('isalnum')


class PromoteU(Exception):
    pass


class SymStr(SymSeq):
    __slots__ = ()
    W = 8
    __class__ = property(lambda s: s.sub or str)

    @staticmethod
    def concrete(items):
        return ''.join(map(chr, items))


class SymUni(SymSeq):
    __slots__ = ()
    W = 21
    uni = True
    __class__ = property(lambda s: s.sub or UStr)

    @staticmethod
    def concrete(items):
        return UStr(''.join(map(chr, items)))


def is_strlike(x):
    return isinstance(x, str)


def is_uni(x):
    return type(x) is SymUni or isinstance(x, UStr)


def items_of(x):
    if isinstance(x, SymSeq) or type(x) in (SymStr, SymUni):
        return x.items
    return tuple(map(ord, x))


def to_uni_items(x):
    """items of a unicode operand; a byte string is decoded as ASCII"""
    if is_uni(x):
        return items_of(x)
    out = []
    for n, i in enumerate(items_of(x)):
        if isinstance(i, int):
            if i > 127:
                raise UnicodeDecodeError('ascii', bytes([i]), 0, 1, 'ordinal not in range(128)')
            out.append(i)
        else:
            if E.branch(z3.UGT(i, 127)):
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
            out.append(z3.ZeroExt(13, i))
    return tuple(out)


def seq_add(a, b):
    if not (is_strlike(a) and is_strlike(b)):
        return NotImplemented
    if is_uni(a) or is_uni(b):
        return SymUni.make(to_uni_items(a) + to_uni_items(b))
    return SymStr.make(items_of(a) + items_of(b))


def seq_items_cmp(a, b):
    if not (is_strlike(a) and is_strlike(b)):
        return None
    if is_uni(a) != is_uni(b):
        return to_uni_items(a), to_uni_items(b)
    return items_of(a), items_of(b)


def seq_eq(a, b):
    """equality of two guest strings (any mixture of kinds)"""
    if not (is_strlike(a) and is_strlike(b)):
        return False
    ua, ub = is_uni(a), is_uni(b)
    x, y = items_of(a), items_of(b)
    if len(x) != len(y):
        # a non-ASCII byte string never equals text; lengths differ anyway
        return False
    es = []
    for p, q in zip(x, y):
        r = item_eq21(p, q) if ua != ub else item_eq(p, q)
        if ua != ub and r is not False:
            # bytes above 127 compare unequal to text
            byt = q if ua else p
            if isinstance(byt, int):
                if byt > 127:
                    return False
            else:
                es.append(z3.ULE(byt, 127))
        if r is True:
            continue
        if r is False:
            return False
        es.append(r)
    if not es:
        return True
    return mkbool(z3.simplify(z3.And(*es) if len(es) > 1 else es[0]))


def item_eq21(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return item_eq(a, b)
    W = max(a.size(), b.size())
    a = z3.ZeroExt(W - a.size(), a) if a.size() < W else a
    b = z3.ZeroExt(W - b.size(), b) if b.size() < W else b
    return item_eq(a, b)


def norm_enc(e):
    import rt
    e = rt.plain(e)
    e = str(e).lower().replace('_', '-')
    return {'utf8': 'utf-8', 'u8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1',
            'us-ascii': 'ascii', 'utf-8': 'utf-8'}.get(e, e)


def s_encode(u, enc, errors='strict'):
    """concrete unicode -> str"""
    e = norm_enc(enc)
    if e == 'utf-8':
        b = str.encode(u, 'utf-8', 'surrogatepass')
    else:
        b = str.encode(u, e, errors)
    return b.decode('latin-1')


def s_decode(s, enc, errors='strict'):
    """concrete str -> unicode (or str for the str-to-str codecs)"""
    e = norm_enc(enc)
    b = str.encode(s, 'latin-1')
    if e == 'hex':
        import binascii
        return binascii.unhexlify(b).decode('latin-1')
    if e == 'base64':
        import base64
        return base64.decodebytes(b).decode('latin-1')
    if e == 'zlib':
        import zlib
        return zlib.decompress(b).decode('latin-1')
    if e in ('string-escape', 'unicode-escape'):
        raise Unsupported('codec ' + e)
    return UStr(b.decode(e, errors))


def ascii_err(enc, what, lim):
    raise UnicodeEncodeError(enc, 'x', 0, 1, 'ordinal not in range(%d)' % lim)


def encode_items(u, enc, errors):
    e = norm_enc(enc)
    out = []
    if e in ('ascii', 'latin-1'):
        lim = 127 if e == 'ascii' else 255
        for i in u.items:
            if isinstance(i, int):
                bad = i > lim
            else:
                bad = E.branch(z3.UGT(i, lim))
            if bad:
                if errors in ('replace', 'ignore'):
                    if errors == 'replace':
                        out.append(63)
                    continue
                if errors != 'strict':
                    raise Unsupported('encode errors=' + str(errors))
                ascii_err(e, i, lim + 1)
            out.append(i if isinstance(i, int) else z3.simplify(z3.Extract(7, 0, i)))
        return SymStr.make(out)
    if e != 'utf-8':
        return s_encode(u.concretize('encode'), enc, errors)
    for i in u.items:
        if isinstance(i, int):
            out.extend(chr(i).encode('utf-8', 'surrogatepass'))
            continue

        def ex(h, l, pre):
            b = z3.Extract(h, l, i)
            n = h - l + 1
            return z3.simplify(z3.Concat(z3.BitVecVal(pre >> n, 8 - n), b))
        if E.branch(z3.ULT(i, 0x80)):
            out.append(z3.simplify(z3.Extract(7, 0, i)))
        elif E.branch(z3.ULT(i, 0x800)):
            out += [ex(10, 6, 0xc0), ex(5, 0, 0x80)]
        elif E.branch(z3.ULT(i, 0x10000)):
            out += [ex(15, 12, 0xe0), ex(11, 6, 0x80), ex(5, 0, 0x80)]
        else:
            out += [ex(20, 18, 0xf0), ex(17, 12, 0x80), ex(11, 6, 0x80), ex(5, 0, 0x80)]
    return SymStr.make(out)


def udecode_error(enc, why):
    raise UnicodeDecodeError(enc, b'?', 0, 1, why)


def decode_items(s, enc, errors):
    e = norm_enc(enc)
    it = s.items
    if e in ('ascii', 'latin-1'):
        if errors != 'strict' and e == 'ascii':
            return s_decode(s.concretize('decode'), enc, errors)
        out = []
        for i in it:
            if e == 'ascii':
                if isinstance(i, int):
                    bad = i > 127
                else:
                    bad = E.branch(z3.UGT(i, 127))
                if bad:
                    udecode_error('ascii', 'ordinal not in range(128)')
            out.append(i if isinstance(i, int) else z3.ZeroExt(13, i))
        return SymUni.make(out)
    if e == 'utf-8' and errors in ('replace', 'ignore'):
        # valid text needs no replacement; the rest is rare enough to enumerate
        try:
            return decode_items(s, enc, 'strict')
        except UnicodeDecodeError:
            pass
    if e != 'utf-8' or errors != 'strict':
        return s_decode(s.concretize('decode'), enc, errors)
    out = []
    n = len(it)
    p = 0

    def bv(x):
        return z3.BitVecVal(x, 8) if isinstance(x, int) else x

    def test(c):
        if isinstance(c, bool):
            return c
        return E.branch(c)

    def inr(x, lo, hi):
        if isinstance(x, int):
            return lo <= x <= hi
        return E.branch(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))

    def low(x, k):
        x = bv(x)
        return z3.ZeroExt(21 - k, z3.Extract(k - 1, 0, x))

    while p < n:
        b = it[p]
        if inr(b, 0, 0x7f):
            out.append(b if isinstance(b, int) else z3.ZeroExt(13, b))
            p += 1
            continue
        if inr(b, 0xc2, 0xdf):
            k, first = 2, (0x80, 0xbf)
        elif inr(b, 0xe0, 0xef):
            k = 3
            if inr(b, 0xe0, 0xe0):
                first = (0xa0, 0xbf)
            elif inr(b, 0xed, 0xed):
                first = (0x80, 0x9f)
            else:
                first = (0x80, 0xbf)
        elif inr(b, 0xf0, 0xf4):
            k = 4
            if inr(b, 0xf0, 0xf0):
                first = (0x90, 0xbf)
            elif inr(b, 0xf4, 0xf4):
                first = (0x80, 0x8f)
            else:
                first = (0x80, 0xbf)
        else:
            udecode_error('utf-8', 'invalid start byte')
        for j in range(1, k):
            if p + j >= n:
                udecode_error('utf-8', 'unexpected end of data')
            lo, hi = first if j == 1 else (0x80, 0xbf)
            if not inr(it[p + j], lo, hi):
                udecode_error('utf-8', 'invalid continuation byte')
        if all(isinstance(x, int) for x in it[p:p + k]):
            out.append(ord(bytes(it[p:p + k]).decode('utf-8')))
        else:
            v = low(b, {2: 5, 3: 4, 4: 3}[k])
            for j in range(1, k):
                v = (v << 6) | low(it[p + j], 6)
            out.append(z3.simplify(v))
        p += k
    return SymUni.make(out)
