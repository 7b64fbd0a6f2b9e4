"""Numbers as terms over the reals, for code whose floating point the solver cannot decide bit by bit.

RInt is an integer (exact).  RFloat is a double represented by a real term: every operation yields the exact result plus
an error that IEEE round-to-nearest bounds (half an ulp of the largest magnitude possible), zero when the exact result is
an integer below 2^53.  This over-approximates the real arithmetic: a proof holds for it, a counterexample is replayed.
"""
from fractions import Fraction as Fr
import math
import z3
import values as V
from values import Sym, mkbool
from core import E, Unsupported

BIG = 1 << 53


def rv(x):
    x = Fr(x)
    return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))


def is_num(x):
    return type(x) in (RInt, RFloat)


def view(x):
    """(real term, lo, hi, constant or None)"""
    if is_num(x):
        return x.real(), x.lo, x.hi, None
    if isinstance(x, (V.SymInt, V.SymFloat, V.SymBool)):
        raise Unsupported('bit-vector mixed with real terms')
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant with real terms')
        return rv(Fr(x)), Fr(x), Fr(x), Fr(x)
    if isinstance(x, int):
        return rv(x), Fr(x), Fr(x), Fr(x)
    return None


def both_int(a, b):
    return type(a) is RInt and (type(b) is RInt or isinstance(b, int) and not V.is_sym(b)) or \
        type(b) is RInt and isinstance(a, int) and not V.is_sym(a)


def iterm(x):
    return x.t if type(x) is RInt else z3.IntVal(int(x))


def joint(a, b, sign):
    """the sum of two integers as k * term"""
    (ka, ta), (kb, tb) = ((x.f or (1, x.t)) if type(x) is RInt else (int(x), z3.IntVal(1)) if x else (0, None) for x in (a, b))
    g = math.gcd(ka, kb)
    if g <= 1:
        return None
    t = ta * (ka // g) if ka else 0
    if kb:
        t = t + tb * (kb // g) * sign
    return g, t


def whole(x):
    """the integer equal to x, if known"""
    if type(x) is RInt:
        return x
    if type(x) is RFloat:
        return x.w
    if isinstance(x, (int, float)) and x == int(x):
        return RInt(z3.IntVal(int(x)), int(x), int(x))
    return None


def rounded(t, lo, hi, whole=None):
    """the double nearest to t; whole: an integer equal to t, where one is known"""
    m = max(abs(lo), abs(hi))
    if whole is not None and m < BIG:
        return RFloat(z3.ToReal(whole.t), lo, hi, whole)
    eps = m / BIG + Fr(1, 1 << 1074)
    r = E.fresh('fl', z3.RealSort())
    d = r - t
    E.assume(z3.And(d <= rv(eps), d >= rv(-eps)))
    return RFloat(r, lo - eps, hi + eps)


def floor_of(t, lo, hi):
    k = E.fresh('k', z3.IntSort())
    E.assume(z3.And(z3.ToReal(k) <= t, t < z3.ToReal(k) + 1))
    return RInt(k, math.floor(lo), math.floor(hi))


class Base(Sym):
    __slots__ = ('t', 'lo', 'hi', 'b', 'w', 'f', 'origin')

    def __init__(self, t, lo, hi, w=None, f=None):
        # w: the integer equal to this double, where known; f: (k, term) where this integer is k * term
        self.t, self.lo, self.hi, self.b, self.w, self.f = t, Fr(lo), Fr(hi), None, w, f

    def _lin(self, o, sign, swap=False):
        a, b = (o, self) if swap else (self, o)
        if both_int(a, b):
            ta, tb = iterm(a), iterm(b)
            va, vb = view(a), view(b)
            f = joint(a, b, sign)
            if sign > 0:
                return RInt(ta + tb, va[1] + vb[1], va[2] + vb[2], None, f)
            return RInt(ta - tb, va[1] - vb[2], va[2] - vb[1], None, f)
        va, vb = view(a), view(b)
        if va is None or vb is None:
            return NotImplemented
        wa, wb = whole(a), whole(b)
        w = wa._lin(wb, sign) if wa is not None and wb is not None else None
        if sign > 0:
            return rounded(va[0] + vb[0], va[1] + vb[1], va[2] + vb[2], w)
        return rounded(va[0] - vb[0], va[1] - vb[2], va[2] - vb[1], w)

    def __add__(self, o):
        return self._lin(o, 1)

    def __radd__(self, o):
        return self._lin(o, 1, True)

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return self._lin(o, -1, True)

    def __mul__(self, o):
        v = view(o)
        if v is None:
            return NotImplemented
        c = v[3]
        if c is None:
            raise Unsupported('product of two symbolic reals')
        ends = [self.lo * c, self.hi * c]
        if both_int(self, o):
            return RInt(self.t * int(o), min(ends), max(ends)).times(self, int(o))
        w = whole(self)
        if w is not None:
            w = RInt(w.t * int(c), min(ends), max(ends)).times(w, int(c)) if c.denominator == 1 else None
        return rounded(self.real() * v[0], min(ends), max(ends), w)
    __rmul__ = __mul__

    def __truediv__(self, o):
        v = view(o)
        if v is None:
            return NotImplemented
        c = v[3]
        if c is None:
            raise Unsupported('division by a symbolic real')
        if c == 0:
            raise ZeroDivisionError('division by zero')
        ends = [self.lo / c, self.hi / c]
        w = whole(self)
        w = w.over(c) if w is not None else None
        return rounded(self.real() / v[0], min(ends), max(ends), w)

    def __rtruediv__(self, o):
        raise Unsupported('division by a symbolic real')

    def __floordiv__(self, o):
        return self.__divmod__(o)[0]

    def __mod__(self, o):
        return self.__divmod__(o)[1]

    def __divmod__(self, o):
        v = view(o)
        if v is None:
            return NotImplemented
        c = v[3]
        if c is None or c <= 0:
            raise Unsupported('division by a symbolic or negative number')
        w = whole(self)
        w = w.over(c) if w is not None else None
        if w is not None:
            return (w, 0) if both_int(self, o) else (w.as_float(), 0.0)
        if both_int(self, o):
            o = int(o)
            q, r = E.fresh('q', z3.IntSort()), E.fresh('r', z3.IntSort())
            E.assume(z3.And(self.t == q * o + r, r >= 0, r < o))
            return RInt(q, math.floor(self.lo / c), math.floor(self.hi / c)), RInt(r, 0, o - 1)
        k = floor_of(self.real() / v[0], self.lo / c, self.hi / c)
        return k.as_float(), rounded(self.real() - z3.ToReal(k.t) * v[0], 0, c)

    def __neg__(self):
        return type(self)(-self.t, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.nonneg() else -self

    def nonneg(self):
        if self.lo >= 0:
            return True
        if self.hi < 0:
            return False
        return E.branch(self.t >= 0)

    def _cmp(self, o, f):
        if both_int(self, o):
            return mkbool(z3.simplify(f(self.t, iterm(o))))
        if isinstance(o, float) and not is_num(o) and not V.is_sym(o) and (o != o or o - o != 0):
            return f(0, 0 if o != o else (1 if o > 0 else -1)) if o == o else False
        v = view(o)
        if v is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.real(), v[0])))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else V.not_(r)

    def __bool__(self):
        return E.branch(self.t != 0)

    def __hash__(self):
        raise Unsupported('hash of a real term')

    def __repr__(self):
        return '<real>'

    def concretize(self, what='real'):
        raise Unsupported('concrete value of a real term: ' + what)

    def __index__(self):
        return self.concretize('index')

    def __int__(self):
        w = whole(self)
        if w is not None:
            return w
        if self.nonneg():
            return floor_of(self.t, self.lo, self.hi)
        return -floor_of(-self.t, -self.hi, -self.lo)
    __trunc__ = __int__

    def __float__(self):
        return self.as_float()


class RInt(Base):
    """an integer"""
    __slots__ = ()
    __class__ = property(lambda s: int)

    def real(self):
        return z3.ToReal(self.t)

    def times(self, x, c):
        k, t = x.f or (1, x.t)
        self.f = (k * c, t)
        return self

    def over(self, c):
        """the quotient, if known to be whole"""
        k, t = self.f or (1, self.t)
        n = Fr(k) / c
        if n.denominator != 1:
            return None
        ends = [self.lo / c, self.hi / c]
        return RInt(t * int(n) if n != 1 else t, min(ends), max(ends), None, (int(n), t))

    def as_float(self):
        if max(abs(self.lo), abs(self.hi)) >= BIG:
            return rounded(self.real(), self.lo, self.hi)
        return RFloat(self.real(), self.lo, self.hi, self)


class RFloat(Base):
    """a double"""
    __slots__ = ()
    __class__ = property(lambda s: float)

    def real(self):
        return self.t

    def as_float(self):
        return self

    def pattern(self):
        """a 64 bit term standing for the IEEE pattern of this number"""
        if self.b is None:
            self.b = E.fresh('pattern', z3.BitVecSort(64))
            V.FLOATS[self.b.get_id()] = self
            E.keep.append(self.b)
        return self.b


def rround(x):
    """Python 2 round: half away from zero"""
    w = whole(x)
    if w is not None:
        return w.as_float()
    if x.nonneg():
        return floor_of(x.t + rv(Fr(1, 2)), x.lo + Fr(1, 2), x.hi + Fr(1, 2)).as_float()
    return (-floor_of(-x.t + rv(Fr(1, 2)), -x.hi + Fr(1, 2), -x.lo + Fr(1, 2))).as_float()


def rfloor(x):
    w = whole(x)
    return w.as_float() if w is not None else floor_of(x.t, x.lo, x.hi).as_float()


def rceil(x):
    return -rfloor(-x)


def fresh_int(name, lo, hi):
    E.use_reals()
    v = z3.Int(name)
    E.assume(z3.And(v >= lo, v <= hi))
    return v, RInt(v, lo, hi)


# ---------------------------------------------------------------- a model of datetime over these numbers
US = 1000000
DAY = 86400 * US
MIN_US = -62135596800 * US
MAX_US = 253402300800 * US - 1
import datetime as _dt
_EPOCH = _dt.datetime(1970, 1, 1)


def num(x):
    """int constant, or real term"""
    return x if is_num(x) else int(x)


def us_of(x, k):
    """k*x microseconds, rounded to whole ones"""
    if isinstance(x, int):
        return x * k
    if is_num(x):
        w = whole(x)
        if w is not None:
            return w * k
        y = RFloat(x.real() * k, x.lo * k, x.hi * k)
        e = (abs(x.lo) + abs(x.hi)) * k / BIG + Fr(1, 1000)
        r = E.fresh('us', z3.IntSort())
        d = z3.ToReal(r) - y.t
        # rounding twice, as timedelta does
        E.assume(z3.And(d <= rv(Fr(1, 2) + e), d >= rv(-Fr(1, 2) - e)))
        return RInt(r, y.lo - 1, y.hi + 1)
    return round(x * k)


class timedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = 0
        for v, k in ((days, DAY), (seconds, US), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * US), (hours, 3600 * US),
                     (weeks, 7 * DAY)):
            if is_num(v) or v:
                t = t + us_of(v, k)
        self.us = t

    @classmethod
    def of(cls, us):
        r = cls()
        r.us = us
        return r

    days = property(lambda s: s.us // DAY)
    seconds = property(lambda s: s.us % DAY // US)
    microseconds = property(lambda s: s.us % US)

    def total_seconds(self):
        return self.us / 1e6 if is_num(self.us) else self.us / 10 ** 6

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta.of(self.us + o.us)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta.of(self.us - o.us)
        return NotImplemented

    def __neg__(self):
        return timedelta.of(-self.us)

    def __abs__(self):
        return timedelta.of(abs(self.us))

    def __mul__(self, k):
        return timedelta.of(self.us * k)
    __rmul__ = __mul__

    def _c(f):
        def c(self, o):
            if not isinstance(o, timedelta):
                return NotImplemented
            return f(self.us, o.us)
        return c
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)
    __eq__ = _c(lambda a, b: a == b)
    __ne__ = _c(lambda a, b: V.not_(a == b) if V.is_sym(a == b) else a != b)

    def __hash__(self):
        return 1

    def __bool__(self):
        import rt
        return rt.truth(self.us != 0)


class tuple9(object):
    """what timetuple and utctimetuple give to calendar.timegm; the fields are worked out when asked for"""
    NAMES = ['year', 'month', 'day', 'hour', 'minute', 'second', 'wday', 'yday', 'isdst']

    def __init__(self, us):
        self.us = us

    def field(self, n):
        d = datetime.of(self.us)
        if n < 6:
            return getattr(d, self.NAMES[n])
        if n == 6:
            return (self.us // DAY + 3) % 7
        if n == 7:
            y = month_of(self.us)[0]
            return self.us // DAY - (_dt.date(y, 1, 1) - _dt.date(1970, 1, 1)).days + 1
        return -1

    def __len__(self):
        return 9

    def __getitem__(self, k):
        if type(k) is slice:
            import rt
            return tuple(self.field(n) for n in range(9)[rt.conc_slice(k)])
        if not -9 <= k < 9:
            raise IndexError('tuple index out of range')
        return self.field(k % 9)

    def __iter__(self):
        return iter([self.field(n) for n in range(9)])


for _n, _k in enumerate(('year', 'mon', 'mday', 'hour', 'min', 'sec', 'wday', 'yday', 'isdst')):
    setattr(tuple9, 'tm_' + _k, property(lambda s, _n=_n: s.field(_n)))


def month_of(us):
    """-> year, month (branching on the month), first day of it from 1970"""
    import rt
    if not is_num(us):
        d = _EPOCH + _dt.timedelta(microseconds=us)
        return d.year, d.month, (_dt.date(d.year, d.month, 1) - _dt.date(1970, 1, 1)).days
    first, last = month_of(math.floor(us.lo)), month_of(math.ceil(us.hi))
    lo, hi = first[0] * 12 + first[1] - 1, last[0] * 12 + last[1] - 1
    start = lambda k: (_dt.date(k // 12, k % 12 + 1, 1) - _dt.date(1970, 1, 1)).days
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if rt.truth(us < start(mid) * DAY):
            hi = mid - 1
        else:
            lo = mid
    return lo // 12, lo % 12 + 1, start(lo)


def days_from(y, m, d):
    """days from 1970 of a date whose day may be symbolic"""
    if is_num(y) or is_num(m):
        raise Unsupported('symbolic year or month')
    if not is_num(d):
        return (_dt.date(y, m, d) - _dt.date(1970, 1, 1)).days
    import rt
    first = _dt.date(y, m, 1)
    n = (_dt.date(y + m // 12, m % 12 + 1, 1) - first).days
    if rt.truth(V.or_(d < 1, d > n)):
        raise ValueError('day is out of range for month')
    return d + ((first - _dt.date(1970, 1, 1)).days - 1)


def time_us(hh, mm, ss, us):
    import rt
    o = [getattr(v, 'origin', (None, None)) for v in (hh, mm, ss, us)]
    if o[0][0] is not None and [k[1] for k in o] == ['hh', 'mm', 'ss', 'us'] and all(k[0] is o[0][0] for k in o):
        # the parts of one instant put together again
        return o[0][0] % DAY
    for v, n, what in ((hh, 23, 'hour'), (mm, 59, 'minute'), (ss, 59, 'second'), (us, 999999, 'microsecond')):
        if rt.truth(V.or_(v < 0, v > n) if is_num(v) else not 0 <= v <= n):
            raise ValueError('%s must be in 0..%d' % (what, n))
    return hh * (3600 * US) + mm * (60 * US) + ss * US + us


class date(object):
    def __new__(cls, y, m, d):
        r = object.__new__(cls)
        r.us = days_from(y, m, d) * DAY
        return r

    def __init__(self, *a, **k):
        pass

    @classmethod
    def of(cls, us):
        r = object.__new__(cls)
        r.us = us
        return r

    @classmethod
    def fromordinal(cls, n):
        return cls.of((n - 719163) * DAY)

    def _delta(self, o, sign):
        n = sign * o.days
        return date.of(self.us + n * DAY)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._delta(o, 1)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            # days of the negated duration, as date.__sub__ takes them
            return date.of(self.us - o.days * DAY)
        if isinstance(o, date):
            return timedelta.of(self.us - o.us)
        return NotImplemented

    def _c(f):
        def c(self, o):
            if not isinstance(o, date) or isinstance(o, datetime) != isinstance(self, datetime):
                return NotImplemented
            return f(self.us, o.us)
        return c
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)
    __eq__ = _c(lambda a, b: a == b)
    __ne__ = _c(lambda a, b: V.not_(a == b) if V.is_sym(a == b) else a != b)

    def __hash__(self):
        return 2

    def timetuple(self):
        return tuple9(self.us)

    utctimetuple = timetuple

    def toordinal(self):
        return self.us // DAY + 719163

    def weekday(self):
        return (self.us // DAY + 3) % 7

    def isoweekday(self):
        return (self.us // DAY + 3) % 7 + 1

    year = property(lambda s: month_of(s.us)[0])
    month = property(lambda s: month_of(s.us)[1])
    day = property(lambda s: s.us // DAY - month_of(s.us)[2] + 1)


class datetime(date):
    def __new__(cls, y, m, d, hh=0, mm=0, ss=0, us=0, tzinfo=None, hour=None, minute=None, second=None, microsecond=None):
        hh, mm, ss, us = (b if b is not None else a for a, b in ((hh, hour), (mm, minute), (ss, second), (us, microsecond)))
        r = object.__new__(cls)
        r.us = days_from(y, m, d) * DAY + time_us(hh, mm, ss, us)
        r.tz = tzinfo
        return r

    @classmethod
    def of(cls, us, tz=None):
        r = object.__new__(cls)
        r.us = us
        r.tz = tz
        return r

    @classmethod
    def combine(cls, d, t):
        return cls.of((d.us // DAY * DAY if isinstance(d, datetime) else d.us) + t.us)

    @classmethod
    def utcfromtimestamp(cls, t):
        if not is_num(t):
            return real_ts(t)
        f = view(t)
        w = whole(t)
        if w is not None:
            r = w * US
        else:
            fl = floor_of(f[0], f[1], f[2])
            frac = rounded(f[0] - z3.ToReal(fl.t), 0, 1)
            r = fl * US + whole(rround(frac * 1e6))
        import rt
        if rt.truth(V.or_(r < MIN_US, r > MAX_US)):
            raise ValueError('year must be in 1..9999')
        return cls.of(r)

    fromtimestamp = utcfromtimestamp

    @classmethod
    def utcnow(cls):
        return cls.of(1400000000 * US)
    now = utcnow
    tzinfo = property(lambda s: getattr(s, 'tz', None))

    def utcoffset(self):
        t = self.tzinfo
        if t is None:
            return None
        import rt
        return rt.call(rt.getattr_(t, 'utcoffset'), self)

    def utc(self):
        o = self.utcoffset()
        return self.us if o is None else self.us - o.us

    def replace(self, *a, **k):
        for n, v in zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'), a):
            k[n] = v
        us, tz = self.us, k.pop('tzinfo', self.tzinfo)
        for n, period, unit, top in (('microsecond', US, 1, 999999), ('second', 60 * US, US, 59), ('minute', 3600 * US, 60 * US, 59),
                                     ('hour', DAY, 3600 * US, 23)):
            if n in k:
                v = k.pop(n)
                if not is_num(v) and not 0 <= v <= top:
                    raise ValueError('%s must be in 0..%d' % (n, top))
                us = us + (v - us % period // unit) * unit
        if k:
            us = days_from(*[k.pop(n, None) if n in k else getattr(self, n) for n in ('year', 'month', 'day')]) * DAY + us % DAY
        if k:
            raise TypeError('replace: %s' % sorted(k))
        return datetime.of(us, tz)

    def _clock(name, period, unit):
        def get(self):
            r = self.us % period // unit
            if isinstance(r, Base):
                r.origin = (self.us, name)
            return r
        return property(get)
    microsecond = _clock('us', US, 1)
    second = _clock('ss', 60 * US, US)
    minute = _clock('mm', 3600 * US, 60 * US)
    hour = _clock('hh', DAY, 3600 * US)

    def utctimetuple(self):
        return tuple9(self.utc())

    def date(self):
        return date.of(self.us // DAY * DAY)

    def time(self):
        return time.of(self.us % DAY)

    def _delta(self, o, sign):
        r = self.us + o.us if sign > 0 else self.us - o.us
        import rt
        if rt.truth(V.or_(r < MIN_US, r > MAX_US)):
            raise OverflowError('date value out of range')
        return datetime.of(r, self.tzinfo)

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self._delta(o, -1)
        if isinstance(o, datetime):
            return timedelta.of(self.utc() - o.utc())
        return NotImplemented


class time(object):
    def __init__(self, hour=0, minute=0, second=0, microsecond=0):
        self.us = time_us(hour, minute, second, microsecond)

    @classmethod
    def of(cls, us):
        r = cls()
        r.us = us
        return r

    microsecond = datetime.microsecond
    second = datetime.second
    minute = datetime.minute
    hour = datetime.hour

    def _c(f):
        def c(self, o):
            if not isinstance(o, time):
                return NotImplemented
            return f(self.us, o.us)
        return c
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)
    __eq__ = _c(lambda a, b: a == b)
    __ne__ = _c(lambda a, b: V.not_(a == b) if V.is_sym(a == b) else a != b)

    def __hash__(self):
        return 3

    def __bool__(self):
        # midnight is false, as in Python 2
        import rt
        return rt.truth(self.us != 0)


class tzinfo(object):
    def __init__(self, *a):
        pass


def real_ts(t):
    t = float(t)
    fl = math.floor(t)
    us = math.floor((t - fl) * 1e6 + 0.5)
    r = int(fl) * US + int(us)
    if not MIN_US <= r <= MAX_US:
        raise ValueError('year must be in 1..9999')
    return datetime.of(r)


def timegm(t):
    if not isinstance(t, tuple9):
        y, m, d, hh, mm, ss = [t[i] for i in range(6)]
        return (days_from(y, m, 1) + d - 1) * 86400 + hh * 3600 + mm * 60 + ss
    return t.us // US


for _c in (timedelta, date, datetime, time, tzinfo):
    _c.__module__ = 'datetime'


def datetime_module(w):
    import stubs
    return stubs.mod('datetime', datetime=datetime, date=date, time=time, timedelta=timedelta, tzinfo=tzinfo, MINYEAR=1, MAXYEAR=9999)


def calendar_module(w):
    import stubs
    return stubs.mod('calendar', timegm=timegm)


MODELS = {'datetime': datetime_module, 'calendar': calendar_module}
