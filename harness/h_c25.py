# C25: a value is encoded as what it is, or refused with EncodeError
import datetime
import types
import pyamf
from pyamf import util
from pyamf.adapters import util as adapters_util
import hx

BOUNDS = ('subclasses of int, long, float, str, unicode, date and datetime with any value (integers of 66 bits, text of up to 2 characters, any '
          'day of 99 years), alone or as item, key or attribute; integers beyond the range of floats by any amount of 16 bits (quick: 3 values); mixed arrays '
          'with integer keys around the limits of 28, 31, 32 and 63 bits; 16 kinds of value AMF has no form for at any of 8 places, generators of up to 3 values; '
          'AMF0, AMF3 and AMF3 within AMF0')
ASSUMPTIONS = ['the stream of an encoder that refused a value is not used further',
               'keys of mixed arrays that are neither text nor integers may be refused with ValueError (documented)',
               'byte strings are taken to be UTF-8']
MODELS = ['datetime', 'calendar']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3']


class Int(int):
    pass


class Long(long):
    pass


class Flt(float):
    pass


class Str(str):
    pass


class Uni(unicode):
    pass


class Deep(Uni):
    pass


class Date(datetime.date):
    pass


class Stamp(datetime.datetime):
    pass


class Time(datetime.time):
    pass


class Meta(type):
    pass


class Klass(object):
    __metaclass__ = Meta

    def method(self):
        pass


def encs(s):
    return s.choice('enc', [(0, False), (3, False), (0, True)])


def encode(v, enc):
    e = pyamf.get_encoder(enc[0], use_amf3=enc[1]) if enc[1] else pyamf.get_encoder(enc[0])
    e.writeElement(v)
    return e.stream.getvalue()


def place(s, v, names):
    w = s.choice('place', names)
    o = hx.Other()
    if w == 'item':
        return [1, v, 2]
    if w == 'first':
        return (v,)
    if w == 'attribute':
        o.a = v
        return o
    if w == 'typed':
        o = hx.Thing()
        o.a = v
        return o
    if w == 'value':
        return {'k': v}
    if w == 'mixed':
        m = pyamf.MixedArray()
        m[0] = 1
        m['x'] = v
        return m
    if w == 'deep':
        o.a = [{'k': [v]}]
        return o
    return v


PLACES = ['alone', 'item', 'first', 'attribute', 'typed', 'value', 'mixed', 'deep']


def t_numbers(s):
    """instances of subclasses of numbers are sent like the number"""
    kind = s.choice('kind', ['int', 'long', 'float'])
    if kind == 'int':
        x = s.int('x', -2 ** 31, 2 ** 31 - 1)
        v = Int(x)
    elif kind == 'long':
        x = s.int('x', -2 ** 65, 2 ** 65)
        v = Long(x)
    else:
        x = s.float('x')
        v = Flt(x)
    enc = encs(s)
    w = s.choice('place', ['alone', 'item', 'attribute', 'value'])
    if w == 'item':
        v, x = [v, 7, v], [x, 7, x]
    elif w == 'attribute':
        o, q = hx.Other(), hx.Other()
        o.a, q.a = v, x
        v, x = o, q
    elif w == 'value':
        v, x = {'k': v}, {'k': x}
    s.check(s.same(encode(x, enc), encode(v, enc)), 'not like the number')


def t_text(s):
    """instances of subclasses of strings are sent like the string, also as keys"""
    cls = s.choice('class', [Uni, Deep, Str])
    x = s.uni_upto('x', 2, 0x10ffff, 1)
    if cls is Str:
        x = x.encode('utf-8')
    enc = encs(s)
    w = s.choice('place', ['alone', 'item', 'attribute', 'key', 'both'])
    v = cls(x)
    if w == 'item':
        v, x = [v, x, v, 5], [x, x, x, 5]
    elif w == 'attribute':
        o, q = hx.Other(), hx.Other()
        o.a, q.a = v, x
        v, x = o, q
    elif w == 'key':
        v, x = {v: 1}, {x: 1}
    elif w == 'both':
        v, x = {v: v}, {x: x}
    s.check(s.same(encode(x, enc), encode(v, enc)), 'not like the string')


def t_dates(s):
    """instances of subclasses of dates are sent like the date"""
    x = s.day('t', 0, 365 * 99)
    want = datetime.datetime.combine(x, datetime.time())
    v = Date.fromordinal(x.toordinal())
    if s.bool('stamp'):
        time = datetime.time(13, 14, 15)
        want = datetime.datetime.combine(x, time)
        v = Stamp.combine(x, time)
    enc = encs(s)
    w = s.choice('place', ['alone', 'item', 'attribute'])
    if w == 'item':
        v = [v]
    elif w == 'attribute':
        v = {'k': v}
    b = hx.decode_one(s, encode(v, enc), enc[0])
    if w == 'item':
        b = b[0]
    elif w == 'attribute':
        b = b['k']
    s.check(type(b) is datetime.datetime, 'type')
    tol = datetime.timedelta(0, 0, 1000)
    s.check(s.And(b - want <= tol, want - b <= tol), 'not like the date')


def unencodable(k):
    return {'module': lambda: types, 'class': lambda: Klass, 'oldclass': lambda: hx.Old, 'type': lambda: int, 'function': lambda: encs,
            'lambda': lambda: lambda: 1, 'method': lambda: Klass().method, 'unbound': lambda: Klass.method, 'builtin': lambda: len,
            'object': lambda: object(), 'set': lambda: set([1]), 'frozenset': lambda: frozenset(), 'iterator': lambda: iter([1]),
            'time': lambda: datetime.time(1, 2, 3), 'timesub': lambda: Time(1, 2, 3), 'huge': lambda: 10 ** 400, 'key': lambda: {(1, 2): 1}, 'none': lambda: {None: 1},
            'float': lambda: {1.5: 1}, 'generator': lambda: (x for x in [1, 2])}[k]()


KINDS = ['module', 'class', 'oldclass', 'type', 'function', 'lambda', 'method', 'unbound', 'builtin', 'object', 'set', 'frozenset', 'iterator',
         'time', 'timesub', 'huge', 'key', 'none', 'float', 'generator']


def t_refused(s):
    """what AMF has no form for is refused wherever it stands, and what is encoded afterwards is not affected"""
    k = s.choice('kind', KINDS)
    names = PLACES
    if k == 'generator':
        names = PLACES[1:]
    enc = encs(s)
    n = s.int('n', 1000000, 1001000)
    pyamf.register_class(hx.Thing, 'x.Thing')
    v = place(s, unencodable(k), names)
    try:
        encode(v, enc)
    except pyamf.EncodeError:
        pass
    else:
        s.fail('not refused')
    o = hx.Other()
    o.a, o.b = n, u'b'
    t = hx.Thing()
    t.a = n
    m = pyamf.MixedArray()
    m[0], m['x'] = n, 1
    good = [o, t, m, {'k': [n]}, u'b']
    got = hx.decode_one(s, encode(good, enc), 0 if enc[0] == 0 else 3)
    s.check(hx.equal(s, [{'a': n, 'b': u'b'}, t, m, {'k': [n]}, u'b'], got), 'value encoded afterwards differs')


def t_mixed_keys(s):
    """mixed arrays refuse keys that are neither integers nor text"""
    k = s.choice('key', [None, 1.5, (1, 2), hx.Old])
    m = pyamf.MixedArray()
    m[k] = 1
    if s.bool('other'):
        m['a'] = s.int('n', 1000000, 1001000)
    enc = encs(s)
    try:
        encode(m, enc)
    except (pyamf.EncodeError, ValueError):
        s.check(True, '')
    else:
        s.fail('not refused')


def t_mixed_large(s):
    """mixed arrays with any integers as keys"""
    m = pyamf.MixedArray()
    a = s.choice('base', [-2 ** 40, -2 ** 31 - 2, -2, 2 ** 28 - 2, 2 ** 31 - 2, 2 ** 32 - 2, 10 ** 11, 2 ** 63 - 2]) + s.int('a', 0, 3)
    m[a] = 1
    if s.bool('two'):
        m[u'x'] = 2
    enc = s.choice('enc', [0, 3])
    got = hx.decode_one(s, hx.encode(m, enc), enc)
    s.check(len(got) == len(m), 'items')
    if enc == 0:
        s.check(type(got) is pyamf.MixedArray, 'type')
        keys = [k for k in got if not s.is_(k, str)]
        s.check(len(keys) == 1 and keys[0] == a, 'key')
        s.check(got[keys[0]] == 1, 'value')
    if u'x' in m:
        s.check(got['x'] == 2, 'text key')


def t_huge(s):
    """integers with no float near them are refused"""
    e = s.choice('exp', [s.quick and 1022 or 1015, 5000])
    n = s.int('n', s.quick and 3 or 1, s.quick and 5 or 65535)
    x = n * 2 ** e
    if not s.quick and s.bool('neg'):
        x = -x
    enc = encs(s)
    fits = n * 2 ** e < 2 ** 1024
    try:
        data = encode(x, enc)
    except pyamf.EncodeError:
        s.check(s.Not(fits), 'refused')
    else:
        s.check(fits, 'not refused')
        got = hx.decode_one(s, data, enc[0])
        s.check(got == x, 'value differs')


def t_generator(s):
    """the values of a generator are written one after the other"""
    n = s.choice('n', 4)
    vals = []
    for i in range(n):
        if i == 1:
            vals.append([s.int('x%d' % i, 1000000, 1001000)])
        else:
            vals.append(s.int('x%d' % i, 1000000, 1001000))
    enc = encs(s)
    nested = s.bool('nested')

    def gen(l):
        for x in l:
            yield x
    v = gen(vals)
    if nested:
        v = gen([gen(vals[:1]), gen(vals[1:])])
    got = hx.decode_all(encode(v, enc), enc[0])
    s.check(len(got) == n, 'values written')
    for i in range(n):
        s.check(hx.equal(s, vals[i], got[i]), 'value %d differs' % i)


def t_generator_error(s):
    """what a generator or one of its values raises comes out, nothing is left out silently"""
    class Odd(Exception):
        pass
    kind = s.choice('raises', [Odd, StopIteration])
    lim = s.int('lim', 0, 3)

    class Bad(object):
        @property
        def a(self):
            raise kind
    seen = []

    def gen():
        for i in range(3):
            if lim == i:
                seen.append(i)
                yield Bad()
            yield i
    enc = encs(s)
    e = pyamf.get_encoder(enc[0])
    try:
        e.writeElement(gen())
    except kind:
        s.check(len(seen) == 1, 'raised without reason')
    else:
        s.check(not seen, 'error lost')
        s.check(hx.equal(s, [0, 1, 2], hx.decode_all(e.stream.getvalue(), enc[0])), 'values differ')


def t_long_keys(s):
    """keys and names AMF0 has no room for are refused, texts are not"""
    n = s.int('n', 65530, 65540)
    n = s.concrete(n)
    what = s.choice('what', ['key', 'attribute', 'mixed', 'text', 'bytes'])
    t = 'k' * n
    v = {t: 1}
    if what == 'attribute':
        v = hx.Other()
        setattr(v, t, 1)
    elif what == 'mixed':
        v = pyamf.MixedArray()
        v[t] = 1
    elif what == 'text':
        v = unicode(t)
    elif what == 'bytes':
        v = t
    try:
        data = hx.encode(v, 0)
    except pyamf.EncodeError:
        s.check(n > 65535 and what in ('key', 'attribute', 'mixed'), 'refused')
        return
    s.check(n <= 65535 or what in ('text', 'bytes'), 'not refused')
    got = hx.decode_one(s, data, 0)
    if what in ('text', 'bytes'):
        s.check(len(got) == n, 'length')
    else:
        s.check(len(got.keys()[0]) == n, 'length')
