# C04: AMF0 round trip
import pyamf
from pyamf import amf0, util
import hx
from hx import roundtrip, scalar, equal

BOUNDS = ('numbers: every double and every integer up to 2^53; strings: every text of up to 3 code points, and texts of '
          '65533..65537 bytes; containers: up to 3 elements per level, two levels (lists, tuples, dicts, mixed arrays, typed '
          'and untyped objects); keys: every text of up to 2 code points and integers in [-300, 300]')
ASSUMPTIONS = ['integers beyond 2^53 are outside the claim: an AMF number is a double',
               'keys of a mixed array that are texts do not read as an integer (such keys are integers on the wire)',
               'byte strings hold valid UTF-8 (AMF0 strings are text)']
A0 = 0
SCALARS = ['none', 'undef', 'bool', 'int', 'float', 'uni0', 'uni1', 'uni2', 'uni3', 'str0', 'str2', 'str3']
SMALL = ['none', 'undef', 'bool', 'small', 'float', 'uni0', 'asc1', 'str1']
LEAF = ['none', 'small', 'asc1', 'uni0']
PRELOAD = ['pyamf.amf3']


def t_scalar(s):
    """numbers, booleans, null, undefined and strings"""
    v = scalar(s, 'v', SCALARS)
    s.observe('data', roundtrip(s, v, A0))


def t_pair(s):
    """two values in one stream do not influence each other"""
    a = scalar(s, 'a', SMALL)
    b = scalar(s, 'b', SMALL)
    e = pyamf.get_encoder(A0)
    e.writeElement(a)
    k = e.stream.tell()
    e.writeElement(b)
    d = pyamf.get_decoder(A0, e.stream.getvalue())
    x = d.readElement()
    s.check(equal(s, a, x), 'first value differs')
    s.check(d.stream.tell() == k, 'first value: bytes consumed')
    y = d.readElement()
    s.check(equal(s, b, y), 'second value differs')
    s.check(d.stream.at_eof(), 'bytes left')


def t_long_string(s):
    """texts around the 16 bit length boundary"""
    n = s.choice('n', [0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001])
    kind = s.choice('kind', ['str', 'uni'])
    c = s.uni('c', 1)
    v = u'a' * (n - len(c.encode('utf-8'))) + c
    if kind == 'str':
        v = v.encode('utf-8')
    data = roundtrip(s, v, A0)
    s.check(len(data) == n + (n > 0xffff and 5 or 3), 'encoded length')


def t_long_bytes_count(s):
    """the length that counts is that of the UTF-8 form"""
    n = s.choice('n', [0x7fff, 0x8000, 0x5555, 0x5556])
    c = s.choice('c', [u'\xe9', u'\u20ac'])
    roundtrip(s, c * n, A0)


def t_list(s):
    """lists and tuples of scalars and of lists"""
    n = s.choice('n', 4)
    v = []
    for i in range(n):
        kinds = LEAF
        if i == 0:
            kinds = SMALL + ['list0', 'dict0']
        v.append(scalar(s, 'e%d' % i, kinds))
    form = s.choice('form', ['list', 'tuple', 'nested', 'nested_tuple'])
    if form == 'tuple':
        v = tuple(v)
    elif form == 'nested':
        v = [v, scalar(s, 'x', LEAF), list(v)]
    elif form == 'nested_tuple':
        v = (tuple(v), [tuple(v)])
    s.observe('data', roundtrip(s, v, A0))


def key(s, name, ints):
    k = s.choice(name + '.kind', ints and ['asc1', 'uni2', 'empty', 'str', 'int'] or ['asc1', 'uni2', 'empty', 'str'])
    if k == 'asc1':
        return s.uni(name, 1, 127)
    if k == 'uni2':
        return s.uni(name, 2)
    if k == 'empty':
        return u''
    if k == 'str':
        return s.uni(name, 1).encode('utf-8')
    return s.int(name, -300, 300)


def distinct_keys(s, keys):
    for i in range(len(keys)):
        for j in range(i):
            s.assume(hx.key_bytes(s, keys[i]) != hx.key_bytes(s, keys[j]))


def t_dict(s):
    """dictionaries"""
    n = s.choice('n', 3)
    if n == 2:
        ks = [s.choice('k%d.int' % i, 2) and s.int('k%d' % i, -12, 120) or s.uni('k%d' % i, 2 - i, 127) for i in range(n)]
    else:
        ks = [key(s, 'k%d' % i, True) for i in range(n)]
    keys = ks
    distinct_keys(s, keys)
    v = {}
    for i in range(n):
        v[keys[i]] = scalar(s, 'v%d' % i, n == 1 and SMALL or ['small', 'asc1'])
    s.observe('data', len(roundtrip(s, v, A0)))


def t_nested_dict(s):
    """dictionaries and lists inside each other"""
    a = scalar(s, 'a', LEAF)
    b = scalar(s, 'b', LEAF)
    k = s.uni('k', 1, 127)
    shape = s.choice('shape', 6)
    if shape == 0:
        v = {k: {k: a}, u'zz': b}
    elif shape == 1:
        v = {k: [a, b], u'zz': [{k: a}]}
    elif shape == 2:
        v = [{k: a}, {k: b}, {}]
    elif shape == 3:
        v = {k: pyamf.MixedArray({1: a, u'kk': b}), u'zz': []}
    elif shape == 4:
        v = pyamf.ASObject({k: a, u'zz': pyamf.ASObject({k: b})})
    else:
        v = (({k: a},), [b])
    roundtrip(s, v, A0)


def notint(s, k):
    """the text does not read as an integer"""
    try:
        int(k.encode('utf-8'))
    except ValueError:
        return
    s.stop()


def t_mixed(s):
    """mixed arrays keep their integer and text keys"""
    n = s.choice('n', 3)
    v = pyamf.MixedArray()
    for i in range(n):
        kind = s.choice('i%d' % i, i == 0 and ['int', 'uni', 'long'] or ['int', 'uni'])
        if kind == 'int':
            k = s.int('k%d' % i, -12, 1200)
        elif kind == 'long':
            k = s.choice('k%d' % i, [3L, 2 ** 31, -2 ** 31 - 1, 2 ** 40, 10 ** 17])
        else:
            k = s.uni('k%d' % i, 1)
            notint(s, k)
        v[k] = scalar(s, 'v%d' % i, i == 0 and LEAF or ['small'])
    s.observe('data', len(roundtrip(s, v, A0)))


def t_object(s):
    """instances of registered and unregistered classes"""
    kind = s.choice('kind', ['typed', 'anon', 'dotted', 'uni'])
    al = {'typed': 'T', 'dotted': 'org.pyamf.Thing', 'uni': u'\xe9.T', 'anon': None}[kind]
    if al is not None:
        pyamf.register_class(hx.Thing, al)
    try:
        o = hx.Thing()
        n = s.choice('n', 3)
        names = ['x', 'y_1', 'longer']
        for i in range(n):
            setattr(o, names[i], scalar(s, 'v%d' % i, i == 0 and SMALL or LEAF))
        if s.choice('inner', 2):
            o.inner = hx.Thing()
            o.inner.x = scalar(s, 'w', LEAF)
        data = hx.encode(o, A0)
        r = hx.decode_one(s, data, A0)
        if kind == 'anon':
            s.check(type(r) is pyamf.ASObject, 'type of an anonymous object')
            if 'inner' in r:
                s.check(r['inner'] == o.inner.__dict__, 'inner object differs')
                del r['inner']
                del o.inner
            s.check(hx.same_items(s, o.__dict__, r), 'attributes differ')
        else:
            s.check(equal(s, o, r), 'object differs')
    finally:
        if al is not None:
            pyamf.unregister_class(hx.Thing)


def t_typed_unknown(s):
    """an object of a class unknown here is decoded with its class name and its attributes"""
    a = s.uni('alias', 2)
    s.assume(s.And(a[0] != u'.', a[1] != u'.'))
    b = a.encode('utf-8')
    v = scalar(s, 'v', LEAF)
    w = scalar(s, 'w', ['small'])
    e = pyamf.get_encoder(A0)
    e.stream.write('\x10')
    e.stream.write_ushort(len(b))
    e.stream.write(b)
    for k, x in (('x', v), ('yy', w)):
        e.stream.write_ushort(len(k))
        e.stream.write(k)
        e.writeElement(x)
    e.stream.write('\0\0\x09')
    r = hx.decode_one(s, e.stream.getvalue(), A0)
    s.check(type(r) is pyamf.TypedObject, 'type')
    s.check(s.same(r.alias, a), 'class name')
    s.check(s.And(len(r) == 2, equal(s, v, r['x']), equal(s, w, r['yy'])), 'attributes')


def t_static(s):
    """static attributes"""
    pyamf.register_class(hx.Thing, 'T')
    pyamf.unregister_class(hx.Thing)
    alias = pyamf.ClassAlias(hx.Thing, 'T', static_attrs=['b', 'a'])
    pyamf.CLASS_CACHE[hx.Thing] = alias
    pyamf.CLASS_CACHE['T'] = alias
    try:
        o = hx.Thing()
        o.a = scalar(s, 'a', LEAF)
        o.b = scalar(s, 'b', SMALL)
        if s.choice('more', 2):
            o.c = scalar(s, 'c', LEAF)
        roundtrip(s, o, A0)
    finally:
        pyamf.unregister_class(hx.Thing)


def t_refused(s):
    """what AMF0 cannot carry is refused"""
    import types
    v = s.choice('v', [len, lambda x: x, hx.Thing, types, hx.Old, {1.5: 1}, {None: 1}, {(1, 2): 1}, {u'a' * 0x10000: 1},
                       {'a' * 0x10001: 1}, [len], {u'a': len}])
    try:
        data = hx.encode(v, A0)
    except (pyamf.EncodeError, TypeError, OverflowError, AttributeError):
        return
    s.observe('data', data)
    s.fail('encoded')


def t_long_key(s):
    """keys and class names up to the longest"""
    n = s.choice('n', [0xfffe, 0xffff])
    c = s.uni('c', 1)
    k = u'a' * (n - len(c.encode('utf-8'))) + c
    roundtrip(s, {k: 1}, A0)


def t_iterables(s):
    """generators are written element by element"""
    a = scalar(s, 'a', LEAF)
    b = scalar(s, 'b', LEAF)

    def g():
        yield a
        yield b
    data = hx.encode(g(), A0)
    r = hx.decode_all(data, A0)
    s.check(equal(s, [a, b], r), 'differs')
