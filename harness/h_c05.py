# C05: AMF3 round trip
import pyamf
from pyamf import amf3, util, xml
import hx
from hx import roundtrip, scalar, equal
import h_c04
from h_c04 import notint, distinct_keys

BOUNDS = ('numbers: every double and every integer up to 2^53; strings: every text of up to 3 code points, and texts around '
          'the length boundaries 64, 8192 and 2^20; containers: up to 3 elements per level, two levels (lists, tuples, '
          'dictionaries, mixed arrays, typed, static and untyped objects); keys: every text of up to 2 code points and '
          'integers in [-300, 300]; byte arrays: every content of up to 3 bytes; XML: four documents')
ASSUMPTIONS = ['integers beyond 2^53 are outside the claim: they travel as doubles',
               'integer keys other than a run from 0 are decimal text on the wire and come back as such; a mixed array with '
               'only a run of integer keys from 0 is an array on the wire and comes back as a list',
               'byte strings hold valid UTF-8 (AMF3 strings are text; byte arrays are for bytes)',
               'XML: parsing and serialising are the library\'s; four documents whose serialised form is known']
A3 = 3
SMALL = ['none', 'undef', 'bool', 'small', 'float', 'uni0', 'asc1', 'str1']
LEAF = ['none', 'mid', 'asc1', 'uni0']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree']
SCALARS = ['none', 'undef', 'bool', 'int', 'float', 'uni0', 'uni1', 'uni2', 'uni3', 'str0', 'str2', 'str3']


def t_scalar(s):
    """numbers, booleans, null, undefined and strings"""
    v = scalar(s, 'v', SCALARS)
    data = roundtrip(s, v, A3)
    if hx.is_num(s, v):
        big = s.is_(v, float) or s.Or(v < -2 ** 28, v > 2 ** 28 - 1)
        if s.is_(v, float):
            s.check(data[0] == '\x05', 'a float travels as a double')
        else:
            s.check(s.Or(s.And(big, data[0] == '\x05'), s.And(s.Not(big), data[0] == '\x04')), 'type byte of an integer')
    s.observe('data', data)


def t_pair(s):
    """two values in one stream do not influence each other"""
    a = scalar(s, 'a', SMALL)
    b = scalar(s, 'b', SMALL)
    e = pyamf.get_encoder(A3)
    e.writeElement(a)
    k = e.stream.tell()
    e.writeElement(b)
    d = pyamf.get_decoder(A3, e.stream.getvalue())
    x = d.readElement()
    s.check(equal(s, a, x), 'first value differs')
    s.check(d.stream.tell() == k, 'first value: bytes consumed')
    y = d.readElement()
    s.check(equal(s, b, y), 'second value differs')
    s.check(d.stream.at_eof(), 'bytes left')


def t_long_string(s):
    """texts around the length boundaries"""
    n = s.choice('n', [63, 64, 65, 8191, 8192, 8193, 1048575, 1048576])
    kind = s.choice('kind', ['str', 'uni', 'bytearray'])
    c = s.uni('c', 1)
    v = u'a' * (n - len(c.encode('utf-8'))) + c
    h = n < 64 and 1 or n < 8192 and 2 or n < 1048576 and 3 or 4
    if kind == 'bytearray':
        b = v.encode('utf-8')
        data = hx.encode(amf3.ByteArray(b), A3)
        r = hx.decode_one(s, data, A3)
        s.check(type(r) is amf3.ByteArray, 'type')
        s.check(s.same(r.getvalue(), b), 'content')
    else:
        if kind == 'str':
            v = v.encode('utf-8')
        data = roundtrip(s, v, A3)
    s.check(len(data) == n + 1 + h, 'encoded length')


def t_long_list(s):
    """lists around the length boundaries"""
    n = s.choice('n', s.quick and [63, 64] or [63, 64, 8191, 8192])
    a = scalar(s, 'a', ['mid'])
    v = [a] + [1] * (n - 2) + [a]
    roundtrip(s, v, A3)


def t_list(s):
    """lists and tuples of scalars and of lists"""
    n = s.choice('n', s.quick and 3 or 4)
    v = []
    for i in range(n):
        kinds = ['mid', 'asc1']
        if i == 0:
            kinds = SMALL + ['list0', 'dict0']
        v.append(scalar(s, 'e%d' % i, kinds))
    form = s.choice('form', ['list', 'tuple', 'nested', 'nested_tuple'])
    if form == 'tuple':
        v = tuple(v)
    elif form == 'nested':
        v = [v, scalar(s, 'x', ['mid', 'uni0']), list(v)]
    elif form == 'nested_tuple':
        v = (tuple(v), [tuple(v)])
    s.observe('data', roundtrip(s, v, A3))


def key(s, name):
    k = s.choice(name + '.kind', ['asc1', 'uni2', 'str', 'int'])
    if k == 'asc1':
        return s.uni(name, 1, 127)
    if k == 'uni2':
        return s.uni(name, 2)
    if k == 'str':
        return s.uni(name, 1).encode('utf-8')
    return s.int(name, -300, 300)


def t_dict(s):
    """dictionaries"""
    n = s.choice('n', 3)
    if n == 2:
        keys = [s.choice('k%d.int' % i, 2) and s.int('k%d' % i, -12, 120) or s.uni('k%d' % i, 2 - i, 127) for i in range(n)]
    else:
        keys = [key(s, 'k%d' % i) for i in range(n)]
    distinct_keys(s, keys)
    v = {}
    for i in range(n):
        v[keys[i]] = scalar(s, 'v%d' % i, n == 1 and SMALL or i == 0 and ['mid', 'asc1'] or ['mid'])
    s.observe('data', len(roundtrip(s, v, A3)))


def t_nested(s):
    """dictionaries, lists and mixed arrays inside each other"""
    a = scalar(s, 'a', LEAF)
    b = scalar(s, 'b', LEAF)
    k = s.uni('k', 1, 127)
    shape = s.choice('shape', 6)
    if shape == 0:
        v = {k: {k: a}, u'zz': b}
    elif shape == 1:
        v = {k: [a, b], u'zz': [{k: a}]}
    elif shape == 2:
        v = [{k: a}, {k: b}, {}]
    elif shape == 3:
        v = {k: pyamf.MixedArray({0: a, u'kk': b}), u'zz': []}
    elif shape == 4:
        v = pyamf.ASObject({k: a, u'zz': pyamf.ASObject({k: b})})
    else:
        v = (({k: a},), [b])
    roundtrip(s, v, A3)


def t_mixed(s):
    """mixed arrays: a run of integer keys from 0 by position, everything else by name"""
    n = s.choice('n', s.quick and 3 or 4)
    v = pyamf.MixedArray()
    ks = []
    for i in range(n):
        w = s.choice('i%d' % i, 3)
        if w == 0:
            k = i
        elif w == 1:
            k = s.int('k%d' % i, -12, 30)
        else:
            k = s.uni('k%d' % i, 1, 127)
        for j in ks:
            s.assume(hx.key_bytes(s, j) != hx.key_bytes(s, k))
        ks.append(k)
        v[k] = scalar(s, 'v%d' % i, i == 0 and ['mid', 'asc1'] or ['mid'])
    data = hx.encode(v, A3)
    r = hx.decode_one(s, data, A3)
    run = 0
    while run in v:
        run += 1
    if run == n:
        s.check(equal(s, [v[i] for i in range(n)], r), 'list differs')
        return
    s.check(type(r) is pyamf.MixedArray, 'type')
    s.check(len(r) == n, 'number of items')
    for k in ks:
        x = k
        if s.is_(k, int):
            if not (0 <= k and k < run):
                x = str(k)
        else:
            x = k.encode('utf-8')
        s.check(x in r, 'key lost')
        s.check(equal(s, v[k], r[x]), 'item differs')
    s.observe('data', len(data))


def t_object(s):
    """instances of registered and unregistered classes"""
    kind = s.choice('kind', ['typed', 'anon', 'dotted', 'uni', 'old'])
    al = {'typed': 'T', 'dotted': 'org.pyamf.Thing', 'uni': u'\xe9.T', 'anon': None, 'old': 'Old'}[kind]
    cls = kind == 'old' and hx.Old or hx.Thing
    if al is not None:
        pyamf.register_class(cls, al)
    try:
        o = cls()
        n = s.choice('n', kind in ('typed', 'anon') and 3 or 2)
        names = ['x', 'y_1', 'longer']
        for i in range(n):
            setattr(o, names[i], scalar(s, 'v%d' % i, i == 0 and SMALL or ['mid', 'asc1']))
        if n < 2 and s.choice('inner', 2):
            o.inner = cls()
            o.inner.x = scalar(s, 'w', LEAF)
        data = hx.encode(o, A3)
        r = hx.decode_one(s, data, A3)
        if kind == 'anon':
            s.check(type(r) is pyamf.ASObject, 'type of an anonymous object')
            if 'inner' in r:
                s.check(hx.same_items(s, o.inner.__dict__, r['inner']), 'inner object differs')
                del r['inner']
                del o.inner
            s.check(hx.same_items(s, o.__dict__, r), 'attributes differ')
        else:
            s.check(equal(s, o, r), 'object differs')
    finally:
        if al is not None:
            pyamf.unregister_class(cls)


def t_static(s):
    """static attributes, sealed and dynamic classes, several instances of one class"""
    dyn = s.choice('dynamic', [True, False])
    n = s.choice('statics', [1, 2, 9])
    names = ['a%d' % i for i in range(n)]
    alias = pyamf.ClassAlias(hx.Thing, 'T', static_attrs=list(reversed(names)), dynamic=dyn)
    pyamf.CLASS_CACHE[hx.Thing] = alias
    pyamf.CLASS_CACHE['T'] = alias
    try:
        v = []
        for j in range(2):
            o = hx.Thing()
            for i in range(n):
                setattr(o, names[i], i == 0 and scalar(s, 'v%d%d' % (i, j), ['asc1', 'mid']) or i)
            if dyn and s.choice('extra%d' % j, 2):
                o.extra = scalar(s, 'e%d' % j, ['mid'])
            v.append(o)
        roundtrip(s, v, A3)
    finally:
        pyamf.unregister_class(hx.Thing)


def t_typed_unknown(s):
    """an object of a class unknown here is decoded with its class name and its attributes"""
    a = s.uni('alias', s.quick and 1 or 2)
    s.assume(u'.' not in a)
    v = scalar(s, 'v', ['mid', 'asc1', 'none'])
    w = scalar(s, 'w', ['mid'])
    e = pyamf.get_encoder(A3)
    static = s.choice('static', 2)
    e.stream.write('\x0a')
    e._writeInteger(static << 4 | (s.choice('dynamic', 2) or not static) << 3 | 3)
    e.serialiseString(a)
    if static:
        e.serialiseString('x')
        e.writeElement(v)
    else:
        e.serialiseString('x')
        e.writeElement(v)
        e.serialiseString('yy')
        e.writeElement(w)
        e.stream.write('\x01')
    data = e.stream.getvalue()
    if static and data[1] == '\x1b':
        data += '\x01'
    r = hx.decode_one(s, data, A3)
    s.check(type(r) is pyamf.TypedObject, 'type')
    s.check(s.same(r.alias, a), 'class name')
    s.check(equal(s, v, r['x']), 'first attribute')
    if static:
        s.check(len(r) == 1, 'attributes')
    else:
        s.check(s.And(len(r) == 2, equal(s, w, r['yy'])), 'attributes')


def t_bytearray(s):
    """byte arrays carry any bytes, wherever the position was left"""
    b = s.bytes_upto('b', 3)
    ba = amf3.ByteArray()
    ba.write(b)
    if s.choice('seek', 2):
        ba.seek(0)
    zl = s.And(len(b) >= 2, b[:2] == '\x78\x9c')
    s.assume(s.Not(zl))
    data = hx.encode([ba, 1], A3)
    r = hx.decode_one(s, data, A3)
    s.check(type(r[0]) is amf3.ByteArray, 'type')
    s.check(s.same(r[0].getvalue(), b), 'content')
    s.check(r[1] == 1, 'next value')
    s.check(r[0].tell() == 0, 'position')


def t_bytearray_zlib(s):
    """byte arrays that are compressed, or only look as if they were"""
    import zlib
    kind = s.choice('kind', ['looks', 'zlib', 'compressed', 'constructed'])
    b = 'some content, some content'
    if kind == 'looks':
        c = s.choice('c', [b'\x78\x9c', b'\x78\x9cxyz', b'\x78\x9c\0\0\0\0\0\0'])
        ba = amf3.ByteArray()
        ba.write(c)
    elif kind == 'zlib':
        c = zlib.compress(b)
        ba = amf3.ByteArray()
        ba.write(c)
        if s.known('bytearray-zlib-content'):
            s.stop()
    else:
        c = b
        ba = amf3.ByteArray()
        ba.write(b)
        if kind == 'constructed':
            c = b'\x78\x9cxyz'
            ba = amf3.ByteArray(c)
        else:
            ba.compress()
        if s.known('bytearray-compress'):
            s.stop()
    r = hx.decode_one(s, hx.encode(ba, A3), A3)
    s.check(s.same(r.getvalue(), c), 'content')


def t_bytearray_inner(s):
    """objects written to a byte array are read back from it"""
    v = scalar(s, 'v', SMALL)
    w = [scalar(s, 'w', LEAF), u'shared']
    ba = amf3.ByteArray()
    ba.writeObject(v)
    ba.writeObject(w)
    ba.writeObject(w)
    ba.seek(0)
    s.check(equal(s, v, ba.readObject()), 'first')
    s.check(equal(s, w, ba.readObject()), 'second')
    s.check(equal(s, w, ba.readObject()), 'third')
    s.check(ba.at_eof(), 'left over')


DOCS = ['<a />', '<a>hello</a>', '<b x="1">&lt;&amp;</b>', '<a><b>c</b></a>']


def t_xml(s):
    """XML next to strings"""
    doc = s.choice('doc', DOCS)
    x = xml.fromstring(doc)
    other = s.choice('other', ['same text', 'none', 'string'])
    v = [x, u'after', u'after']
    if other == 'same text':
        v = [doc, x, u'q', xml.fromstring(doc), u'q']
    elif other == 'string':
        v = [scalar(s, 'a', ['asc1', 'mid']), u'q', x, u'q', {u'q': x, u'r': 1}]
    r = hx.decode_one(s, hx.encode(v, A3), A3)
    s.check(len(r) == len(v), 'length')
    for i in range(len(v)):
        if v[i] is x or type(v[i]) not in (str, unicode, int, list, dict) and not s.is_(v[i], (int, basestring)):
            s.check(xml.is_xml(r[i]), 'type of XML')
            s.check(xml.tostring(r[i]) == doc, 'XML differs')
        elif type(v[i]) is dict:
            s.check(xml.tostring(r[i]['q']) == doc, 'XML in a dictionary differs')
            s.check(r[i]['r'] == 1, 'value after XML differs')
        else:
            s.check(equal(s, v[i], r[i]), 'element differs')


def t_refused(s):
    """what AMF3 cannot carry is refused"""
    import types
    v = s.choice('v', [len, lambda x: x, hx.Thing, types, hx.Old, {1.5: 1}, {None: 1}, {(1, 2): 1}, {u'': 1}, {'': 1},
                       [len], {u'a': len}, pyamf.MixedArray({'': 1}), pyamf.MixedArray({(1, 2): 1}),
                       pyamf.MixedArray({1.5: 1}), pyamf.ASObject({u'': 2})])
    try:
        data = hx.encode(v, A3)
    except (pyamf.EncodeError, TypeError, OverflowError, AttributeError, ValueError):
        return
    s.observe('data', data)
    s.fail('encoded')


def t_iterables(s):
    """generators are written element by element"""
    a = scalar(s, 'a', LEAF)
    b = scalar(s, 'b', LEAF)

    def g():
        yield a
        yield b
    data = hx.encode(g(), A3)
    r = hx.decode_all(data, A3)
    s.check(equal(s, [a, b], r), 'differs')
