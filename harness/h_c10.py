# C10: decoding does not depend on how the bytes arrive
import datetime
import pyamf
from pyamf import amf3, util
import hx

BOUNDS = ('streams of up to 3 values out of a pool covering every type and kind of reference, leaves symbolic; every split in two '
          '(thorough: three) pieces and byte by byte; every arbitrary stream of up to 3 (thorough: 5) bytes with every split')
ASSUMPTIONS = ['the type of error for a stream that is not AMF is the same, not its text']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'pyamf.flex', 'defusedxml.ElementTree']


def setup():
    pyamf.register_class(hx.Thing, 'T')


def teardown():
    pyamf.unregister_class(hx.Thing)


def pool(s, enc):
    """values with everything that is remembered from one value to the next"""
    leaf = s.int('leaf', 1000, 1060)
    lst = [leaf, u'ab']
    lst.append(lst)
    thing = hx.Thing()
    thing.ab = u'ab'
    thing.lst = lst
    other = hx.Thing()
    other.ab = thing
    p = {'list': lst, 'thing': thing, 'other': other, 'dict': {u'ab': leaf}, 'str': u'ab', 'utf': u'\xe9\u20ac', 'num': 1.5, 'int': leaf, 'true': True, 'null': None,
         'mixed': pyamf.MixedArray({u'ab': 1, 0: u'ab'}), 'date': datetime.datetime(2010, 1, 2), 'empty': [[], u'', {}],
         'objects': [thing, thing, lst], 'undef': pyamf.Undefined}
    if enc == 3:
        p['bytes'] = amf3.ByteArray('xyz')
    return p


def feed(s, d, values, total):
    """decode what there is, then report"""
    while True:
        before = d.stream.tell()
        try:
            v = d.readElement()
        except (IOError, pyamf.EOStream):
            s.check(d.stream.tell() == before, 'position after incomplete data')
            return
        except (pyamf.DecodeError, pyamf.ReferenceError, UnicodeDecodeError) as e:
            values.append(type(e))
            return
        values.append(v)
        s.check(d.stream.tell() > before, 'no bytes consumed')


def same(s, a, b):
    if len(a) != len(b):
        return False
    pairs = []
    r = True
    for i in xrange(len(a)):
        if hx.is_container(a[i]):
            if not hx.iso(s, a[i], b[i], pairs):
                return False
        elif type(a[i]) is amf3.ByteArray:
            r = s.And(r, type(b[i]) is amf3.ByteArray and a[i].getvalue() == b[i].getvalue())
        elif type(a[i]) in (datetime.datetime, type) or s.is_(a[i], str):
            r = s.And(r, a[i] == b[i])
        else:
            r = s.And(r, hx.equal(s, a[i], b[i]))
    return r


def pieces(s, data, n):
    """cut in n pieces"""
    cuts = sorted([s.choice('cut%d' % i, len(data) + 1) for i in range(n - 1)])
    cuts = [0] + cuts + [len(data)]
    return [data[cuts[i]:cuts[i + 1]] for i in xrange(n)]


def run(s, data, enc, parts):
    whole = []
    feed(s, pyamf.get_decoder(enc, data), whole, len(data))
    d = pyamf.get_decoder(enc)
    got = []
    for p in parts:
        if got and isinstance(got[-1], type):
            break
        d.send(p)
        feed(s, d, got, len(data))
    s.check(same(s, whole, got), 'values differ')
    return whole


NAMES = ['thing', 'list', 'str', 'dict', 'objects', 'date', 'utf', 'mixed', 'empty', 'num', 'int']


def streams(s, enc):
    p = pool(s, enc)
    names = NAMES + (enc == 3 and ['bytes'] or [])
    first = s.choice('first', names)
    tail = s.choice('tail', [['thing', 'str'], ['objects', 'other'], ['list', 'mixed', 'dict']])
    v = [p[k] for k in [first] + tail]
    data = pyamf.encode(*v, encoding=enc).getvalue()
    return v, data


def split(s, enc):
    setup()
    try:
        v, data = streams(s, enc)
        whole = run(s, data, enc, pieces(s, data, s.quick and 2 or 3))
        s.check(len(whole) == len(v), 'number of values')
    finally:
        teardown()


def t_split_0(s):
    """AMF0 streams cut anywhere"""
    split(s, 0)


def t_split_3(s):
    """AMF3 streams cut anywhere"""
    split(s, 3)


def t_bytes(s):
    """one byte at a time"""
    enc = s.choice('enc', [0, 3])
    setup()
    try:
        v, data = streams(s, enc)
        whole = run(s, data, enc, [data[i:i + 1] for i in xrange(len(data))])
        s.check(len(whole) == len(v), 'number of values')
    finally:
        teardown()


def t_switch(s):
    """AMF3 values inside an AMF0 stream, cut anywhere"""
    setup()
    try:
        p = pool(s, 3)
        e = pyamf.get_encoder(0)
        inner = pyamf.get_encoder(3, stream=e.stream)
        names = [s.choice('first', ['thing', 'objects', 'list'])] + ['thing', 'str', 'objects']
        for k in names:
            e.stream.write('\x11')
            inner.writeElement(p[k])
        data = e.stream.getvalue()
        whole = run(s, data, 0, pieces(s, data, 2))
        s.check(len(whole) == len(names), 'number of values')
        a, b = whole[-1], whole[-3]
        s.check(a[0] is b and a[1] is b, 'identity')
    finally:
        teardown()


RAW0 = {'long': '\x0c\0\0\0\3%sbc', 'xml': '\x0f\0\0\0\4<a/>', 'typed': '\x10\0\2no\0\1k\5\0\0\x09', 'array': '\x0a\0\0\0\2\5\2\0\2%sa',
        'ref': '\x0a\0\0\0\2\3\0\0\x09\7\0\1', 'date': '\x0b' + '\0' * 10, 'amf3': '\x11\x09\3\1\6\7%sbc',
        'number': '\0\x3f\xf8' + '\0' * 6, 'object': '\3\0\2ab\2\0\1%s\0\0\x09'}
RAW3 = {'xml': '\x0b\x09<a/>', 'xmldoc': '\7\x09<a/>', 'bytes': '\x0c\7%sbc', 'int': '\4\xff\xff\xff\xff', 'str': '\6\7%sbc', 'static': '\x0a\x13\5no\3k\6\3%s',
        'dynamic': '\x0a\x0b\1\3k\6\3%s\1', 'collection': '\x0a\7\x43flex.messaging.io.ArrayCollection\x09\3\1\6\3%s',
        'proxy': '\x0a\7\x3bflex.messaging.io.ObjectProxy\x0a\x0b\1\3k\6\3%s\1', 'ref': '\x09\5\1\x09\1\1\x09\2', 'date': '\x08\1' + '\0' * 8,
        'mixed': '\x09\3\3k\6\3%s\1\4\x85\0'}


def t_switch_inside(s):
    """AMF3 values that share references, inside one AMF0 value, cut anywhere"""
    setup()
    try:
        p = pool(s, 3)
        e = pyamf.get_encoder(0)
        inner = pyamf.get_encoder(3, stream=e.stream)
        names = s.choice('names', [['thing', 'list'], ['list', 'thing'], ['str', 'list', 'str'], ['objects', 'thing']])
        if s.bool('before'):
            e.stream.write('\x11')
            inner.writeElement(s.choice('first', ['ab', [u'other']]))
        e.stream.write('\x0a\0\0\0' + chr(len(names)))
        for k in names:
            e.stream.write('\x11')
            inner.writeElement(p[k])
        data = e.stream.getvalue()
        whole = run(s, data, 0, pieces(s, data, 2))
        got = whole[-1]
        s.check(len(got) == len(names), 'number of values')
        for i in range(len(names)):
            if names[i] == 'list':
                s.check(got[i][2] is got[i] and got[i][1] == u'ab', 'list')
            elif names[i] == 'thing':
                s.check(got[i].ab == u'ab' and got[i].lst[2] is got[i].lst, 'object')
    finally:
        teardown()


def t_types(s):
    """every type on the wire, cut anywhere"""
    enc = s.choice('enc', [0, 3])
    s.stub('pyamf.xml', {'fromstring': lambda *a, **k: [u'xml']})
    table = enc == 3 and RAW3 or RAW0
    data = table[s.choice('type', sorted(table))]
    data = data.replace('%s', s.bytes('c', 1))
    data = data + (enc == 3 and '\6\7txt' or '\2\0\3txt')
    whole = run(s, data, enc, s.bool('single') and [data[i:i + 1] for i in xrange(len(data))] or pieces(s, data, 2))
    s.check(len(whole) == 2 or isinstance(whole[-1], type), 'number of values')


def t_any(s):
    """arbitrary bytes, cut anywhere"""
    enc = s.choice('enc', [0, 3])
    s.stub('pyamf.util', {'get_datetime': lambda secs: datetime.datetime(2000, 1, 1)})
    s.stub('pyamf.xml', {'fromstring': lambda *a, **k: [u'xml']})
    n = s.choice('n', s.quick and 4 or 6)
    data = s.bytes('data', n)
    run(s, data, enc, pieces(s, data, 2))


def t_next(s):
    """iterating a decoder gives the complete values and continues when more arrives"""
    enc = s.choice('enc', [0, 3])
    a = s.uni('a', s.choice('len', 3), 0x7ff)
    b = s.int('b', 1000, 1060)
    data = pyamf.encode(a, b, encoding=enc).getvalue()
    k = s.choice('cut', len(data) + 1)
    d = pyamf.get_decoder(enc)
    d.send(data[:k])
    got = []
    for i in range(2):
        try:
            for v in d:
                got.append(v)
        except IOError:
            pass
        if i == 0:
            d.send(data[k:])
    s.check(same(s, [a or '', b], got), 'values')


def t_context(s):
    """what an incomplete value registered is forgotten: tables are those of the complete values"""
    enc = s.choice('enc', [0, 3])
    setup()
    try:
        p = pool(s, enc)
        data = pyamf.encode(p['thing'], p['other'], encoding=enc).getvalue()
        k = s.choice('cut', len(data))
        d = pyamf.get_decoder(enc, data[:k])
        got = []
        feed(s, d, got, k)
        n = d.stream.tell()
        e = pyamf.get_decoder(enc, data[:n])
        ref = []
        feed(s, e, ref, n)
        s.check(len(ref) == len(got), 'values')
        s.check(len(d.context._objects) == len(e.context._objects), 'objects')
        if enc == 3:
            s.check(len(d.context.strings) == len(e.context.strings), 'strings')
            s.check(len(d.context.class_ref) == len(e.context.class_ref), 'classes')
    finally:
        teardown()
