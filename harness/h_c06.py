# C06: identity of shared and cyclic objects in AMF0
import datetime
import pyamf
from pyamf import amf0, amf3, util, xml
import hx
from hx import scalar, equal

BOUNDS = ('graphs of 2 containers (thorough: 3), of every kind, each slot (1 or 2 per container) holding a leaf or any '
          'container, itself included; sequences of up to 4 values out of a pool of shared objects, dates, XML, strings and '
          'objects that switch to AMF3; leaves: every integer in [-300, 300]')
ASSUMPTIONS = ['an object that occurs both inside and outside a value switched to AMF3 is outside the claim: the format has '
               'separate reference tables for the two',
               'XML occurring twice is decoded as two equal documents (the encoder writes it in full each time)']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree']
A0 = 0
KINDS = ['list', 'dict', 'mixed', 'aso', 'typed', 'anon']


def setup():
    pyamf.register_class(hx.Thing, 'T')


def teardown():
    pyamf.unregister_class(hx.Thing)


def t_graph(s):
    """two or three containers referring to each other and to themselves in every way"""
    setup()
    try:
        n = s.quick and 2 or 3
        objs = hx.graph(s, n, KINDS, [2, 1, 1], lambda i, j: s.int('leaf%d%d' % (i, j), -300, 300))
        v = [objs[0], objs[1], objs[0]]
        data = hx.encode(v, A0)
        r = hx.decode_one(s, data, A0)
        s.check(hx.iso(s, v, r, []), 'shape of the graph')
    finally:
        teardown()


def t_graph_stream(s):
    """the same with the containers written one after the other as values of one stream"""
    setup()
    try:
        objs = hx.graph(s, 2, s.quick and ['list', 'dict', 'typed'] or KINDS, [1, 2], lambda i, j: s.int('leaf%d%d' % (i, j), -300, 300))
        v = [objs[1], objs[0], objs[1]]
        data = pyamf.encode(*v, encoding=A0).getvalue()
        r = hx.decode_all(data, A0)
        s.check(len(r) == 3, 'number of values')
        s.check(hx.iso(s, v, r, []), 'shape of the graph')
    finally:
        teardown()


class A3(object):
    pass


def t_mix(s):
    """references stay right after any mix of values"""
    setup()
    pyamf.CLASS_CACHE[A3] = pyamf.CLASS_CACHE['A3'] = pyamf.ClassAlias(A3, 'A3', amf3=True)
    try:
        inner = A3()
        inner.x = s.int('ax', -300, 300)
        inner.y = [1]
        inner.z = inner.y
        lst = [s.int('l', -300, 300)]
        thing = hx.Thing()
        thing.x = u'q'
        pool = {
            'list': lst, 'thing': thing, 'dict': {u'a': 1}, 'tuple': (1, 2), 'amf3': inner,
            'date': datetime.datetime(2010, 1, 2, 3, 4, 5), 'xml': xml.fromstring('<a>b</a>'), 'str': u'text',
            'mixed': pyamf.MixedArray({u'a': 1, 2: 2}), 'none': None, 'amf3list': [inner],
        }
        names = ['list', 'thing', 'date', 'xml', 'amf3', 'tuple', 'mixed', 'amf3list', 'str', 'dict', 'none']
        n = s.quick and 2 or 3
        seq = [s.choice('i%d' % i, names) for i in range(n)]
        # whatever came before, what follows is still right
        v = [pool[k] for k in seq] + [lst, thing, lst, thing, inner]
        data = hx.encode(v, A0)
        r = hx.decode_one(s, data, A0)
        first = {}
        seq = seq + ['list', 'thing', 'list', 'thing', 'amf3']
        s.check(len(r) == len(seq), 'number of values')
        for i in range(len(seq)):
            k, a, b = seq[i], v[i], r[i]
            if k == 'xml':
                s.check(xml.tostring(b) == '<a>b</a>', 'XML')
            elif k == 'date':
                s.check(b == a, 'date')
            elif k in ('str', 'none'):
                s.check(equal(s, a, b), 'plain value')
            elif k == 'amf3list':
                s.check(type(b) is list and len(b) == 1 and type(b[0]) is A3, 'list around an AMF3 object')
                if 'amf3list' in first:
                    s.check(b is first['amf3list'], 'identity of a list around an AMF3 object')
                first['amf3list'] = b
            elif k == 'amf3':
                s.check(type(b) is A3, 'AMF3 object')
                s.check(b.x == inner.x, 'AMF3 attribute')
                s.check(b.y == [1], 'AMF3 list')
                s.check(b.z is b.y, 'identity inside AMF3')
                if k in first:
                    s.check(b is first[k], 'identity of AMF3 objects')
                first[k] = b
            else:
                if k in first:
                    s.check(b is first[k], 'identity lost')
                else:
                    for q in first:
                        s.check(b is not first[q], 'distinct objects merged')
                    s.check(equal(s, a, b), 'value differs')
                first[k] = b
    finally:
        teardown()
        pyamf.unregister_class(A3)


def t_equal_not_same(s):
    """equal but distinct objects stay distinct"""
    setup()
    try:
        a = s.int('a', -300, 300)
        kind = s.choice('kind', KINDS + ['tuple'])
        objs = []
        for i in range(3):
            if kind == 'tuple':
                o = tuple([a])
            else:
                o = hx.make(kind)
                hx.put(o, 'x', a)
            objs.append(o)
        v = [objs[0], objs[1], objs[0], objs[2], objs[1]]
        r = hx.decode_one(s, hx.encode(v, A0), A0)
        s.check(r[0] is r[2] and r[1] is r[4], 'same object')
        s.check(r[0] is not r[1] and r[0] is not r[3] and r[1] is not r[3], 'distinct objects')
        s.check(hx.iso(s, v, r, []), 'shape')
    finally:
        teardown()


def t_wire(s):
    """a second occurrence is written as a reference of three bytes"""
    setup()
    try:
        kind = s.choice('kind', KINDS)
        o = hx.make(kind)
        hx.put(o, 'x', s.int('a', -300, 300))
        e = pyamf.get_encoder(A0)
        e.writeElement([1])
        e.writeElement(o)
        k = e.stream.tell()
        e.writeElement(o)
        s.check(e.stream.getvalue()[k:] == '\x07\x00\x01', 'reference on the wire')
    finally:
        teardown()


def t_many(s):
    """more objects than a reference can number"""
    s.budget(20000000, 280)
    m = 65534
    fill = [[] for i in xrange(m)]
    a, b, c = [s.int('a', -9, 9)], [2], [3]
    e = pyamf.get_encoder(A0)
    e.writeElement(fill)
    for o in (a, b, c, a, b, c, a):
        e.writeElement(o)
    d = pyamf.get_decoder(A0, e.stream.getvalue())
    d.readElement()
    r = [d.readElement() for i in range(7)]
    s.check(d.stream.at_eof(), 'left over')
    s.check(r[0] == a and r[3] == a and r[6] == a, 'first object')
    s.check(r[1] == b and r[2] == c and r[4] == b and r[5] == c, 'other objects')
    s.check(r[0] is r[3], 'identity of the last object that can be numbered')
