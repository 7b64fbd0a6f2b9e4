# C07: AMF3 object, string and class reference tables
import datetime
import pyamf
from pyamf import amf3, util, xml
import hx
from hx import scalar, equal

BOUNDS = ('graphs of 2 containers (thorough: 3), of every kind, each slot (1 or 2 per container) holding a leaf or any '
          'container, itself included; 3 strings of up to 2 code points each, equal or not, in 4 places each; sequences of up '
          'to 3 values out of a pool of shared objects of every kind')
ASSUMPTIONS = ['XML: parsing and serialising are the library\'s']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree']
A3 = 3
KINDS = ['list', 'dict', 'mixed', 'aso', 'typed', 'anon']


def setup():
    pyamf.register_class(hx.Thing, 'T')


def teardown():
    pyamf.unregister_class(hx.Thing)


def name_mixed(objs):
    """a mixed array without a text key would be a list on the wire"""
    for o in objs:
        if type(o) is pyamf.MixedArray:
            o['k'] = 0


def t_graph(s):
    """two or three containers referring to each other and to themselves in every way"""
    setup()
    try:
        n = s.quick and 2 or 3
        objs = hx.graph(s, n, KINDS, [2, 1, 1], lambda i, j: s.int('leaf%d%d' % (i, j), s.quick and 1000 or -300, s.quick and 1060 or 300))
        name_mixed(objs)
        v = [objs[0], objs[1], objs[0]]
        r = hx.decode_one(s, hx.encode(v, A3), A3)
        s.check(hx.iso(s, v, r, []), 'shape of the graph')
    finally:
        teardown()


def t_graph_stream(s):
    """the same with the containers written one after the other as values of one stream"""
    setup()
    try:
        objs = hx.graph(s, 2, s.quick and ['list', 'dict', 'typed'] or KINDS, [1, 2], lambda i, j: s.int('leaf%d%d' % (i, j), s.quick and 1000 or -300, s.quick and 1060 or 300))
        name_mixed(objs)
        v = [objs[1], objs[0], objs[1]]
        r = hx.decode_all(pyamf.encode(*v, encoding=A3).getvalue(), A3)
        s.check(len(r) == 3, 'number of values')
        s.check(hx.iso(s, v, r, []), 'shape of the graph')
    finally:
        teardown()


PLACES = ['text', 'bytes', 'key', 'nested', 'value']


def t_strings(s):
    """strings equal to earlier ones, wherever they occur"""
    n = s.quick and 2 or 3
    strs = [s.uni('s%d' % i, s.choice('len%d' % i, 3), 0x7ff) for i in range(n)]
    v = []
    for i in range(n):
        p = s.choice('p%d' % i, PLACES)
        u = strs[i]
        if p == 'text':
            v.append(u)
        elif p == 'bytes':
            v.append(u.encode('utf-8'))
        elif p == 'key':
            s.assume(len(u) > 0)
            v.append({u: i})
        elif p == 'nested':
            v.append([u, [u]])
        else:
            v.append({u'k': u})
    v = v + [strs[0], u'last', strs[-1], u'last', u'k']
    s.observe('data', len(hx.roundtrip(s, v, A3)))


def t_string_wire(s):
    """the second occurrence of a string is a reference, the empty string never is"""
    a = s.uni('a', s.choice('len', 3))
    e = pyamf.get_encoder(A3)
    e.writeElement(u'zz')
    e.writeElement(a)
    k = e.stream.tell()
    e.writeElement(a)
    rest = e.stream.getvalue()[k:]
    if len(a) == 0:
        s.check(rest == '\x06\x01', 'empty string')
    else:
        s.check(rest == (a == u'zz' and '\x06\x00' or '\x06\x02'), 'reference')


class P(object):
    pass


class Q(object):
    pass


def t_classes(s):
    """class definitions: any sequence of instances of static, dynamic, anonymous and typed classes"""
    setup()
    pyamf.CLASS_CACHE[P] = pyamf.CLASS_CACHE['P'] = pyamf.ClassAlias(P, 'P', static_attrs=['a', 'b'], dynamic=False)
    pyamf.CLASS_CACHE[Q] = pyamf.CLASS_CACHE['Q'] = pyamf.ClassAlias(Q, 'Q', static_attrs=['a'])
    try:
        n = s.quick and 3 or 4
        v = []
        for i in range(n):
            c = s.choice('c%d' % i, ['thing', 'p', 'q', 'dict', 'anon'])
            a = s.int('a%d' % i, s.quick and 1000 or -300, s.quick and 1060 or 300)
            if c == 'dict':
                o = {u'a': a}
            else:
                o = {'thing': hx.Thing, 'p': P, 'q': Q, 'anon': hx.Other}[c]()
                o.a = a
                if c in 'pq':
                    o.b = u'b'
            v.append(o)
        v = v + [v[0]]
        r = hx.decode_one(s, hx.encode(v, A3), A3)
        s.check(len(r) == n + 1, 'length')
        s.check(r[n] is r[0], 'identity')
        for i in range(n):
            o = v[i]
            if type(o) in (dict, hx.Other):
                s.check(type(r[i]) is pyamf.ASObject, 'type of an anonymous object')
                d = r[i]
            else:
                s.check(type(r[i]) is type(o), 'class of object')
                d = r[i].__dict__
            s.check(equal(s, type(o) is dict and o['a'] or getattr(o, 'a', None), d['a']) if type(o) is not dict
                    else equal(s, o[u'a'], d['a']), 'attribute a')
            s.check(len(d) == (type(o) in (P, Q) and 2 or 1), 'number of attributes')
            if type(o) in (P, Q):
                s.check(d['b'] == u'b', 'attribute b')
            for j in range(i):
                s.check(r[j] is not r[i], 'distinct objects merged')
    finally:
        teardown()
        pyamf.unregister_class(P)
        pyamf.unregister_class(Q)


def t_mix(s):
    """references stay right after any mix of values"""
    setup()
    try:
        lst = [s.int('l', -300, 300)]
        thing = hx.Thing()
        thing.x = u'q'
        ba = amf3.ByteArray(s.choice('ba', ['xyz', '']))
        day = datetime.datetime(2010, 1, 2, 3, 4, 5)
        doc = xml.fromstring('<a>b</a>')
        pool = {'list': lst, 'thing': thing, 'dict': {u'a': 1}, 'tuple': (1, 2), 'bytes': ba, 'date': day, 'xml': doc,
                'str': u'<a>b</a>', 'mixed': pyamf.MixedArray({u'a': 1, 0: 2}), 'none': None, 'empty': u'', 'int': 1000}
        names = ['list', 'thing', 'date', 'xml', 'bytes', 'tuple', 'mixed', 'str', 'dict', 'none', 'empty', 'int']
        n = s.quick and 2 or 3
        seq = [s.choice('i%d' % i, names) for i in range(n)] + ['list', 'thing', 'bytes', 'date', 'xml', 'str', 'list', 'thing']
        v = [pool[k] for k in seq]
        r = hx.decode_one(s, hx.encode(v, A3), A3)
        s.check(len(r) == len(seq), 'number of values')
        first = {}
        for i in range(len(seq)):
            k, a, b = seq[i], v[i], r[i]
            if k in ('str', 'none', 'empty', 'int'):
                s.check(equal(s, a, b), 'plain value')
                continue
            if k in first:
                s.check(b is first[k], 'identity lost: ' + k)
                continue
            for q in first:
                s.check(b is not first[q], 'distinct objects merged')
            first[k] = b
            if k == 'xml':
                s.check(xml.tostring(b) == '<a>b</a>', 'XML')
            elif k == 'date':
                s.check(b == a, 'date')
            elif k == 'bytes':
                s.check(b.getvalue() == ba.getvalue(), 'byte array')
            elif k == 'mixed':
                s.check(b == {'a': 1, 0: 2}, 'mixed array')
            else:
                s.check(equal(s, a, b), 'value differs')
    finally:
        teardown()


def t_equal_not_same(s):
    """equal but distinct objects stay distinct"""
    setup()
    try:
        a = s.int('a', -300, 300)
        kind = s.choice('kind', KINDS + ['tuple', 'bytes', 'date'])
        objs = []
        for i in range(3):
            if kind == 'tuple':
                o = tuple([a])
            elif kind == 'bytes':
                o = amf3.ByteArray('abc')
            elif kind == 'date':
                o = datetime.datetime(2001, 1, 1)
            else:
                o = hx.make(kind)
                hx.put(o, 'x', a)
                if kind == 'mixed':
                    o['k'] = 1
            objs.append(o)
        v = [objs[0], objs[1], objs[0], objs[2], objs[1]]
        r = hx.decode_one(s, hx.encode(v, A3), A3)
        s.check(r[0] is r[2] and r[1] is r[4], 'same object')
        s.check(r[0] is not r[1] and r[0] is not r[3] and r[1] is not r[3], 'distinct objects')
        if kind not in ('bytes', 'date'):
            s.check(hx.iso(s, v, r, []), 'shape')
    finally:
        teardown()


def t_nostrings(s):
    """with string references switched off strings are written in full"""
    a = s.uni('a', s.choice('len', 3))
    e = pyamf.get_encoder(A3, string_references=False)
    v = [a, a, {u'k': a}, {u'k': 1}]
    e.writeElement(v)
    r = hx.decode_one(s, e.stream.getvalue(), A3)
    s.check(equal(s, v, r), 'value')


def t_reused(s):
    """an encoder and a decoder whose contexts are cleared between messages behave like new ones"""
    setup()
    try:
        e = pyamf.get_encoder(A3)
        d = pyamf.get_decoder(A3)
        for m in range(2):
            kinds = [s.choice('k%d%d' % (m, i), ['thing', 'anon', 'bytes', 'str']) for i in range(2)]
            v = []
            for i, k in enumerate(kinds):
                if k == 'bytes':
                    o = amf3.ByteArray('ab')
                elif k == 'str':
                    o = s.uni('s%d%d' % (m, i), 1, 0x7f)
                else:
                    o = k == 'thing' and hx.Thing() or hx.Other()
                    o.x = s.int('x%d%d' % (m, i), 1000000, 1001000)
                v.append(o)
            v.append(v[0])
            fresh = hx.encode(v, A3)
            e.stream.truncate()
            e.context.clear()
            e.writeElement(v)
            data = e.stream.getvalue()
            s.check(data == fresh, 'message %d differs from that of a new encoder' % m)
            d.context.clear()
            d.stream.truncate()
            d.stream.write(data)
            d.stream.seek(0)
            r = d.readElement()
            s.check(hx.encode(r, A3) == fresh, 'message %d is decoded differently from what a new decoder gives' % m)
    finally:
        teardown()


def t_tables(s):
    """the tables of a context: what a reference was given for is what it stands for"""
    c = amf3.Context()
    strs = [s.choice('len%d' % i, 2) and s.bytes('s%d' % i, 1) or '' for i in range(3)]
    got = []
    for i in range(3):
        r = c.addString(strs[i])
        if strs[i] == '':
            s.check(r == -1, 'the empty string was given a reference')
            continue
        got.append(i)
        s.check(c.getString(len(got) - 1) == strs[i], 'strings are not numbered in the order of arrival')
        first = [j for j in got if strs[j] == strs[i]]
        ref = c.getStringReference(strs[i])
        s.check(0 <= ref < len(got) and c.getString(ref) == strs[i], 'a string is sent as another one')
        s.check(strs[got[r]] == strs[i], 'number given for the string')
    objs = [[], {}, hx.Thing()]
    objs.append(objs[s.choice('again', 3)])
    for i in range(4):
        r = c.addObject(objs[i])
        s.check(c.getObject(r) is objs[i], 'object added')
        s.check(c.getObject(i) is objs[i], 'objects are not numbered in the order of arrival')
        ref = c.getObjectReference(objs[i])
        s.check(c.getObject(ref) is objs[i], 'an object is sent as another one')
    s.check(c.getObjectReference([]) == -1, 'reference of an unknown object')
    s.check(c.getObject(4) is None and c.getString(len(got)) is None, 'object of an unknown reference')


def t_far(s):
    """references to strings, objects and classes with numbers of more than one byte"""
    kind = s.choice('kind', ['strings', 'objects', 'classes', 'keys', 'bytes'])
    n = s.choice('n', kind == 'classes' and [15, 16, 17, 31, 32, 33, 34] or [62, 63, 64, 65, 66])
    x = s.int('x', 1000000, 1001000)
    classes = []
    try:
        if kind == 'strings':
            v = [u'text %d' % i for i in range(n)]
        elif kind == 'objects':
            v = [[i] for i in range(n)]
        elif kind == 'bytes':
            v = [amf3.ByteArray(str(i)) for i in range(n)]
        elif kind == 'keys':
            v = [dict((u'key %d' % i, i) for i in range(n))] + [{u'key %d' % i: x} for i in range(n)]
        else:
            v = []
            for i in range(n):
                class K(object):
                    pass
                pyamf.register_class(K, 'far.K%d' % i)
                classes.append(K)
                o = K()
                o.a = i
                v.append(o)
            for i in range(n):
                o = classes[i]()
                o.a = x
                v.append(o)
        w = [x] + v + [v[n - 1], v[n - 2], v[0], {u'last': v[n - 1]}]
        r = hx.decode_one(s, hx.encode(w, A3), A3)
        if kind == 'bytes':
            s.check([b.getvalue() for b in r[1:n + 1]] == [b.getvalue() for b in v], 'byte arrays')
        elif kind == 'classes':
            for i in range(len(v)):
                s.check(type(r[i + 1]) is type(v[i]), 'class')
                s.check(r[i + 1].a == v[i].a, 'attribute')
        else:
            s.check(equal(s, v, r[1:len(v) + 1]), 'values')
        if kind != 'strings':
            k = len(v) + 1
            s.check(r[k] is r[n] and r[k + 1] is r[n - 1] and r[k + 2] is r[1] and r[k + 3]['last'] is r[n], 'identity')
        else:
            s.check(r[n + 1:n + 4] == [v[n - 1], v[n - 2], v[0]] and r[n + 4] == {'last': v[n - 1]}, 'strings repeated')
    finally:
        for k in classes:
            pyamf.unregister_class(k)


def t_wide(s):
    """classes with many static attributes, defined once, used by reference"""
    n = s.choice('n', [1, 2, 7, 8, 9, 15, 16, 17])
    dynamic = s.bool('dynamic')
    pyamf.CLASS_CACHE[P] = pyamf.CLASS_CACHE['P'] = pyamf.ClassAlias(P, 'P', static_attrs=['a%d' % i for i in range(n)], dynamic=dynamic)
    try:
        v = []
        for k in range(2):
            o = P()
            for i in range(n):
                setattr(o, 'a%d' % i, i)
            setattr(o, 'a%d' % (n - 1), s.int('x%d' % k, 1000000, 1001000))
            if dynamic:
                o.more = k
            v.append(o)
        r = hx.decode_one(s, hx.encode(v + v, A3), A3)
        s.check(len(r) == 4 and r[2] is r[0] and r[3] is r[1] and r[0] is not r[1], 'identity')
        for k in range(2):
            s.check(type(r[k]) is P, 'class')
            s.check(hx.same_items(s, v[k].__dict__, r[k].__dict__), 'attributes')
    finally:
        pyamf.unregister_class(P)
