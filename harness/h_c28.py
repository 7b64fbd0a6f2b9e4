# C28: record sets
import pyamf
from pyamf import amf0
import hx

BOUNDS = ('up to 2 columns and 2 rows with text of up to 1 character or any number, service name and id absent, text of up to 2 characters (any Unicode), '
          'bytes or a number; record sets alone, in containers, twice, in AMF0 and AMF3; server information of every kind of value and with every '
          'subset of its fields, each with every kind of value')
ASSUMPTIONS = ['an id or service name that is no text is sent as the text str() makes of it',
               'what a record set is linked to as service has a name']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3']


def cell(s, name):
    k = s.choice(name + '.kind', ['num', 'text', 'none'])
    if k == 'num':
        return s.int(name, 1000000, 1001000)
    if k == 'text':
        return u'c' + name + s.uni(name, 1, 0x7ff)
    return None


def label(s, name):
    k = s.choice(name + '.kind', ['none', 'text', 'bytes', 'empty', 'num'])
    if k == 'text':
        v = s.uni_upto(name, 2, 0x10ffff, 1)
        return v, v
    if k == 'bytes':
        v = s.uni(name, 1)
        return v.encode('utf-8'), v
    if k == 'empty':
        return u'', u''
    if k == 'num':
        n = s.choice(name, [0, 7, 54])
        return n, unicode(n)
    return None, None


def same(s, x, columns, items, service, ident):
    s.check(type(x) is amf0.RecordSet, 'class')
    s.check(hx.equal(s, columns, x.columns), 'columns')
    s.check(hx.equal(s, items, x.items), 'rows')
    if service is None:
        s.check(x.service is None, 'service')
    else:
        s.check(list(x.service) == ['name'] and hx.equal(s, service, x.service['name']), 'service')
    if ident is None:
        s.check(x.id is None, 'id')
    else:
        s.check(hx.equal(s, ident, x.id), 'id')


def t_labels(s):
    """service name and id"""
    sent, service = label(s, 'service')
    ident, want = s.quick and sent is not None and (u'x', u'x') or label(s, 'id')
    r = amf0.RecordSet([u'a'], [[1]], service=sent is not None and {'name': sent} or None, id=ident)
    enc = s.choice('enc', [0, 3])
    x = hx.decode_one(s, hx.encode(r, enc), enc)
    same(s, x, [u'a'], [[1]], service, want)


def t_rows(s):
    """columns and rows"""
    nc, nr = s.choice('columns', 3), s.choice('rows', 3)
    columns = [u'c%d' % i + s.uni('c%d' % i, 1, 0x7ff) for i in range(nc)]
    items = []
    for j in range(nr):
        items.append([j == 0 and i == 0 and cell(s, 'x%d' % i) or j for i in range(nc)])
    if nr == 2 and s.bool('tuples'):
        items = tuple([tuple(x) for x in items])
        columns = tuple(columns)
    r = amf0.RecordSet(columns, items)
    enc = s.choice('enc', [0, 3])
    i = r.serverInfo
    s.check(i.totalCount == nr and i.cursor == 1 and i.version == 1, 'counts')
    where = s.choice('where', ['alone', 'twice', 'value', 'next'])
    v = {'alone': r, 'twice': [r, r, [r]], 'value': {u'k': r, u'l': [columns]}, 'next': [r, amf0.RecordSet([u'z'], []), items]}[where]
    x = hx.decode_one(s, hx.encode(v, enc), enc)
    if where == 'twice':
        s.check(x[0] is x[1] and x[2][0] is x[0], 'identity')
        x = x[0]
    elif where == 'value':
        s.check(hx.equal(s, [columns], x['l']), 'value next to it')
        x = x['k']
    elif where == 'next':
        same(s, x[1], [u'z'], [], None, None)
        s.check(hx.equal(s, items, x[2]), 'value next to it')
        x = x[0]
    same(s, x, columns, items, None, None)


def t_shared(s):
    """record sets made without columns or rows share nothing"""
    a, b = amf0.RecordSet(), amf0.RecordSet(id=s.choice('id', [None, u'x']))
    s.check(a.columns == [] and a.items == [] and b.columns == [] and b.items == [], 'empty')
    enc = s.choice('enc', [0, 3])
    x, y = hx.decode_one(s, hx.encode([a, b], enc), enc)
    s.check(x is not y, 'distinct')
    x.columns.append(u'q')
    s.check(y.columns == [] and y.items == [] and x.items == [], 'shared')


FIELDS = ['columnNames', 'initialData', 'serviceName', 'id', 'totalCount']


def t_hostile(s):
    """whatever stands for the server information, there is a record set or a documented error"""
    enc = s.choice('enc', [0, 3])
    kind = s.choice('kind', ['fields', 'none', 'text', 'num', 'list', 'mixed', 'record set', 'missing'])
    n = s.int('n', 1000000, 1001000)
    if kind == 'fields':
        si = {}
        for i in range(len(FIELDS)):
            if s.bool('f%d' % i):
                si[FIELDS[i]] = [u'x']
        if si:
            si[s.choice('odd', sorted(si))] = s.choice('value', [None, u'x', n, [], {}, True])
    else:
        si = {'none': None, 'text': u'columnNames', 'num': n, 'list': [u'columnNames', n], 'mixed': pyamf.MixedArray({1: n, 'columnNames': [u'q']}),
              'record set': amf0.RecordSet([u'a'], [[n]]), 'missing': None}[kind]
    dynamic = s.bool('dynamic')
    pyamf.CLASS_CACHE[hx.Thing] = pyamf.ClassAlias(hx.Thing, 'RecordSex', static_attrs=kind != 'missing' and not dynamic and ['serverInfo'] or None)
    o = hx.Thing()
    if kind != 'missing':
        o.serverInfo = si
    data = hx.encode(o, enc).replace('RecordSex', 'RecordSet')
    del pyamf.CLASS_CACHE[hx.Thing]
    try:
        r = list(pyamf.decode(data, encoding=enc))
    except pyamf.DecodeError:
        s.check(kind != 'fields' or 'columnNames' not in si or 'initialData' not in si, 'complete record set refused')
        return
    s.check(len(r) == 1 and type(r[0]) is amf0.RecordSet, 'a record set')
    s.check(kind == 'fields' and 'columnNames' in si and 'initialData' in si, 'incomplete record set accepted')
    s.check(hx.equal(s, si['columnNames'], r[0].columns) and hx.equal(s, si['initialData'], r[0].items), 'content')
    s.check((r[0].service is None) == ('serviceName' not in si), 'service')
