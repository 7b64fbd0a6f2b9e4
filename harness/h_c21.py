# C21: Flex collections and messages survive the wire, in long and short form
import datetime
import uuid
import pyamf
from pyamf import util
from pyamf.flex import ArrayCollection, ObjectProxy, messaging, data
import pyamf.flex as flex
import hx

BOUNDS = ('every subset of the fields of each kind of message with symbolic values: any number in a range, text of 1 character, any 16 '
          'bytes of an id, any millisecond of 69 years; long form in AMF0 and AMF3, short form in AMF3; any two flag bytes of each part of a short message; '
          'collections of up to 2 (thorough: 3) items of any kind, nested, shared and cyclic; histories of 3 (4) collection operations')
ASSUMPTIONS = ['a number given as timestamp or time to live of a short message is milliseconds and comes back as the instant',
               'absent headers of a short message come back as none or empty', 'ids in UUID form are for short messages only',
               'a short message with more flag bytes than the format knows may be refused']
MODELS = ['datetime', 'calendar']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3', 'pyamf.flex.data']
MS = datetime.timedelta(0, 0, 1000)
KINDS = ['none', 'bool', 'small', 'uni0', 'uni1', 'list0', 'dict0']
ABSTRACT = ['body', 'clientId', 'destination', 'headers', 'messageId', 'timestamp', 'timeToLive']
FIELDS = {'AsyncMessage': ['correlationId'], 'AcknowledgeMessage': ['correlationId'], 'CommandMessage': ['correlationId', 'operation'],
          'ErrorMessage': ['correlationId', 'extendedData', 'faultCode', 'faultDetail', 'faultString', 'rootCause'],
          'RemotingMessage': ['operation', 'source'], 'AbstractMessage': []}
SHORT = {'AsyncMessage': ('AsyncMessageExt', 'DSA'), 'AcknowledgeMessage': ('AcknowledgeMessageExt', 'DSK'),
         'CommandMessage': ('CommandMessageExt', 'DSC')}


def names(kind):
    return ABSTRACT + FIELDS[kind]


def field(s, n, x):
    if n in ('headers', 'extendedData', 'rootCause'):
        return {'k': x}
    if n in ('timestamp', 'timeToLive', 'operation', 'body'):
        return x
    if s.quick:
        return unicode(n) + s.uni(n, 1, 127)
    return s.uni(n, 1)


def check_fields(s, kind, want, got):
    for n in names(kind):
        a, b = getattr(want, n), getattr(got, n)
        s.check(hx.equal(s, a, b), n)
    s.check(len(got.__dict__) == len(names(kind)), 'other fields')


def set_fields(s, kind, x):
    """every subset of the fields of its own, with one, all or none of those all messages have"""
    short = s.quick and len(FIELDS[kind]) > 2 and ABSTRACT[:1] or ABSTRACT
    only = s.choice('common', short + ['all', 'none'])
    kwargs, n = {}, 0
    for f in names(kind):
        if f in ABSTRACT:
            use = only == f or only == 'all'
        else:
            use = s.bool(f)
        if use:
            kwargs[f] = field(s, f, x + n)
            n += 1
    return kwargs


def t_long(s):
    """the long form carries every field, whichever are set"""
    kind = s.choice('kind', ['AbstractMessage', 'AsyncMessage', 'AcknowledgeMessage', 'CommandMessage', 'ErrorMessage', 'RemotingMessage'])
    enc = s.quick and kind == 'ErrorMessage' and 3 or s.choice('enc', [0, 3])
    klass = getattr(messaging, kind)
    kwargs = set_fields(s, kind, s.int('x', 1000000, 1001000))
    if s.quick or s.bool('arguments'):
        m = klass(**kwargs)
    else:
        m = klass()
        for f in kwargs:
            setattr(m, f, kwargs[f])
    for f in names(kind):
        if f in kwargs:
            s.check(getattr(m, f) is kwargs[f], 'argument')
        else:
            s.check(getattr(m, f) in (None, {}), 'default')
    data = pyamf.encode(m, encoding=enc).getvalue()
    s.check(data[0] == (enc and '\x0a' or '\x11'), 'only AMF3 has messages')
    r = hx.decode_one(s, data, enc)
    s.check(r.__class__ is klass, 'class')
    check_fields(s, kind, m, r)


def check_short(s, kind, m, when=None):
    short = m.getSmallMessage()
    s.check(short.__class__.__name__ == SHORT[kind][0], 'short class')
    for f in names(kind):
        s.check(getattr(short, f) is getattr(m, f), 'short form')
    data = pyamf.encode([short, 5], encoding=3).getvalue()
    s.check(SHORT[kind][1] in data, 'name')
    r, five = hx.decode_one(s, data, 3)
    s.check(r.__class__ is short.__class__ and five == 5, 'what follows')
    for f in names(kind):
        a, b = getattr(m, f), getattr(r, f)
        if f == 'headers' and not a:
            s.check(not b, f)
        elif f in ('timestamp', 'timeToLive'):
            s.check((a is None) == (b is None), f)
            if a is not None:
                a = when or util.get_datetime(a / 1000.0)
                s.check(type(b) is datetime.datetime, f)
                s.check(s.And(a - b < MS, b - a < MS), f)
        elif isinstance(a, uuid.UUID):
            s.check(isinstance(b, uuid.UUID), f)
            s.check(a == b, f)
        else:
            s.check(hx.equal(s, a, b), f)
    s.check(len(r.__dict__) == len(names(kind)), 'other fields')


def t_short(s):
    """the short form carries every field, whichever are set"""
    kind = s.choice('kind', ['AsyncMessage', 'AcknowledgeMessage', 'CommandMessage'])
    kwargs = set_fields(s, kind, s.int('x', 1000000, 1001000))
    for f in ('timestamp', 'timeToLive'):
        if f in kwargs:
            kwargs[f] = 1500
    check_short(s, kind, getattr(messaging, kind)(**kwargs))


def t_short_pairs(s):
    """any two fields with any kind of value"""
    kind = s.quick and 'CommandMessage' or s.choice('kind', ['AsyncMessage', 'AcknowledgeMessage', 'CommandMessage'])
    free = [f for f in names(kind) if f not in ('timestamp', 'timeToLive')]
    i = s.choice('first', len(free))
    m = getattr(messaging, kind)()
    first = s.quick and ['uni0', 'dict0'] or KINDS
    setattr(m, free[i], hx.scalar(s, 'v1', KINDS))
    j = s.choice('second', len(free))
    if j > i:
        setattr(m, free[j], hx.scalar(s, 'v2', first))
    elif j < i:
        s.stop()
    if m.headers is None or m.headers == [] or m.headers == '' or m.headers is False:
        s.stop()
    if s.is_(m.headers, (int, long)) and m.headers == 0:
        s.stop()
    check_short(s, kind, m)


def t_short_ids(s):
    """ids as UUID, text or missing"""
    kind = s.choice('kind', ['AsyncMessage', 'AcknowledgeMessage', 'CommandMessage'])
    m = getattr(messaging, kind)()
    for f in ('clientId', 'messageId', 'correlationId'):
        v = s.choice(f, ['none', 'text', 'uuid', 'zlib'])
        if v == 'text':
            setattr(m, f, s.uni(f + '.t', 1, s.quick and 127 or None))
        elif v == 'uuid':
            b = s.bytes(f + '.u', 16)
            # other content that is a zlib stream: a finding of C05
            s.assume(b[:2] != '\x78\x9c')
            setattr(m, f, uuid.UUID(bytes=b))
        elif v == 'zlib':
            setattr(m, f, uuid.UUID(bytes='\x78\x9c' + '\0' * 14))
    if s.bool('others'):
        m.body = s.int('x', 1000000, 1001000)
    else:
        # only what the second flags byte is for
        m.headers = m.body = None
    check_short(s, kind, m)


def t_short_times(s):
    """timestamps: instants of millisecond precision, or milliseconds"""
    kind = s.choice('kind', ['AsyncMessage', 'AcknowledgeMessage', 'CommandMessage'])
    m = getattr(messaging, kind)()
    f = s.choice('field', ['timestamp', 'timeToLive'])
    form = s.choice('form', f == 'timestamp' and ['instant', 'milliseconds', 'zero', 'float'] or ['instant', 'milliseconds'])
    d = s.instant('instant', 0, 2 ** 41 * 1000)
    if form == 'milliseconds':
        v = s.choice('ms', [1, 1500, -1000, 2 ** 28, 2 ** 29 + 1, 1400000000123, 2.5, 0.0])
        d = util.get_datetime(v / 1000.0)
    elif form == 'zero':
        v, d = 0, datetime.datetime(1970, 1, 1)
    elif form == 'float':
        v = util.get_timestamp(d) * 1000.0
    else:
        v = d
    setattr(m, f, v)
    m.correlationId = u'c'
    check_short(s, kind, m, d)


HEAD = {'DSA': '\x0a\x07\x07DSA', 'DSK': '\x0a\x07\x07DSK', 'DSC': '\x0a\x07\x07DSC'}
ID = '0123456789abcdef'


def value(n):
    """AMF3 integer"""
    return '\x04' + chr(n)


def uuid_value(n):
    return '\x0c\x21' + ID[:15] + chr(n)


def parse(s, data, want, unknown):
    try:
        v = list(pyamf.decode(data, encoding=3))
    except pyamf.DecodeError:
        s.check(unknown, 'refused')
        return
    s.check(len(v) == 2 and v[1] == 99, 'what follows')
    m = v[0]
    for f in want:
        got = getattr(m, f)
        if f in ('timestamp', 'timeToLive'):
            s.check(got == util.get_datetime(want[f] / 1000.0), f)
        elif s.is_(want[f], str):
            s.check(isinstance(got, uuid.UUID) and got.bytes == want[f], f)
        else:
            s.check(got == want[f], f)
    for f in ABSTRACT + ['correlationId']:
        if f not in want:
            s.check(not getattr(m, f), 'not sent')


def bits(b, n=7):
    return [i for i in range(n) if b & (1 << i)]


def t_flags_first(s):
    """the first flag byte: every combination"""
    name = s.choice('name', ['DSA', 'DSK', 'DSC'])
    b = s.int('flags', 0, 127)
    data, want = HEAD[name] + chr(b), {}
    for i in bits(b):
        data += value(i + 1)
        want[ABSTRACT[i]] = i + 1
    data += '\x00' * (name == 'DSA' and 1 or 2) + value(99)
    parse(s, data, want, False)


def t_flags_second(s):
    """the second flag byte: the ids, and values of flags not known"""
    name = s.choice('name', ['DSA', 'DSK', 'DSC'])
    first, b = s.choice('first', [0, 0x42]), s.int('flags', 0, 127)
    data, want = HEAD[name] + chr(first | 0x80) + chr(b), {}
    if first:
        data += value(1) + value(2)
        want['clientId'], want['timeToLive'] = 1, 2
    for i in bits(b):
        if i < 2:
            data += uuid_value(i)
            want[['clientId', 'messageId'][i]] = ID[:15] + chr(i)
        else:
            data += value(i)
    data += '\x00' * (name == 'DSA' and 1 or 2) + value(99)
    parse(s, data, want, b > 3)


def t_flags_own(s):
    """the flag bytes of each kind: its fields, and values of flags not known"""
    name = s.choice('name', ['DSA', 'DSK', 'DSC'])
    b = s.int('flags', 0, 127)
    data, want = HEAD[name] + '\x01' + value(7), {'body': 7}
    which = s.choice('part', name == 'DSA' and ['async'] or ['async', 'own'])
    if which == 'own':
        data += '\x00'
    data += chr(b)
    for i in bits(b):
        if which == 'async' and i == 1:
            data += uuid_value(5)
            want['correlationId'] = ID[:15] + chr(5)
        else:
            data += value(i + 1)
            if which == 'async' and i == 0:
                want['correlationId'] = 1
            elif name == 'DSC' and i == 0:
                want['operation'] = 1
    if which == 'async' and name != 'DSA':
        data += '\x00'
    data += value(99)
    parse(s, data, want, b > 3 or (b > 1 and which == 'own' and name == 'DSC') or (b and which == 'own' and name == 'DSK'))


def t_flags_more(s):
    """more flag bytes than known: refused, or the values they announce skipped"""
    name = s.choice('name', ['DSA', 'DSK', 'DSC'])
    part = s.choice('part', name == 'DSA' and [0, 1] or [0, 1, 2])
    b = s.int('flags', 0, 127)
    data = HEAD[name]
    for i in range(name == 'DSA' and 2 or 3):
        if i == part:
            data += '\x80' + (i == 0 and '\x80' or '') + chr(b)
            for j in bits(b):
                data += value(j)
        else:
            data += '\x00'
    parse(s, data + value(99), {}, True)


def t_data_messages(s):
    """messages of data management services, long form, and no short form that drops fields"""
    name = s.choice('name', ['DataMessage', 'SequencedMessage', 'PagedMessage', 'DataErrorMessage'])
    klass = getattr(data, name)
    m = klass()
    x, n = s.int('x', 1000000, 1001000), 0
    own = sorted(k for k in m.__dict__ if k not in ABSTRACT)
    which = s.choice('which', ['all', 'none'] + range(3))
    for k in own:
        if which == 'all' or which == n:
            setattr(m, k, x + n)
        n += 1
    m.body = s.uni('t', 1)
    enc = s.choice('enc', [0, 3])
    saved = pyamf.CLASS_CACHE.copy()
    r = hx.decode_one(s, pyamf.encode(m, encoding=enc).getvalue(), enc)
    s.check(r.__class__ is klass, 'class')
    s.check(hx.same_items(s, m.__dict__, r.__dict__), 'fields')
    try:
        short = m.getSmallMessage()
    except NotImplementedError:
        return
    for k in own:
        s.check(getattr(short, k, None) is getattr(m, k), 'short form')


def item(s, name, kinds=('none', 'bool', 'small', 'uni1', 'list', 'dict', 'collection', 'proxy', 'object')):
    k = s.choice(name + '.kind', kinds)
    if k == 'list':
        return [1, u'a']
    if k == 'dict':
        return {'a': 1}
    if k == 'collection':
        return ArrayCollection([s.int(name + '.i', 1000000, 1001000)])
    if k == 'proxy':
        return ObjectProxy({'p': s.int(name + '.i', 1000000, 1001000)})
    if k == 'object':
        o = hx.Thing()
        o.x = s.int(name + '.i', 1000000, 1001000)
        return o
    return hx.scalar(s, name, [k])


def same(s, a, b):
    """equal, collections and proxies included"""
    if type(a) is ArrayCollection:
        if type(b) is not ArrayCollection or len(a) != len(b):
            return False
        r = True
        for i in range(len(a)):
            r = s.And(r, same(s, a[i], b[i]))
        return r
    if type(a) is ObjectProxy:
        return type(b) is ObjectProxy and same(s, a._amf_object, b._amf_object)
    if type(a) is list:
        if type(b) is not list or len(a) != len(b):
            return False
        r = True
        for i in range(len(a)):
            r = s.And(r, same(s, a[i], b[i]))
        return r
    return hx.equal(s, a, b)


def t_collections(s):
    """collections of anything, shared and within each other"""
    enc = s.choice('enc', [0, 3])
    pyamf.register_class(hx.Thing, 'thing')
    c = ArrayCollection()
    for i in range(s.choice('n', s.quick and 3 or 4)):
        if i < (s.quick and 1 or 2):
            c.addItem(item(s, 'i%d' % i))
        else:
            c.addItem(item(s, 'i%d' % i, ['small', 'collection']))
    shape = s.choice('shape', ['alone', 'shared', 'cyclic', 'in proxy', 'in object'])
    if shape == 'alone':
        v = c
    elif shape == 'shared':
        v = [c, c, 5]
    elif shape == 'cyclic':
        v = ArrayCollection([c, 5])
        v.append(v)
    elif shape == 'in proxy':
        v = ObjectProxy({'c': c, 'n': 5})
    else:
        v = hx.Thing()
        v.c = c
    r = hx.decode_one(s, pyamf.encode(v, encoding=enc).getvalue(), enc)
    if shape == 'alone':
        s.check(same(s, c, r), 'collection')
        s.check(in_amf3(v), 'only AMF3 has collections')
    elif shape == 'shared':
        s.check(same(s, c, r[0]) and r[0] is r[1] and r[2] == 5, 'shared')
    elif shape == 'cyclic':
        s.check(type(r) is ArrayCollection and len(r) == 3, 'cyclic')
        s.check(r[2] is r and r[1] == 5 and same(s, c, r[0]), 'cyclic')
    elif shape == 'in proxy':
        s.check(type(r) is ObjectProxy and r.n == 5 and same(s, c, r.c), 'proxy')
    else:
        s.check(r.__class__ is hx.Thing and same(s, c, r.c), 'object')


def in_amf3(v):
    """an externalised class writes its own AMF3, in AMF0 too"""
    return pyamf.encode(v, encoding=0).getvalue() == '\x11' + pyamf.encode(v, encoding=3).getvalue()


def t_proxies(s):
    """proxies of objects and dictionaries: attributes pass through, sent and back"""
    enc = s.choice('enc', [0, 3])
    pyamf.register_class(hx.Thing, 'thing')
    of = s.choice('of', ['none', 'dict', 'ASObject', 'object'])
    x = s.int('x', 1000000, 1001000)
    if of == 'none':
        p = ObjectProxy()
    elif of == 'dict':
        p = ObjectProxy({'x': x})
    elif of == 'ASObject':
        p = ObjectProxy(pyamf.ASObject(x=x))
    else:
        p = ObjectProxy(hx.Thing())
    if of in ('none', 'ASObject', 'object'):
        p.x = x
        p.y = item(s, 'y')
        s.check(p.x == x and p._amf_object.x == x, 'passes through')
        y = p.y
    try:
        p.nothing
        s.fail('unknown attribute')
    except AttributeError:
        pass
    s.check(in_amf3(p), 'only AMF3 has proxies')
    v, five, again = hx.decode_one(s, pyamf.encode([p, 5, p], encoding=enc).getvalue(), enc)
    s.check(type(v) is ObjectProxy and again is v and five == 5, 'proxy')
    if of == 'object':
        s.check(v._amf_object.__class__ is hx.Thing and hx.equal(s, x, v.x) and same(s, y, v.y), 'object')
    else:
        s.check(hx.is_num(s, v._amf_object['x']) and v._amf_object['x'] == x, 'dictionary')
        if of != 'dict':
            s.check(same(s, y, v.y) and len(v._amf_object) == 2, 'dictionary')


def t_source(s):
    """collections from clients: of an array, of another collection, of an object with a source"""
    x = s.int('x', 1000000, 1001000)
    form = s.choice('form', ['array', 'collection', 'source', 'collected', 'number', 'none', 'no source'])
    items = [x, 1][:s.choice('items', [2, 1, 0])]
    inner = {'array': items, 'collection': None, 'source': pyamf.ASObject(source=items, other=x),
             'collected': pyamf.ASObject(source=ArrayCollection(items)), 'number': x, 'none': None, 'no source': pyamf.ASObject(source=None)}[form]
    body = pyamf.encode(inner, encoding=3).getvalue()
    name = 'flex.messaging.io.ArrayCollection'
    bytes = '\x0a\x07' + chr(len(name) * 2 + 1) + name
    if form == 'collection':
        # refers to the traits of the outer one
        body = '\x0a\x01' + pyamf.encode(items, encoding=3).getvalue()
    try:
        v = hx.decode_one(s, bytes + body, 3)
    except pyamf.DecodeError:
        s.check(form in ('number', 'none', 'no source'), 'refused')
        s.stop()
    s.check(form not in ('number', 'none', 'no source'), 'accepted')
    s.check(type(v) is ArrayCollection and len(v) == len(items), 'number of items')
    for i in range(len(items)):
        s.check(hx.equal(s, items[i], v[i]), 'items')


def t_operations(s):
    """collections do what their methods say, for every index"""
    c, model = ArrayCollection([7, 8]), [7, 8]
    for i in range(s.quick and 2 or 3):
        op = s.choice('op%d' % i, ['addItem', 'addItemAt', 'getItemAt', 'getItemIndex', 'removeAll', 'removeItemAt', 'setItemAt'])
        v = s.int('v%d' % i, 0, 9)
        n = s.int('n%d' % i, -3, 5)
        before = list(c)
        try:
            if op == 'addItem':
                c.addItem(v)
                model.append(v)
            elif op == 'removeAll':
                c.removeAll()
                model = []
            elif op == 'getItemIndex':
                got = c.getItemIndex(v)
                want = -1
                for j in range(len(model) - 1, -1, -1):
                    if model[j] == v:
                        want = j
                s.check(got == want, 'index')
            elif op == 'addItemAt':
                c.addItemAt(v, n)
                s.check(s.And(0 <= n, n <= len(model)), 'added')
                model.insert(n, v)
            elif op == 'getItemAt':
                got = c.getItemAt(n)
                s.check(s.And(0 <= n, n < len(model)), 'got')
                s.check(got == model[n], 'item')
            elif op == 'removeItemAt':
                got = c.removeItemAt(n)
                s.check(s.And(0 <= n, n < len(model)), 'removed')
                s.check(got == model.pop(n), 'item')
            else:
                got = c.setItemAt(v, n)
                s.check(s.And(0 <= n, n < len(model)), 'set')
                s.check(got == model[n], 'item')
                model[n] = v
        except IndexError:
            s.check(op.endswith('At'), 'IndexError')
            s.check(s.Or(n < 0, n > len(model) if op == 'addItemAt' else n >= len(model)), 'refused')
            s.check(list(c) == before, 'refused')
        s.check(len(c) == len(model) and c.length == len(model), 'length')
        for j in range(len(model)):
            s.check(c[j] == model[j], 'items')
    s.check(c.toArray() == model, 'toArray')


class Items(list):
    pass


def t_use_proxies(s):
    """encoders and decoders that use proxies: the same values, proxied on the wire"""
    pyamf.register_class(hx.Thing, 'thing')
    x = s.int('x', 1000000, 1001000)
    o = hx.Thing()
    o.l, o.d = [x], {'k': [x]}
    form = s.choice('form', ['list', 'tuple', 'dict', 'ASObject', 'object', 'nested', 'shared', 'empty', 'strings', 'collection', 'int keys', 'mixed',
                              'cyclic', 'list class', 'cyclic dict'])
    v = {'list': [x, 1], 'tuple': (x, 1), 'dict': {'a': x, 'b': [x]}, 'ASObject': pyamf.ASObject(a=x), 'object': o,
         'nested': [[x], {'a': [x, {'b': x}]}], 'empty': [[], {}], 'strings': [u'a', {'a': u'a'}, u'a'], 'shared': None,
         'collection': ArrayCollection([[x], {'a': x}]), 'int keys': {1: x, 5: u'a'}, 'mixed': pyamf.MixedArray({u'a': x, 0: 1}),
         'cyclic': [x], 'cyclic dict': {'x': x}, 'list class': Items([x])}[form]
    if form == 'cyclic':
        v.append(v)
    if form == 'cyclic dict':
        v['v'] = v
    if form == 'shared':
        v = [x]
        v = [v, v, {'v': v}]
    data = pyamf.encode(v, encoding=3, use_proxies=True).getvalue()
    plain = list(pyamf.decode(data, encoding=3))
    s.check(len(plain) == 1, 'one value')
    plain = plain[0]
    if form in ('list', 'tuple', 'nested', 'shared', 'empty', 'strings', 'cyclic', 'list class'):
        s.check(type(plain) is ArrayCollection, 'proxied')
    if form in ('dict', 'ASObject', 'int keys', 'mixed'):
        s.check(type(plain) is ObjectProxy, 'proxied')
    if form == 'object':
        s.check(plain.__class__ is hx.Thing and type(plain.l) is ArrayCollection and type(plain.d) is ObjectProxy, 'proxied')
    try:
        back = list(pyamf.decode(data, encoding=3, use_proxies=True))
    except KeyError:
        if form == 'cyclic dict' and s.known('cyclic-proxies'):
            s.stop()
        raise
    s.check(len(back) == 1, 'one value')
    back = back[0]
    if form == 'cyclic dict':
        s.check(len(back) == 2 and back['v'] is back and back['x'] == x, 'cyclic')
        s.stop()
    if form == 'cyclic':
        if len(back) == 0 and s.known('cyclic-proxies'):
            s.stop()
        s.check(len(back) == 2 and back[1] is back and back[0] == x, 'cyclic')
        s.stop()
    want = v
    if form in ('collection', 'list class'):
        want = list(v)
    elif form == 'int keys':
        want = {'1': x, '5': u'a'}
    elif form == 'mixed':
        want = {'a': x, '0': 1}
    s.check(hx.equal(s, want, back), 'decoded')
    if form == 'shared':
        s.check(plain[0] is plain[1] and plain[2].v is plain[0], 'identity')
        s.check(back[0] is back[1] and back[2]['v'] is back[0], 'identity')


def t_unproxy(s):
    """proxying and back"""
    x = s.int('x', 1000000, 1001000)
    v = s.choice('v', [[x], (x,), {'a': x}, pyamf.ASObject(a=x), x, None, u'a', hx.Thing(), ArrayCollection([x])])
    p = flex.proxy_object(v)
    if type(v) in (list, tuple):
        s.check(type(p) is ArrayCollection and len(p) == 1 and p[0] == x, 'collection')
        s.check(flex.unproxy_object(p) == [x] and type(flex.unproxy_object(p)) is list, 'list')
    elif s.is_(v, dict):
        s.check(type(p) is ObjectProxy and flex.unproxy_object(p) is v, 'proxy')
    else:
        s.check(p is v, 'unchanged')
