# C31: App Engine entities arrive as what the datastore holds
import datetime
import pyamf
import hx
import gae

MODELS = ['datetime', 'calendar']
BOUNDS = ('db and ndb models with number, fraction, text, date, time, list, reference, key, computed and dynamic properties, inheritance '
          'through polymodel; numbers of 1000 values as integer or float, texts of 1 character, every day of 40 years; entities unsaved, '
          'saved and named by keys with and without rows; graphs of up to 3 entities; up to 3 values in a row; both AMF versions')
ASSUMPTIONS = ['the App Engine SDK is not installed: models, properties, keys, get and queries of db and ndb are modelled as documented '
               '(harness/gae.py)',
               'attributes no property is declared for are sent to Expando models only']
PRELOAD = ['pyamf.amf3', 'pyamf.adapters.models', 'pyamf.adapters.util', 'pyamf.adapters.gae_base']


class Guest(object):
    pass


def sent(enc, alias, *attrs):
    """what a client sends as objects of that class (a name of one letter), decoded one after the other"""
    pyamf.register_class(Guest, 'guest-class')
    items = []
    for a in attrs:
        items.append(guest(a))
    data = pyamf.encode(*items, **{'encoding': enc}).getvalue()
    pyamf.unregister_class(Guest)
    if enc == pyamf.AMF0:
        data = data.replace('\x10\x00\x0bguest-class', '\x10\x00\x01' + alias)
    else:
        data = data.replace('\x17guest-class', '\x03' + alias)
    return list(pyamf.decode(data, encoding=enc))


def guest(attrs):
    g = Guest()
    g.__dict__.update(attrs)
    return g


def plain(enc, value):
    """what a peer without the classes receives"""
    return list(pyamf.decode(pyamf.encode(value, encoding=enc).getvalue(), encoding=enc))[0]


def pick(s):
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    return enc


def t_db_encode(s):
    """every property under its name, and the key; nothing else"""
    gae.install_db(s)
    enc = pick(s)
    base = s.choice('base', ['model', 'expando', 'poly'])
    members = dict(name=gae.StringProperty(), n=gae.IntegerProperty(), f=gae.FloatProperty(), born=gae.DateProperty(),
                   nums=gae.ListProperty(int))
    M = type('M', ({'model': gae.Model, 'expando': gae.Expando, 'poly': gae.PolyModel}[base],), members)
    n = s.int('n', 1000000, 1001000)
    day = s.day('born', 0, 14610)
    x = M(name=s.uni('name', 1), n=n, f=s.float('f'), born=day, nums=[n, 7])
    names = ['_key', 'born', 'f', 'n', 'name', 'nums']
    if base == 'expando':
        x.extra = n
        names.append('extra')
    key = None
    if s.bool('saved'):
        x.put('k')
        key = u'M:k'
    before = dict(x.__dict__)
    r = plain(enc, x)
    s.check(sorted(r.keys()) == sorted(names), 'attributes sent')
    s.check(r['_key'] == key, 'key')
    for k in ('name', 'n', 'f'):
        s.check(hx.equal(s, r[k], getattr(x, k)), k)
    s.check(s.same(r['born'], datetime.datetime.combine(day, datetime.time())), 'date')
    s.check(len(r['nums']) == 2 and r['nums'][0] == n and r['nums'][1] == 7, 'list')
    if base == 'expando':
        s.check(r['extra'] == n, 'dynamic property')
    s.check(sorted(before) == sorted(x.__dict__), 'entity left alone')
    s.check(x.nums[0] is n or x.nums[0] == n, 'entity left alone')
    s.reached('done')


def t_db_decode(s):
    """an entity arrives new, loaded from its row, or with the key it was given"""
    gae.install_db(s)
    enc = pick(s)
    M = type('M', (gae.Model,), dict(name=gae.StringProperty(), n=gae.IntegerProperty(default=5), f=gae.FloatProperty(),
                                     old=gae.StringProperty(default=u'o')))
    pyamf.register_class(M, 'M')
    n = s.int('n', 1000000, 1001000)
    given = s.choice('key', ['none', 'row', 'no row', 'null'])
    if given == 'row':
        M(name=u'stored', n=3, f=2.5, old=u'kept').put('k')
    attrs = {}
    if given in ('row', 'no row'):
        attrs['_key'] = u'M:k'
    elif given == 'null':
        attrs['_key'] = None
    send = s.choice('sent', ['n', 'float', 'name', 'all', 'nothing'])
    if send in ('n', 'all'):
        attrs['n'] = n
    if send == 'float':
        attrs['n'] = 8.0
    if send in ('name', 'all'):
        attrs['name'] = s.uni('name', 1)
    if send == 'all':
        attrs['f'] = s.int('f', 1000000, 1001000)
    x, = sent(enc, 'M', attrs)
    s.check(type(x) is M, 'class')
    if given == 'row':
        exp = dict(name=u'stored', n=3, f=2.5, old=u'kept')
    else:
        exp = dict(name=None, n=5, f=None, old=u'o')
    exp.update(attrs)
    exp.pop('_key', None)
    for k in exp:
        s.check(hx.equal(s, getattr(x, k), exp[k]), k)
    s.check(isinstance(x.n, (int, long)), 'number')
    s.check(x.f is None or isinstance(x.f, float), 'fraction')
    s.check(x.is_saved() == (given == 'row'), 'saved')
    if given in ('row', 'no row'):
        s.check(str(x.key()) == 'M:k', 'key')
    else:
        s.check(not x.has_key(), 'no key')
    s.reached('done')


def t_db_types(s):
    """numbers, dates, times and lists are what the property wants, and what was sent"""
    gae.install_db(s)
    enc = pick(s)
    M = type('M', (gae.Model,), dict(i=gae.IntegerProperty(), f=gae.FloatProperty(), d=gae.DateProperty(), t=gae.TimeProperty(),
                                     dt=gae.DateTimeProperty(), l=gae.ListProperty(long), b=gae.BooleanProperty(),
                                     s=gae.ListProperty(unicode)))
    pyamf.register_class(M, 'M')
    kind = s.choice('kind', ['i', 'f', 'd', 't', 'dt', 'l', 's', 'none', 'b'])
    n = s.int('n', -1001000, -1000000)
    attrs = {}
    if kind in ('i', 'f'):
        attrs[kind] = n
        form = s.choice('form', ['whole', 'float', 'fraction'])
        if form == 'float':
            attrs[kind] = -1000042.0
        elif form == 'fraction':
            attrs[kind] = s.choice('fraction', [0.5, -1000000.75, 1e-9])
        try:
            x, = sent(enc, 'M', attrs)
        except gae.BadValueError:
            s.check(form == 'fraction' and kind == 'i', 'refused')
            s.stop()
        v = getattr(x, kind)
        s.check(v == attrs[kind], 'value')
        s.check(isinstance(v, kind == 'i' and (int, long) or float), 'type')
    elif kind in ('d', 'dt', 't'):
        epoch = datetime.datetime(1970, 1, 1)
        near = datetime.timedelta(0, 0, 1000)
        if kind == 'd':
            day = s.day('day', 10000, 10000 + (s.quick and 70 or 760))
            when = datetime.datetime.combine(day, s.choice('at', [datetime.time(), datetime.time(0, 0, 1), datetime.time(23, 59)]))
        elif kind == 't':
            when = epoch + s.duration('ms', 40000000, 40070000, 1000)
        else:
            when = s.instant('when', 0, 40 * 365 * 86400 * 1000000)
        attrs[kind] = when
        x, = sent(enc, 'M', attrs)
        v = getattr(x, kind)
        if kind == 'd':
            s.check(type(v) is datetime.date and s.same(v, day), 'date')
        elif kind == 't':
            s.check(type(v) is datetime.time and abs(datetime.datetime.combine(epoch.date(), v) - when) <= near, 'time')
        else:
            s.check(isinstance(v, datetime.datetime) and abs(v - when) <= near, 'date and time')
    elif kind == 'l':
        attrs['l'] = [n, 3.0, 4][:s.choice('len', [0, 1, 2, 3])]
        x, = sent(enc, 'M', attrs)
        s.check(len(x.l) == len(attrs['l']), 'length')
        for i in range(len(x.l)):
            s.check(x.l[i] == attrs['l'][i] and isinstance(x.l[i], (int, long)), 'item')
    elif kind == 's':
        attrs['s'] = [s.uni('s', 1), u'x']
        x, = sent(enc, 'M', attrs)
        s.check(len(x.s) == 2 and x.s[0] == attrs['s'][0] and x.s[1] == u'x', 'texts')
    elif kind == 'b':
        attrs['b'] = s.bool('b')
        x, = sent(enc, 'M', attrs)
        s.check(x.b is attrs['b'], 'truth')
    else:
        for k in ('i', 'f', 'd', 't', 'dt', 'l', 'b'):
            attrs[k] = None
        x, = sent(enc, 'M', attrs)
        for k in ('i', 'f', 'd', 't', 'dt', 'b'):
            s.check(getattr(x, k) is None, k)
        s.check(x.l == [], 'list')
    s.reached('done')


def novels(s):
    A = type('Author', (gae.Model,), dict(name=gae.StringProperty()))
    N = type('N', (gae.Model,), dict(title=gae.StringProperty(), author=gae.ReferenceProperty(A, collection_name='novels')))
    return A, N


def t_db_reference(s):
    """referenced entities are sent, each fetched once, missing ones as nothing"""
    gae.install_db(s)
    enc = pick(s)
    A, N = novels(s)
    name = s.uni('name', 1)
    count = s.choice('novels', [1, 2])
    ref = s.choice('author', ['none', 'row', 'missing', 'unfetched other'])
    if ref in ('row', 'unfetched other'):
        A(name=name).put('a')
    if ref == 'unfetched other':
        A(name=u'second').put('b')
    works = []
    for i in range(count):
        w = N(title=u't%d' % (i,))
        if ref == 'unfetched other' and i:
            w.author = gae.Key('Author:b')
        elif ref != 'none':
            w.author = gae.Key('Author:a')
        works.append(w)
    by_key = s.bool('through keys')
    if by_key:
        for i in range(count):
            works[i].put('n%d' % (i,))
        value = [w.key() for w in works]
    else:
        value = works
    del gae.db_store.fetched[:]
    r = plain(enc, value)
    s.check(len(r) == count, 'all')
    for i in range(count):
        s.check(r[i]['title'] == u't%d' % (i,), 'title')
        s.check(r[i]['_key'] == (by_key and u'N:n%d' % (i,) or None), 'key')
        s.check(sorted(r[i].keys()) == ['_key', 'author', 'title'], 'attributes')
        a = r[i]['author']
        if ref in ('none', 'missing'):
            s.check(a is None, 'no author')
        elif ref == 'unfetched other' and i:
            s.check(a['name'] == u'second' and a['_key'] == u'Author:b', 'other author')
        else:
            s.check(a['name'] == name and a['_key'] == u'Author:a', 'author')
            s.check(sorted(a.keys()) == ['_key', 'name'], 'attributes of the author')
    if ref == 'row' and count == 2:
        s.check(r[0]['author'] is r[1]['author'], 'one author')
    if ref != 'missing':
        for k in gae.db_store.fetched:
            s.check(gae.db_store.fetched.count(k) == 1, 'fetched once')
    s.reached('done')


def t_db_graph(s):
    """entities that refer to each other arrive as entities that refer to each other"""
    gae.install_db(s)
    enc = pick(s)
    N = type('N', (gae.Model,), dict(title=gae.StringProperty()))
    gae.ReferenceProperty(N, collection_name='others')
    prop = gae.ReferenceProperty(N, collection_name='others')
    N.ref = prop
    prop.config(N, 'ref')
    N._properties['ref'] = prop
    pyamf.register_class(N, 'N')
    keys = []
    rows = []
    count = 2
    for i in range(count):
        rows.append(s.bool('row%d' % (i,)))
        if rows[i]:
            N(title=u'stored%d' % (i,)).put('k%d' % (i,))
    items = []
    for i in range(count):
        items.append({'_key': u'N:k%d' % (i,)})
        if s.bool('title%d' % (i,)):
            items[i]['title'] = u'%d' % (i,) + s.uni('title%d.text' % (i,), 1)
    shape = s.choice('shape', ['chain', 'list', 'shared', 'nested list', 'cycle', 'self'])
    g = [guest(x) for x in items]
    exp = [None] * count
    if shape == 'chain':
        g[0].ref = g[1]
        exp[0] = 1
        value = g[0]
    elif shape == 'cycle':
        # what refers to itself has been stored
        s.assume(rows[0] and rows[1])
        g[0].ref = g[1]
        g[1].ref = g[0]
        exp = [1, 0]
        value = g[0]
    elif shape == 'self':
        s.assume(rows[0])
        g[0].ref = g[0]
        exp[0] = 0
        value = [g[0], g[1]]
    elif shape == 'shared':
        g[0].ref = g[1]
        exp[0] = 1
        value = [g[0], g[1], g[0]]
    elif shape == 'nested list':
        value = {'a': [g[0]], 'b': {'c': g[1]}}
    else:
        value = [g[1], g[0]]
    pyamf.register_class(Guest, 'guest-class')
    data = pyamf.encode(value, encoding=enc).getvalue()
    pyamf.unregister_class(Guest)
    if enc == pyamf.AMF0:
        data = data.replace('\x10\x00\x0bguest-class', '\x10\x00\x01N')
    else:
        data = data.replace('\x17guest-class', '\x03N')
    gae.db_store.calls = 0
    r = list(pyamf.decode(data, encoding=enc))[0]
    s.check(gae.db_store.calls == 1, 'all fetched at once')
    if shape in ('chain', 'cycle'):
        r = [r, r.ref]
    elif shape == 'self':
        pass
    elif shape == 'shared':
        s.check(r[0] is r[2], 'shared')
    elif shape == 'nested list':
        r = [r['a'][0], r['b']['c']]
    else:
        r = [r[1], r[0]]
    for i in range(count):
        x = r[i]
        s.check(type(x) is N, 'class')
        s.check(str(x.key()) == 'N:k%d' % (i,), 'key')
        s.check(x.is_saved() == rows[i], 'saved')
        if 'title' in items[i]:
            s.check(x.title == items[i]['title'], 'title')
        else:
            s.check(x.title == (rows[i] and u'stored%d' % (i,) or None), 'title')
        if exp[i] is None:
            s.check(x.ref is None, 'no reference')
        else:
            s.check(x.ref is r[exp[i]], 'reference')
    s.reached('done')


def stream(s, install, make, row):
    """values decoded one after the other by one decoder"""
    enc = pick(s)
    count = s.choice('count', [2, 3])
    attrs = []
    kinds = []
    for i in range(count):
        kinds.append(s.choice('key%d' % (i,), ['none', 'row', 'no row']))
        a = {'n': s.int('n%d' % (i,), 1000000 + i * 2000, 1001000 + i * 2000)}
        if kinds[i] != 'none':
            a['_key'] = row(i, kinds[i] == 'row')
        attrs.append(a)
    r = sent(enc, 'M', *attrs)
    s.check(len(r) == count, 'all')
    return kinds, attrs, r


def t_db_stream(s):
    """several values in a row are decoded each as it would be alone"""
    gae.install_db(s)
    M = type('M', (gae.Model,), dict(name=gae.StringProperty(default=u'new'), n=gae.IntegerProperty()))
    pyamf.register_class(M, 'M')

    def row(i, there):
        if there:
            M(name=u'stored%d' % (i,), n=i).put('k%d' % (i,))
        return u'M:k%d' % (i,)
    kinds, attrs, r = stream(s, gae.install_db, M, row)
    for i in range(len(r)):
        s.check(type(r[i]) is M, 'class')
        s.check(r[i].n == attrs[i]['n'], 'number')
        s.check(r[i].name == (kinds[i] == 'row' and u'stored%d' % (i,) or u'new'), 'name')
        if kinds[i] == 'none':
            s.check(not r[i].has_key(), 'no key')
        else:
            s.check(str(r[i].key()) == 'M:k%d' % (i,), 'key')
    s.reached('done')


def t_db_readonly(s):
    """references the other way are never sent and never assigned"""
    gae.install_db(s)
    enc = pick(s)
    A, N = novels(s)
    if s.bool('derived'):
        A = type('B', (A,), {})
    pyamf.register_class(A, 'A')
    x, = sent(enc, 'A', {'name': s.uni('name', 1), 'novels': [1, 2]})
    s.check(type(x) is A, 'class')
    pyamf.unregister_class(A)
    r = plain(enc, x)
    s.check('novels' not in r or isinstance(r['novels'], list), 'sent')
    s.reached('done')


# ------------------------------------------------------------------ ndb
def t_ndb_encode(s):
    """every property under its name, and the key; nothing else; the entity is left alone"""
    gae.install_ndb(s)
    enc = pick(s)
    base = s.choice('base', ['model', 'expando', 'poly', 'bare expando'])
    members = dict(name=gae.NStringProperty(), n=gae.NIntegerProperty(), f=gae.NFloatProperty(), born=gae.NDateProperty(),
                   nums=gae.NIntegerProperty(repeated=True), days=gae.NDateProperty(repeated=True), other=gae.NKeyProperty(),
                   others=gae.NKeyProperty(repeated=True), twice=gae.NComputedProperty(lambda x: x.n * 2))
    if base == 'bare expando':
        members = {}
    M = type('M', ({'model': gae.NModel, 'expando': gae.NExpando, 'poly': gae.NPolyModel, 'bare expando': gae.NExpando}[base],), members)
    n = s.int('n', 1000000, 1001000)
    day = s.day('born', 0, 14610)
    x = M()
    names = ['_key'] + sorted(members)
    some = s.choice('lists', ['empty', 'full'])
    born = None
    if members:
        if some == 'empty':
            born = day
        x.name, x.n, x.f, x.born = s.uni('name', 1), n, 2.5, born
        if some == 'full':
            x.nums, x.days, x.others = [n, 7], [day], [gae.NKey('M', 'a'), gae.NKey('M', 'b')]
        if s.bool('other'):
            x.other = gae.NKey('M', 'z')
    if 'expando' in base:
        x.extra = n
        names.append('extra')
        if s.bool('list'):
            x.more = [n, n]
            names.append('more')
    key = None
    if s.bool('named'):
        x.key = gae.NKey('M', 'k')
        key = u'M~k'
    r = plain(enc, x)
    s.check(sorted(r.keys()) == sorted(names), 'attributes sent')
    s.check(r['_key'] == key, 'key')
    if members:
        for k in ('name', 'n', 'f'):
            s.check(hx.equal(s, r[k], getattr(x, k)), k)
        midnight = datetime.datetime.combine(day, datetime.time())
        s.check(born is None and r['born'] is None or s.same(r['born'], midnight), 'date')
        s.check(r['twice'] == n * 2, 'computed')
        s.check(r['other'] == (x.other is not None and u'M~z' or None), 'key property')
        if some == 'full':
            s.check(r['nums'] == [n, 7], 'numbers')
            s.check(len(r['days']) == 1 and s.same(r['days'][0], midnight), 'dates')
            s.check(r['others'] == [u'M~a', u'M~b'], 'keys')
            s.check(x.others == [gae.NKey('M', 'a'), gae.NKey('M', 'b')], 'keys of the entity')
            s.check(type(x.days[0]) is datetime.date and s.same(x.days[0], day), 'dates of the entity')
        else:
            s.check(r['nums'] == [] and r['days'] == [] and r['others'] == [], 'lists')
    if 'expando' in base:
        s.check(r['extra'] == n, 'dynamic property')
    s.reached('done')


def t_ndb_refused(s):
    """times cannot be sent"""
    gae.install_ndb(s)
    enc = pick(s)
    M = type('M', (gae.NModel,), dict(t=gae.NTimeProperty(), ts=gae.NTimeProperty(repeated=True), n=gae.NIntegerProperty()))
    x = M(n=s.int('n', 1000000, 1001000))
    if s.bool('list'):
        x.ts = [datetime.time(1, 2)]
    else:
        x.t = datetime.time(1, 2)
    try:
        pyamf.encode(x, encoding=enc)
    except pyamf.EncodeError:
        s.reached('refused')
        return
    s.fail('sent')


def t_ndb_decode(s):
    """an entity arrives new, loaded from its row, or with the key it was given"""
    gae.install_ndb(s)
    enc = pick(s)
    M = type('M', (gae.NModel,), dict(name=gae.NStringProperty(), n=gae.NIntegerProperty(default=5), f=gae.NFloatProperty(),
                                      nums=gae.NIntegerProperty(repeated=True), other=gae.NKeyProperty(),
                                      others=gae.NKeyProperty(repeated=True), born=gae.NDateProperty(),
                                      days=gae.NDateProperty(repeated=True), twice=gae.NComputedProperty(lambda x: x.n * 2)))
    pyamf.register_class(M, 'M')
    n = s.int('n', 1000000, 1001000)
    given = s.choice('key', ['none', 'row', 'no row', 'null'])
    if given == 'row':
        M(id='k', name=u'stored', n=3, f=2.5, nums=[1], other=gae.NKey('M', 'z')).put()
    attrs = {}
    if given in ('row', 'no row'):
        attrs['_key'] = u'M~k'
    elif given == 'null':
        attrs['_key'] = None
    exp = dict(name=None, n=5, f=None, nums=[], other=None, others=[], born=None, days=[])
    if given == 'row':
        exp.update(name=u'stored', n=3, f=2.5, nums=[1], other=gae.NKey('M', 'z'))
    send = s.choice('sent', ['nothing', 'n', 'float', 'fraction', 'name', 'f', 'nums', 'nums none', 'other', 'other none', 'others', 'born', 'days',
                             'computed', 'nulls'])
    if send == 'n':
        attrs['n'] = exp['n'] = n
    elif send == 'float':
        attrs['n'] = exp['n'] = 8.0
    elif send == 'fraction':
        attrs['n'] = s.choice('fraction', [0.5, -2.75, 1e9 + 0.25])
    elif send == 'name':
        attrs['name'] = exp['name'] = s.uni('name', 1)
    elif send == 'f':
        attrs['f'] = n
        exp['f'] = n
    elif send == 'nums':
        attrs['nums'] = exp['nums'] = [n, 4.0]
    elif send == 'nums none':
        attrs['nums'] = None
        exp['nums'] = []
    elif send == 'other':
        attrs['other'] = u'M~q'
        exp['other'] = gae.NKey('M', 'q')
    elif send == 'other none':
        attrs['other'] = exp['other'] = None
    elif send == 'others':
        attrs['others'] = [u'M~q', u'M~r']
        exp['others'] = [gae.NKey('M', 'q'), gae.NKey('M', 'r')]
    elif send in ('born', 'days'):
        day = s.day('day', 0, 14610)
        when = datetime.datetime.combine(day, datetime.time())
        attrs[send] = send == 'born' and when or [when]
        exp[send] = send == 'born' and day or [day]
    elif send == 'computed':
        attrs['twice'] = n
    elif send == 'nulls':
        for k in ('name', 'n', 'f', 'born'):
            attrs[k] = exp[k] = None
    try:
        x, = sent(enc, 'M', attrs)
    except gae.BadValueError:
        s.check(send == 'fraction', 'refused')
        s.stop()
    s.check(send != 'fraction', 'a whole number made of a fraction')
    s.check(type(x) is M, 'class')
    for k in exp:
        v = getattr(x, k)
        if isinstance(exp[k], list):
            s.check(len(v) == len(exp[k]), k)
            for i in range(len(v)):
                if k == 'days':
                    s.check(s.same(v[i], exp[k][i]), k)
                else:
                    s.check(v[i] == exp[k][i], k)
        elif k == 'born' and exp[k] is not None:
            s.check(s.same(v, exp[k]), k)
        else:
            s.check(v == exp[k], k)
    if x.n is not None:
        s.check(isinstance(x.n, (int, long)), 'number')
        s.check(x.twice == x.n * 2, 'computed')
    if given in ('row', 'no row'):
        s.check(x.key == gae.NKey('M', 'k'), 'key')
    else:
        s.check(x.key is None, 'no key')
    s.reached('done')


def t_ndb_stream(s):
    """several values in a row are decoded each as it would be alone"""
    gae.install_ndb(s)
    M = type('M', (gae.NModel,), dict(name=gae.NStringProperty(default=u'new'), n=gae.NIntegerProperty()))
    pyamf.register_class(M, 'M')

    def row(i, there):
        if there:
            M(id='k%d' % (i,), name=u'stored%d' % (i,), n=i).put()
        return u'M~k%d' % (i,)
    kinds, attrs, r = stream(s, gae.install_ndb, M, row)
    for i in range(len(r)):
        s.check(type(r[i]) is M, 'class')
        s.check(r[i].n == attrs[i]['n'], 'number')
        s.check(r[i].name == (kinds[i] == 'row' and u'stored%d' % (i,) or u'new'), 'name')
        if kinds[i] == 'none':
            s.check(r[i].key is None, 'no key')
        else:
            s.check(r[i].key == gae.NKey('M', 'k%d' % (i,)), 'key')
    s.reached('done')


def t_ndb_keys(s):
    """a key stands for its entity, one entity for all objects with its key; queries are lists"""
    gae.install_ndb(s)
    enc = pick(s)
    M = type('M', (gae.NModel,), dict(n=gae.NIntegerProperty()))
    n = s.int('n', 1000000, 1001000)
    there = s.bool('row')
    if there:
        M(id='a', n=n).put()
    items = []
    for i in range(2):
        what = s.choice('item%d' % (i,), ['key', 'entity', 'other', 'query', 'unsaved'])
        if what == 'key':
            items.append((what, gae.NKey('M', 'a')))
        elif what == 'entity':
            items.append((what, M(id='a', n=n)))
        elif what == 'other':
            items.append((what, M(id='b', n=7)))
        elif what == 'unsaved':
            items.append((what, M(n=8)))
        else:
            items.append((what, gae.NQuery([M(id='c', n=9)])))
    r = plain(enc, [x[1] for x in items])
    entity = False
    s.check(len(r) == 2, 'all')
    first = None
    missing = False
    for i in range(2):
        what = items[i][0]
        if what == 'key' and not there and first is None:
            s.check(r[i] is None, 'no entity')
            missing = True
        elif what in ('key', 'entity'):
            if missing:
                # the message has said that there is no such entity
                continue
            s.check(r[i]['n'] == n and r[i]['_key'] == u'M~a', 'entity')
            if first is not None:
                s.check(r[i] is first, 'one entity')
            first = r[i]
        elif what == 'other':
            s.check(r[i]['n'] == 7 and r[i]['_key'] == u'M~b', 'other entity')
        elif what == 'unsaved':
            s.check(r[i]['n'] == 8 and r[i]['_key'] is None, 'unsaved entity')
        else:
            s.check(isinstance(r[i], list) and len(r[i]) == 1 and r[i][0]['n'] == 9, 'query')
    s.check(len(gae.ndb_store.fetched) <= 1, 'fetched once')
    s.reached('done')
