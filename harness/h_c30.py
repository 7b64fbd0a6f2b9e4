# C30: Django models and mapped properties arrive as what the database holds
import datetime
import pyamf
from pyamf.adapters import models as handlers
import hx
import dj
import sa

MODELS = ['datetime', 'calendar']
BOUNDS = ('models with number, text, date, time, file and key fields, foreign keys, many-to-many fields, multi-table and proxy inheritance; '
          'every date and time within a day, texts of 1 character, numbers of 1000 values; all combinations of fetched and unfetched '
          'relations, of attributes sent and left out, of rows present and absent; both AMF versions; every order of up to 2 (thorough: 3) '
          'property handlers over a hierarchy of 3 property classes')
ASSUMPTIONS = ['Django is not installed: fields, model options, managers, relation descriptors and query sets are modelled as documented '
               'for Django 1.4 to 1.7 (harness/dj.py)',
               'two objects of one class with one primary key stand for the same row: the first one encoded stands for both']
PRELOAD = ['pyamf.amf3', 'pyamf.adapters.models', 'pyamf.adapters.util']


def simple(s, **kw):
    return dj.define('Simple', [dj.CharField('name', ''), dj.IntegerField('n', 0)], **kw)


def there(s, enc, value):
    return list(pyamf.decode(pyamf.encode(value, encoding=enc).getvalue(), encoding=enc))[0]


class Guest(object):
    pass


def sent(enc, alias, attrs):
    """decode what a client sends as an object of that class"""
    g = Guest()
    g.__dict__.update(attrs)
    pyamf.register_class(Guest, 'guest-class')
    data = pyamf.encode(g, encoding=enc).getvalue()
    pyamf.unregister_class(Guest)
    if enc == pyamf.AMF0:
        data = data.replace('\x10\x00\x0bguest-class', '\x10\x00\x01' + alias, 1)
    else:
        data = data.replace('\x17guest-class', '\x03' + alias, 1)
    return list(pyamf.decode(data, encoding=enc))[0]


def t_fields(s):
    """every plain field is sent under its name and comes back with its value"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    M = dj.define('M', [dj.CharField('name', ''), dj.IntegerField('n', 0)])
    registered = s.bool('registered')
    if registered:
        pyamf.register_class(M, 'M')
    x = M(name=s.uni('name', 1), n=s.int('n', 1000000, 1001000))
    kind = s.choice('pk', ['unsaved', 'saved', 'undefined'])
    if kind == 'saved':
        x.id = 5
    elif kind == 'undefined':
        x.id = dj.NOT_PROVIDED
    dynamic = s.bool('dynamic')
    if dynamic:
        x.extra = 7
        x._private = 8
    names = ['id', 'n', 'name'] + (dynamic and ['extra'] or [])
    if not registered:
        r = there(s, enc, x)
        s.check(set(r.keys()) == set(names), 'what is sent')
        s.check(r['id'] is {'unsaved': None, 'undefined': pyamf.Undefined}.get(kind, r['id']), 'primary key')
        get = r.__getitem__
    else:
        r = there(s, enc, x)
        s.check(type(r) is M, 'class')
        if kind == 'undefined':
            s.check(r.id is dj.NOT_PROVIDED, 'primary key')
        get = lambda k: getattr(r, k)
        s.check(not hasattr(r, '_private'), 'private attribute')
    s.check(hx.equal(s, x.name, get('name')) and hx.equal(s, x.n, get('n')), 'values')
    if dynamic:
        s.check(get('extra') == 7, 'other attributes')
    s.check(x._state.__class__ is dj.State, 'object untouched')


def t_dates(s):
    """dates are sent as their midnight, times as that time of the first of January 1970, and return as they were"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    T = dj.define('T', [dj.TimeField('t'), dj.DateField('d'), dj.DateTimeField('dt')])
    registered = s.bool('registered')
    if registered:
        pyamf.register_class(T, 'T')
    x = T()
    which = s.choice('which', ['time', 'date', 'datetime', 'none'])
    near = datetime.timedelta(milliseconds=1)
    epoch = datetime.datetime(1970, 1, 1)
    instant = None
    if which == 'time':
        lo, n = 0, 86399998
        if registered:
            lo, n = s.choice('from', [0, 43199500, 86398990]), 1008
        instant = epoch + s.duration('ms', lo, lo + n, 1000)
        x.t = instant.time()
    elif which == 'date':
        lo = s.choice('year', s.quick and [10957] or [-25567, -10, 10957, 24000])
        x.d = s.day('day', lo, lo + (s.quick and 70 or 760))
        instant = datetime.datetime.combine(x.d, datetime.time(0, 0))
    elif which == 'datetime':
        x.dt = instant = s.instant('i', -10 ** 15, 3 * 10 ** 15)
    r = there(s, enc, x)
    if not registered:
        names = {'time': 't', 'date': 'd', 'datetime': 'dt'}
        for k in ('t', 'd', 'dt'):
            if names.get(which) == k:
                s.check(isinstance(r[k], datetime.datetime) and abs(r[k] - instant) <= near, 'sent')
            else:
                s.check(r[k] is None, 'sent')
        return
    s.check(type(r) is T, 'class')
    if which == 'time':
        s.check(type(r.t) is datetime.time and abs(datetime.datetime.combine(epoch.date(), r.t) - instant) <= near, 'time')
    else:
        s.check(r.t is None, 'time')
    if which == 'date':
        s.check(type(r.d) is datetime.date and r.d == x.d, 'date')
    else:
        s.check(r.d is None, 'date')
    if which == 'datetime':
        s.check(abs(r.dt - x.dt) <= near, 'date and time')
    else:
        s.check(r.dt is None, 'date and time')


def t_relations(s):
    """a related object is sent when it was fetched, and nothing about it otherwise; encoding fetches nothing"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    A = dj.define('A', [dj.CharField('name', '')])
    B = dj.define('B', [dj.ForeignKey('a', A), dj.IntegerField('n', 0)], extra=[dj.ForeignObjectRel('c')])
    A.objects.rows.append({'id': 3, 'name': u'three'})
    pyamf.register_class(A, 'A')
    registered = s.bool('registered')
    if registered:
        pyamf.register_class(B, 'B')
    x = B(n=s.int('n', 1000000, 1001000))
    state = s.choice('state', ['none', 'unfetched', 'fetched', 'assigned'])
    if state in ('unfetched', 'fetched'):
        x.a_id = 3
    if state == 'fetched':
        x.a
    if state == 'assigned':
        x.a = A(id=3, name=s.uni('name', 1))
    before = A.objects.queries
    data = pyamf.encode(x, encoding=enc).getvalue()
    s.check(A.objects.queries == before, 'fetched for encoding')
    r = list(pyamf.decode(data, encoding=enc))[0]
    if not registered:
        s.check(set(r.keys()) == set(['id', 'n'] + (state in ('fetched', 'assigned') and ['a'] or [])), 'what is sent')
        a = r.get('a')
    else:
        s.check(type(r) is B, 'class')
        a = r.__dict__.get('_a_cache')
        s.check(r.a_id == (state in ('fetched', 'assigned') and 3 or None), 'key of the relation')
    if state in ('fetched', 'assigned'):
        s.check(type(a) is A and a.id == 3 and hx.equal(s, x.a.name, a.name), 'related object')
    else:
        s.check(a is None, 'related object')


def t_many(s):
    """many-to-many relations are sent as the list of what is related and assigned on arrival"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    A = dj.define('A', [dj.CharField('name', '')])
    B = dj.define('B', [dj.ManyToManyField('many', A)])
    pyamf.register_class(A, 'A')
    pyamf.register_class(B, 'B')
    x = B(id=9)
    n = s.choice('n', 3)
    A.objects.rows.extend([{'id': k + 1, 'name': u'stored'} for k in range(n)])
    x.many = [A(id=k + 1, name=s.uni('name%d' % k, 1)) for k in range(n)]
    there_already = s.bool('row')
    if there_already:
        B.objects.rows.append({'id': 9})
    data = pyamf.encode(x, encoding=enc).getvalue()
    if not there_already:
        return
    expect = list(x.many)
    A.links.clear()
    r = list(pyamf.decode(data, encoding=enc))[0]
    got = list(r.many)
    s.check(type(r) is B and r.id == 9 and len(got) == n, 'related objects')
    for i in range(n):
        s.check(type(got[i]) is A and got[i].id == i + 1 and hx.equal(s, expect[i].name, got[i].name), 'related object')


def t_unsaved_many(s):
    """an unsaved object sent back with empty relations is accepted"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    A = dj.define('A', [])
    B = dj.define('B', [dj.CharField('name', ''), dj.ManyToManyField('many', A)])
    pyamf.register_class(B, 'B')
    attrs = {}
    attrs['id'] = s.choice('pk', [None, 0])
    attrs['name'] = s.uni('name', 1)
    if s.bool('many'):
        attrs['many'] = []
    r = sent(enc, 'B', attrs)
    s.check(type(r) is B and r.id is None and hx.equal(s, attrs['name'], r.name), 'object')


def t_partial(s):
    """attributes that were not sent are left as they are"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    S = simple(s)
    pyamf.register_class(S, 'S')
    row = s.bool('row')
    if row:
        S.objects.rows.append({'id': 4, 'name': u'stored', 'n': 40})
    attrs = {}
    pk = s.choice('pk', ['absent', None, 4])
    if pk != 'absent':
        attrs['id'] = pk
    name, n = s.bool('send name'), s.bool('send n')
    if name:
        attrs['name'] = s.uni('name', 1)
    if n:
        attrs['n'] = s.int('n', 1000000, 1001000)
    r = sent(enc, 'S', attrs)
    s.check(type(r) is S, 'class')
    loaded = row and pk == 4
    if name:
        s.check(hx.equal(s, attrs['name'], r.name), 'sent')
    else:
        s.check(r.name == (loaded and u'stored' or ''), 'not sent')
    if n:
        s.check(hx.equal(s, attrs['n'], r.n), 'sent')
    else:
        s.check(r.n == (loaded and 40 or 0), 'not sent')
    if loaded:
        s.check(r.id == 4, 'primary key')


def t_same_row(s):
    """objects that stand for one row arrive as one object, others apart"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    A, B = simple(s), dj.define('Other', [dj.CharField('name', '')])
    items = []
    keys = []
    for i in range(s.quick and 3 or 4):
        c = s.choice('class%d' % i, [A, B])
        k = s.choice('key%d' % i, [None, 1, 2])
        items.append(c(id=k, name=u'%d' % i))
        keys.append((c, k))
    r = there(s, enc, items)
    for i in range(len(items)):
        first = i
        if keys[i][1] is not None:
            first = keys.index(keys[i])
        s.check(r[i]['name'] == u'%d' % first, 'which object')
        for j in range(i):
            same = keys[i][1] is not None and keys[i] == keys[j]
            s.check((r[i] is r[j]) == same, 'identity')
    again = there(s, enc, [A(id=1, name=u'new')])
    s.check(again[0]['name'] == u'new', 'other messages are not affected')


def t_inheritance(s):
    """inherited fields are sent once, the link to the parent row is not, for proxies either"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    kind = s.choice('kind', ['concrete', 'proxy'])
    Place = dj.define('Place', [dj.CharField('name', '')])
    if kind == 'concrete':
        link = dj.OneToOneField('place_ptr', Place)
        Cafe = dj.define('Cafe', [dj.AutoField('id'), dj.CharField('name', ''), link, dj.IntegerField('tables', 0)], Place, {Place: link}, pk='place_ptr_id')
    else:
        Cafe = dj.define('Cafe', [dj.CharField('name', '')], Place, {Place: None})
        Cafe.tables = 0
    x = Cafe(name=s.uni('name', 1))
    x.tables = s.int('tables', 1000000, 1001000)
    x.id = 6
    if kind == 'concrete':
        x.place_ptr_id = 6
    r = there(s, enc, x)
    s.check(set(r.keys()) == set(['id', 'name', 'tables']), 'what is sent')
    s.check(r['id'] == 6 and hx.equal(s, x.name, r['name']) and hx.equal(s, x.tables, r['tables']), 'values')


def t_files(s):
    """a file is sent as its name and never assigned"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    F = dj.define('F', [dj.FileField('file'), dj.CharField('text', '')])
    pyamf.register_class(F, 'F')
    x = F(text=s.uni('text', 1))
    x.file = dj.FieldFile(s.uni('name', 1))
    data = pyamf.encode(x, encoding=enc).getvalue()
    r = list(pyamf.decode(data, encoding=enc))[0]
    s.check(type(r) is F and r.file is None and hx.equal(s, x.text, r.text), 'object')
    pyamf.unregister_class(F)
    r = list(pyamf.decode(data, encoding=enc))[0]
    s.check(hx.equal(s, x.file.name, r['file']), 'name sent')


def t_queries(s):
    """query sets are sent as the list of their objects"""
    dj.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    n = s.choice('n', 3)
    x = s.int('x', 1000000, 1001000)
    r = there(s, enc, [dj.QuerySet([x] * n), dj.NOT_PROVIDED])
    s.check(len(r) == 2 and len(r[0]) == n and all(hx.equal(s, x, k) for k in r[0]), 'query')
    s.check(r[1] is pyamf.Undefined, 'not provided')


# ------------------------------------------------------------------ handlers of mapped properties
class P(object):
    pass


class Q(P):
    pass


class R(Q):
    pass


class Apart(object):
    pass


def t_handlers(s):
    """the handler registered for a property's class, or for a base of it, converts its values, and no others; nothing is registered twice"""
    side = s.choice('side', ['encoder', 'decoder'])
    register = side == 'encoder' and handlers.register_property_encoder or handlers.register_property_decoder
    table = {}
    LOG = []
    obj = object()

    def handler(i, c):
        def h(o, prop, value):
            LOG.append((i, o, prop))
            return [i, value]
        return h
    for i in range(s.quick and 2 or 3):
        c = s.choice('class%d' % i, [P, Q, R, Apart])
        replace = s.bool('replace%d' % i)
        h = handler(i, c)
        try:
            got = register(c, replace)(h)
            s.check(c not in table or replace, 'replaced')
            s.check(got is h, 'decorator gives back the function')
            table[c] = i
        except KeyError:
            s.check(c in table and not replace, 'refused')
    convert = side == 'encoder' and handlers.encode_model_properties or handlers.decode_model_properties
    c = s.choice('property', [P, Q, R, Apart, int])
    prop = c()
    x = s.int('x', 1000000, 1001000)
    attrs = {'known': x, 'other': x}
    r = convert(obj, {'known': prop, 'absent': P()}, attrs)
    s.check(set(r.keys()) == set(['known', 'other']), 'names')
    s.check(s.same(r['other'], x), 'not a property')
    if c in table:
        s.check(r['known'][0] == table[c] and s.same(r['known'][1], x), 'own handler')
    else:
        bases = [k for k in table if issubclass(c, k)]
        if not bases:
            s.check(s.same(r['known'], x) and LOG == [], 'no handler')
        else:
            s.check(r['known'][0] in [table[k] for k in bases] and s.same(r['known'][1], x), 'handler of a base')
    for i, o, pr in LOG:
        s.check(o is obj and pr is prop, 'what handlers get')


# ------------------------------------------------------------------ SQLAlchemy
def t_mapped(s):
    """mapped attributes are sent with their values, the primary key and what is not loaded; they return as they were"""
    sa.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    C = sa.define('C', ['id', 'name', 'n'], 'id')
    exclude = s.choice('exclude', [(), ('sa_key',), ('sa_lazy',), ('sa_key', 'sa_lazy')])
    if exclude:
        C.__amf__ = {'exclude': exclude}
    registered = s.bool('registered')
    if registered:
        pyamf.register_class(C, 'C')
    name, n = s.uni('name', 1, s.quick and 0x7f or 0xffff), s.int('n', 1000000, 1001000)
    C.row = {'id': 5, 'name': name, 'n': n}
    loaded = s.choice('loaded', [(), ('id',), ('name', 'n'), ('id', 'name', 'n')])
    x = sa.new(C, **dict((k, C.row[k]) for k in loaded))
    extra = s.bool('extra')
    if extra:
        x.extra = 7
    r = there(s, enc, x)
    if registered:
        s.check(type(r) is C and type(r._sa_instance_state) is sa.InstanceState, 'object of the mapper')
        s.check(set(r.__dict__) == set(['_sa_instance_state', 'id', 'name', 'n'] + (extra and ['extra'] or [])), 'attributes')
        r = r.__dict__
    else:
        expect = ['id', 'name', 'n'] + (extra and ['extra'] or []) + [k for k in ('sa_key', 'sa_lazy') if k not in exclude]
        s.check(set(r.keys()) == set(expect), 'attributes')
        if 'sa_key' not in exclude:
            s.check(r['sa_key'] == [5], 'primary key')
        if 'sa_lazy' not in exclude:
            s.check(r['sa_lazy'] == [], 'all loaded')
    s.check(r['id'] == 5 and hx.equal(s, name, r['name']) and hx.equal(s, n, r['n']), 'values')
    if extra:
        s.check(r['extra'] == 7, 'other attribute')


def t_lazy(s):
    """attributes sent as not loaded are left to be loaded from the row; the key sent is not an attribute"""
    sa.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    C = sa.define('C', ['id', 'name', 'n'], 'id')
    pyamf.register_class(C, 'C')
    C.row = {'id': 5, 'name': u'stored', 'n': 50}
    lazy = [k for k in ('id', 'name', 'n') if s.bool('lazy ' + k)]
    attrs = {'id': s.int('id', 1000000, 1001000), 'name': s.uni('name', 1, s.quick and 0x7f or 0xffff), 'n': s.int('n', 1000000, 1001000)}
    missing = s.choice('leave out', [None, 'id', 'name', 'n'])
    if missing:
        del attrs[missing]
    attrs['sa_lazy'] = lazy
    if s.bool('key'):
        attrs['sa_key'] = [5]
    r = sent(enc, 'C', attrs)
    s.check(type(r) is C, 'class')
    s.check('sa_lazy' not in r.__dict__ and 'sa_key' not in r.__dict__, 'not attributes')
    for k in ('id', 'name', 'n'):
        if k in lazy or k == missing:
            s.check(k not in r.__dict__ and k not in r._sa_instance_state.committed_state, 'left to be loaded')
            s.check(getattr(r, k) == C.row[k], 'loaded from the row')
        else:
            s.check(hx.equal(s, attrs[k], getattr(r, k)), 'value sent')


def t_collections(s):
    """collections of mapped objects are sent as plain lists and dictionaries"""
    sa.install(s)
    enc = s.choice('encoding', [pyamf.AMF0, pyamf.AMF3])
    x = s.int('x', 1000000, 1001000)
    n = s.choice('n', 3)
    items = [x, u'text'][:n]
    kind = s.choice('kind', ['list', 'set', 'dict'])
    if kind == 'list':
        r = there(s, enc, sa.InstrumentedList(items))
        s.check(type(r) is list and hx.equal(s, items, r), 'list')
    elif kind == 'set':
        r = there(s, enc, sa.InstrumentedSet([u'text', 5][:n]))
        s.check(type(r) is list and len(r) == n and set(r) == set([u'text', 5][:n]), 'set')
    else:
        r = there(s, enc, sa.InstrumentedDict((u'k%d' % i, items[i]) for i in range(n)))
        s.check(len(r) == n and all(hx.equal(s, items[i], r[u'k%d' % i]) for i in range(n)), 'dictionary')


def t_unmapped(s):
    """classes that are not mapped are treated as without the adapter"""
    adapter = sa.install(s)
    class Plain(object):
        pass
    C = sa.define('C', ['id'], 'id')
    refuse = s.bool('checker')
    if refuse:
        adapter.class_checkers.append(lambda k: k is C)
    s.check(adapter.is_class_sa_mapped(Plain) is False and adapter.is_class_sa_mapped(Plain()) is False, 'plain class')
    s.check(adapter.is_class_sa_mapped(C) is not refuse and adapter.is_class_sa_mapped(sa.new(C)) is not refuse, 'mapped class')
    pyamf.register_class(Plain, 'Plain')
    pyamf.register_class(C, 'C')
    s.check(type(pyamf.get_class_alias(Plain)) is pyamf.ClassAlias, 'alias of a plain class')
    s.check((type(pyamf.get_class_alias(C)) is adapter.SaMappedClassAlias) is not refuse, 'alias of a mapped class')
