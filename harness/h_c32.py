# C32: points, blobs, translated texts and Elixir entities
import datetime
import pyamf
from pyamf import adapters, util
import hx
import sa

BOUNDS = ('points of any two doubles in range, blobs with texts of 1 character and any size up to 10^6, texts of up to 2 characters; Elixir entities with '
          '3 attributes and every combination of foreign keys, polymorphism and parent; single values, lists, values met twice; both AMF versions')
ASSUMPTIONS = ['App Engine, Django, Elixir and SQLAlchemy are not installed: points, blobs, lazy texts and entity descriptors are modelled as documented',
               'a point that a peer names without coordinates, or with some that are not on the globe, is refused with any error']
PRELOAD = ['pyamf.amf3', 'pyamf.adapters.util']


class BadValueError(Exception):
    pass


class GeoPt(object):
    lat = None
    lon = None

    def __init__(self, lat, lon=None):
        if lon is None:
            lat, lon = lat.split(',')
        lat, lon = float(lat), float(lon)
        if lat < -90 or lat > 90 or lon < -180 or lon > 180:
            raise BadValueError('not on the globe')
        self.lat, self.lon = lat, lon


class BlobKey(object):
    def __init__(self, key):
        if not isinstance(key, basestring) or len(key) > 20:
            raise BadValueError(key)
        self._key = str(key)

    def __str__(self):
        return self._key

    def __eq__(self, o):
        return isinstance(o, BlobKey) and o._key == self._key


ROWS = {}


class BlobInfo(object):
    """what is known of a blob, read from its row on first use"""
    def __init__(self, key):
        if isinstance(key, BlobInfo) or not isinstance(key, (BlobKey, basestring)):
            raise TypeError(key)
        self._BlobInfo__key = isinstance(key, BlobKey) and key or BlobKey(key)

    def key(self):
        return self._BlobInfo__key

    def _get(self, name):
        return ROWS[str(self.key())][name]
    content_type = property(lambda self: self._get('content_type'))
    filename = property(lambda self: self._get('filename'))
    size = property(lambda self: self._get('size'))
    creation = property(lambda self: self._get('creation'))


def app_engine(s):
    GeoPt.__module__ = 'google.appengine.api.datastore_types'
    BlobInfo.__module__ = 'google.appengine.ext.blobstore'
    s.provide('google', {}, [])
    s.provide('google.appengine', {}, [])
    s.provide('google.appengine.api', {}, [])
    s.provide('google.appengine.ext', {}, [])
    s.provide('google.appengine.api.datastore_types', {'GeoPt': GeoPt})
    s.provide('google.appengine.ext.blobstore', {'BlobInfo': BlobInfo, 'BlobKey': BlobKey})
    ROWS.clear()


def arrive(s, value, enc):
    """the value in a list, twice, with a value after it"""
    r = hx.decode_one(s, hx.encode([value, u'between', value, 7], enc), enc)
    s.check(len(r) == 4 and r[1] == u'between' and r[3] == 7, 'values around')
    s.check(r[0] is r[2], 'one object')
    return r[0]


def t_point(s):
    """a point arrives as that point"""
    app_engine(s)
    adapters.get_adapter('google.appengine.api.datastore_types')
    enc = s.choice('enc', [0, 3])
    lat, lon = s.float('lat'), s.float('lon')
    s.assume(s.And(lat >= -90, lat <= 90, lon >= -180, lon <= 180))
    p = GeoPt(lat, lon)
    r = arrive(s, p, enc)
    s.check(type(r) is GeoPt, 'class')
    s.check(hx.num_same(s, r.lat, lat), 'latitude')
    s.check(hx.num_same(s, r.lon, lon), 'longitude')
    s.check(sorted(r.__dict__) == ['lat', 'lon'], 'attributes')
    s.check(p.lat is lat or hx.num_same(s, p.lat, lat), 'left alone')


def t_point_sent(s):
    """a point is sent with its coordinates and nothing else"""
    app_engine(s)
    adapters.get_adapter('google.appengine.api.datastore_types')
    enc = s.choice('enc', [0, 3])
    p = GeoPt(s.choice('lat', [0.0, -12.5, 90]), s.choice('lon', [0.0, 3.25, -180]))
    if s.bool('more'):
        p.extra = s.int('extra', 1000000, 1001000)
    data = hx.encode(p, enc).replace('google.', 'goggle.')
    r = hx.decode_one(s, data, enc)
    s.check(type(r) is pyamf.TypedObject and r.alias == 'goggle.appengine.api.datastore_types.GeoPt', 'class')
    s.check(dict(r) == {'lat': p.lat, 'lon': p.lon}, 'attributes')


class Peer(object):
    pass


def t_point_made(s):
    """a point a peer makes: extra attributes do not get in"""
    app_engine(s)
    adapters.get_adapter('google.appengine.api.datastore_types')
    enc = s.choice('enc', [0, 3])
    attrs = {}
    for k, values in (('lat', [None, 12.5, u'7', 91, u'x']), ('lon', [None, 3.25, -7, -181])):
        v = s.choice(k, values)
        if v is not None:
            attrs[k] = v
    if s.bool('more'):
        attrs['extra'] = attrs['__init__'] = 5
    o = Peer()
    o.__dict__.update(attrs)
    pyamf.unregister_class(GeoPt)
    pyamf.register_class(Peer, 'google.appengine.api.datastore_types.GeoPt')
    data = hx.encode(o, enc)
    pyamf.unregister_class(Peer)
    pyamf.register_class(GeoPt, 'google.appengine.api.datastore_types.GeoPt')
    good = attrs.get('lat') in (12.5, u'7') and attrs.get('lon') in (3.25, -7)
    try:
        r = hx.decode_one(s, data, enc)
    except Exception:
        s.check(not good, 'refused')
        s.stop()
    s.check(good, 'accepted')
    s.check(type(r) is GeoPt and r.__dict__ == {'lat': float(attrs['lat']), 'lon': attrs['lon']}, 'point')


def t_blob(s):
    """a blob is sent with what is known of it; it arrives as the blob of that key"""
    app_engine(s)
    adapters.get_adapter('google.appengine.ext.blobstore')
    enc = s.choice('enc', [0, 3])
    key = s.choice('key', ['k', 'a-long-key'])
    row = {'content_type': s.uni('type', 1), 'filename': s.choice('named', [None, u'f']), 'size': s.int('size', 1000000, 1001000),
           'creation': datetime.datetime(2012, 3, 4, 5, 6, 7)}
    ROWS[key] = row
    b = BlobInfo(BlobKey(key))
    r = arrive(s, b, enc)
    s.check(type(r) is BlobInfo and r.key() == b.key(), 'blob')
    data = hx.encode(b, enc).replace('google.', 'goggle.')
    r = hx.decode_one(s, data, enc)
    s.check(r.alias == 'goggle.appengine.ext.blobstore.BlobInfo', 'class')
    s.check(sorted(r) == ['content_type', 'creation', 'filename', 'key', 'size'], 'attributes')
    s.check(r['key'] == key, 'key')
    for k in row:
        s.check(r[k] == row[k], k)


def t_blob_made(s):
    """a blob a peer names: by its key alone, refused without a good one"""
    app_engine(s)
    adapters.get_adapter('google.appengine.ext.blobstore')
    enc = s.choice('enc', [0, 3])
    attrs = {}
    key = s.choice('key', ['missing', None, u'', u'k', u'k' * 21, 5, [u'k']])
    if key != 'missing':
        attrs['key'] = key
    if s.bool('more'):
        attrs.update(size=s.int('size', 1000000, 1001000), filename=u'f', other=1)
    ROWS['k'] = {'size': 5, 'filename': u'g'}
    o = Peer()
    o.__dict__.update(attrs)
    name = 'google.appengine.ext.blobstore.BlobInfo'
    pyamf.unregister_class(BlobInfo)
    pyamf.register_class(Peer, name)
    data = hx.encode(o, enc)
    pyamf.unregister_class(Peer)
    pyamf.register_class(BlobInfo, name)
    try:
        r = hx.decode_one(s, data, enc)
    except pyamf.DecodeError:
        s.check(key != u'k', 'refused')
        s.reached('refused')
        return
    s.check(key == u'k', 'accepted')
    s.check(type(r) is BlobInfo and str(r.key()) == 'k', 'blob')
    s.check(r.size == 5 and r.filename == u'g', 'what is known of it')


# ------------------------------------------------------------------ Django's lazy texts
class Lazy(object):
    """a text translated when it is used"""
    def __init__(self, f):
        self.f = f

    def __unicode__(self):
        return unicode(self.f())

    def __str__(self):
        return str(self.f())


def t_lazy(s):
    """lazily translated texts are sent as the text of that moment"""
    flags = s.choice('flags', [{'_delegate_text': True}, {'_delegate_text': False, '_delegate_bytes': True, '_delegate_str': True},
                               {'_delegate_unicode': True, '_delegate_str': False}, {'_delegate_unicode': False, '_delegate_str': True},
                               {'_delegate_text': False, '_delegate_str': False}])
    P = type('Proxy', (Lazy,), flags)
    s.provide('django', {}, [])
    s.provide('django.utils', {}, [])
    s.provide('django.utils.translation', {'ugettext_lazy': lambda text: P(lambda: text)})
    adapters.get_adapter('django.utils.translation')
    enc = s.choice('enc', [0, 3])
    table = {'now': s.uni('first', 2, 0x7f)}
    x = P(lambda: table['now'])
    kind = [k for k in flags if flags[k]]
    for i in range(2):
        where = s.choice('where%d' % (i,), ['alone', 'list', 'dict'])
        value = {'alone': x, 'list': [x, 1], 'dict': {u'k': x}}[where]
        try:
            r = hx.decode_one(s, hx.encode(value, enc), enc)
        except (ValueError, pyamf.EncodeError):
            s.check(not kind, 'refused')
            return
        s.check(kind != [], 'accepted')
        r = {'alone': lambda: r, 'list': lambda: r[0], 'dict': lambda: r[u'k']}[where]()
        s.check(s.is_(r, unicode) and r == table['now'], 'text')
        table['now'] = s.uni('second', 1, 0x7f) + u'second'


# ------------------------------------------------------------------ Elixir
class Descriptor(object):
    def __init__(self, tablename, parent, constraints, polymorphic):
        self.tablename, self.parent, self.constraints, self.polymorphic = tablename, parent, constraints, polymorphic


class Constraint(object):
    def __init__(self, columns):
        self.columns = columns


class Column(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class EntityBase(object):
    pass


class Entity(EntityBase):
    pass


def is_entity(cls):
    return isinstance(cls, type) and issubclass(cls, EntityBase) and hasattr(cls, '_descriptor')


def entity(name, base, names, key, **kw):
    cls = type(name, (base,), dict((n, sa.Attribute(n)) for n in names))
    cls.row, cls.loads = {}, []
    parent = hasattr(base, '_descriptor') and base or None
    cls._descriptor = Descriptor('table', parent, kw.get('constraints', []), kw.get('polymorphic'))
    cls._global_session = object()
    sa.MAPPERS[cls] = sa.Mapper(cls, names, key)
    return cls


def t_elixir(s):
    """an entity is sent with its mapped attributes, its key, without foreign keys and type column; and arrives with them"""
    sa.install(s)
    version = s.choice('version', ['0.6.9', '0.5.2'])
    import sqlalchemy
    sqlalchemy.__version__ = version
    from pyamf.adapters import _sqlalchemy_orm
    _sqlalchemy_orm.__version__ = version
    s.provide('elixir', {'EntityBase': EntityBase, 'Entity': Entity}, [])
    s.provide('elixir.entity', {'is_entity': is_entity})
    m = adapters.get_adapter('elixir')
    enc = s.choice('enc', [0, 3])
    names = ['id', 'text', 'fk', 'kind']
    hidden = set()
    constraints = []
    if s.bool('foreign key'):
        constraints.append(Constraint([Column(version == '0.6.9' and 'fk' or 'table.fk')]))
        hidden.add('fk')
    if s.bool('other table') and version != '0.6.9':
        constraints.append(Constraint([Column('other.text')]))
    poly = s.bool('polymorphic') and 'kind' or None
    if poly:
        hidden.add('kind')
    base = s.choice('base', ['entity', 'base', 'entity of entity'])
    top = base == 'base' and EntityBase or Entity
    if base == 'entity of entity':
        top = entity('Top', Entity, ['id', 'text'], 'id')
    E = entity('E', top, names, 'id', constraints=constraints, polymorphic=poly)
    n = s.int('n', 1000000, 1001000)
    x = sa.new(E, id=n, fk=n + 1, kind=u'e')
    loaded = s.bool('loaded')
    if loaded:
        x.__dict__['text'] = s.uni('text', 1)
    E.row['text'] = u'row'
    E.row['id'] = n
    pyamf.register_class(E, 'E')
    s.check(type(pyamf.get_class_alias(E)) is m.ElixirAdapter, 'adapter')
    data = hx.encode(x, enc)
    pyamf.unregister_class(E)
    r = hx.decode_one(s, data, enc)
    exp = ['id', 'sa_key', 'sa_lazy', 'text'] + [k for k in ('fk', 'kind') if k not in hidden]
    s.check(sorted(r) == sorted(exp), 'attributes sent')
    s.check(r['id'] == n and r['sa_key'] == [n], 'key')
    if loaded:
        s.check(r['text'] == x.__dict__['text'], 'text')
    if 'fk' not in hidden:
        s.check(r['fk'] == n + 1, 'number')
    pyamf.register_class(E, 'E')
    y = hx.decode_one(s, data, enc)
    s.check(type(y) is E, 'class')
    s.check(y.id == n, 'key')
    if loaded:
        s.check(y.text == x.__dict__['text'], 'text')
    for k in ('fk', 'kind'):
        s.check((k in y.__dict__) == (k not in hidden), 'hidden attributes')
    s.check('_global_session' not in y.__dict__ and 'sa_key' not in y.__dict__ and 'sa_lazy' not in y.__dict__, 'nothing else')
