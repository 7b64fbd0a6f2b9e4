# A model of the parts of App Engine's db and ndb the adapters use, as documented. Both keep their rows in one dictionary
# per store and count what is fetched.
import datetime


class BadValueError(Exception):
    pass


class BadKeyError(Exception):
    pass


class NotSavedError(Exception):
    pass


class ReferencePropertyResolveError(Exception):
    pass


# ------------------------------------------------------------------ db
class Key(object):
    """of db: named by kind and name"""
    def __init__(self, encoded=None):
        if not isinstance(encoded, basestring) or encoded.count(':') != 1:
            raise BadKeyError(encoded)
        self._kind, self._name = str(encoded).split(':')

    @classmethod
    def from_path(cls, kind, name):
        return cls('%s:%s' % (kind, name))

    def kind(self):
        return self._kind

    def id_or_name(self):
        return self._name

    def __str__(self):
        return '%s:%s' % (self._kind, self._name)

    def __eq__(self, other):
        return isinstance(other, Key) and (self._kind, self._name) == (other._kind, other._name)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self._kind, self._name))


class Store(object):
    def __init__(self):
        self.rows = {}
        self.fetched = []
        self.calls = 0


db_store = Store()
ndb_store = Store()
kinds = {}


def db_get(keys):
    db_store.calls += 1
    if isinstance(keys, Key):
        return _db_load(keys)
    return [_db_load(k) for k in keys]


def _db_load(key):
    db_store.fetched.append(str(key))
    row = db_store.rows.get(str(key))
    if row is None:
        return None
    klass, values, dynamic = row
    obj = klass.__new__(klass)
    obj.__dict__.update(_entity=row, _key=key, _parent=None, _key_name=None, _app=None)
    for prop in klass.properties().values():
        prop._load(obj, values.get(prop.name))
    if issubclass(klass, Expando):
        obj._dynamic_properties = dict(dynamic)
    return obj


class Property(object):
    data_type = object

    def __init__(self, default=None):
        self.default, self.name = default, None

    def _attr_name(self):
        return '_' + self.name

    def config(self, klass, name):
        self.name = name
        self.model_class = klass

    def default_value(self):
        return self.default

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return getattr(obj, self._attr_name(), None)

    def __set__(self, obj, value):
        setattr(obj, self._attr_name(), self.validate(value))

    def _load(self, obj, value):
        setattr(obj, self._attr_name(), value)

    def validate(self, value):
        if value is not None and not isinstance(value, self.data_type):
            raise BadValueError('%s: %r' % (self.name, value))
        return value

    def get_value_for_datastore(self, obj):
        return self.__get__(obj, obj.__class__)


class StringProperty(Property):
    data_type = basestring


class IntegerProperty(Property):
    def validate(self, value):
        if value is not None and (not isinstance(value, (int, long)) or isinstance(value, bool)):
            raise BadValueError('%s: %r' % (self.name, value))
        return value


class FloatProperty(Property):
    data_type = float


class BooleanProperty(Property):
    data_type = bool


class DateTimeProperty(Property):
    data_type = datetime.datetime


class DateProperty(DateTimeProperty):
    def validate(self, value):
        if value is not None and (not isinstance(value, datetime.date) or isinstance(value, datetime.datetime)):
            raise BadValueError('%s: %r' % (self.name, value))
        return value


class TimeProperty(DateTimeProperty):
    data_type = datetime.time


class ListProperty(Property):
    def __init__(self, item_type, default=None):
        Property.__init__(self, default)
        self.item_type = item_type

    def default_value(self):
        return list(self.default or [])

    def validate(self, value):
        if not isinstance(value, list):
            raise BadValueError('%s: %r' % (self.name, value))
        types = self.item_type
        if types in (int, long):
            types = (int, long)
        for x in value:
            if not isinstance(x, types):
                raise BadValueError('%s: %r' % (self.name, value))
        return value


class _ReverseReferenceProperty(object):
    def __init__(self, klass, name):
        self.klass, self.name = klass, name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return Query([])

    def __set__(self, obj, value):
        raise BadValueError('Virtual property is read-only')


class ReferenceProperty(Property):
    def __init__(self, reference_class, collection_name=None):
        Property.__init__(self)
        self.reference_class, self.collection_name = reference_class, collection_name

    def config(self, klass, name):
        Property.config(self, klass, name)
        setattr(self.reference_class, self.collection_name or klass.__name__.lower() + '_set',
                _ReverseReferenceProperty(klass, name))

    def _resolved(self):
        return '_RESOLVED' + self._attr_name()

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        key = getattr(obj, self._attr_name(), None)
        if key is None:
            return None
        found = getattr(obj, self._resolved())
        if found is None:
            found = db_get(key)
            if found is None:
                raise ReferencePropertyResolveError(self.name)
            setattr(obj, self._resolved(), found)
        return found

    def __set__(self, obj, value):
        value = self.validate(value)
        key, found = None, None
        if isinstance(value, Key):
            key = value
        elif value is not None:
            key, found = value.key(), value
        setattr(obj, self._attr_name(), key)
        setattr(obj, self._resolved(), found)

    def _load(self, obj, value):
        setattr(obj, self._attr_name(), value)
        setattr(obj, self._resolved(), None)

    def get_value_for_datastore(self, obj):
        return getattr(obj, self._attr_name())

    def validate(self, value):
        if isinstance(value, Key):
            return value
        if value is not None and not value.has_key():
            raise BadValueError('needs a complete key')
        if value is not None and not isinstance(value, self.reference_class):
            raise BadValueError('%s: %r' % (self.name, value))
        return value


class PropertiedClass(type):
    def __init__(cls, name, bases, dct):
        type.__init__(cls, name, bases, dct)
        cls._properties = {}
        for b in bases:
            cls._properties.update(getattr(b, '_properties', {}))
        for k in dct.keys():
            if isinstance(dct[k], Property):
                dct[k].config(cls, k)
                cls._properties[k] = dct[k]
        kinds[name] = cls


class Model(object):
    __metaclass__ = PropertiedClass

    def __init__(self, parent=None, key_name=None, _app=None, key=None, **kw):
        self._entity = None
        self._parent, self._key_name, self._app, self._key = parent, key_name, _app, key
        for prop in self._properties.values():
            if prop.name in kw:
                value = kw.pop(prop.name)
            else:
                value = prop.default_value()
            prop.__set__(self, value)
        self._other(kw)

    def _other(self, kw):
        pass

    @classmethod
    def kind(cls):
        return cls.__name__

    @classmethod
    def properties(cls):
        return dict(cls._properties)

    def dynamic_properties(self):
        return []

    def is_saved(self):
        return self._entity is not None

    def has_key(self):
        return self.is_saved() or self._key is not None or self._key_name is not None

    def key(self):
        if self._key is not None:
            return self._key
        if self._key_name:
            return Key.from_path(self.kind(), self._key_name)
        raise NotSavedError()

    def put(self, name=None):
        if self._key is None:
            self._key = Key.from_path(self.kind(), name or self._key_name)
        values = dict((p.name, p.get_value_for_datastore(self)) for p in self._properties.values())
        self._entity = (self.__class__, values, dict(self.__dict__.get('_dynamic_properties') or {}))
        db_store.rows[str(self._key)] = self._entity
        return self._key


class Expando(Model):
    _dynamic_properties = None

    def _other(self, kw):
        self._dynamic_properties = {}
        for k in kw:
            setattr(self, k, kw[k])

    def __setattr__(self, k, v):
        if k[:1] != '_' and k not in self._properties:
            if self._dynamic_properties is None:
                self._dynamic_properties = {}
            self._dynamic_properties[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__.get('_dynamic_properties')
        if d and k in d:
            return d[k]
        raise AttributeError(k)

    def dynamic_properties(self):
        return list(self._dynamic_properties or {})


class PolyModel(Model):
    _class = ListProperty(str)


PolyModel._properties['_class'] = PolyModel.__dict__['_class']


class Query(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


# ------------------------------------------------------------------ ndb
class NKey(object):
    def __init__(self, kind=None, id=None, urlsafe=None):
        if urlsafe is not None:
            if not isinstance(urlsafe, basestring) or urlsafe.count('~') != 1:
                raise TypeError('Incorrect padding')
            kind, id = str(urlsafe).split('~')
        self._k, self._id = kind, id

    def kind(self):
        return self._k

    def id(self):
        return self._id

    def urlsafe(self):
        return '%s~%s' % (self._k, self._id)

    def get(self):
        ndb_store.calls += 1
        return _ndb_load(self)

    def __eq__(self, other):
        return isinstance(other, NKey) and (self._k, self._id) == (other._k, other._id)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self._k, self._id))


def _ndb_load(key):
    ndb_store.fetched.append(key.urlsafe())
    row = ndb_store.rows.get(key.urlsafe())
    if row is None:
        return None
    klass, values = row
    obj = klass.__new__(klass)
    obj._values = {}
    obj._entity_key = key
    if issubclass(klass, NExpando):
        obj._clone_properties()
    for k in values:
        v = values[k]
        if isinstance(v, list):
            v = list(v)
        if k not in obj._properties:
            obj._dynamic(k, v)
        obj._values[k] = v
    return obj


def get_multi(keys):
    ndb_store.calls += 1
    return [_ndb_load(k) for k in keys]


class NProperty(object):
    data_type = object

    def __init__(self, repeated=False, default=None):
        self._repeated, self._default, self._name = repeated, default, None

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return self._get_value(obj)

    def _get_value(self, obj):
        if self._repeated:
            return obj._values.setdefault(self._name, [])
        return obj._values.get(self._name, self._default)

    def __set__(self, obj, value):
        self._set_value(obj, value)

    def _set_value(self, obj, value):
        if self._repeated:
            if not isinstance(value, (list, tuple, set, frozenset)):
                raise BadValueError('Expected list or tuple')
            value = [self._check(v) for v in value]
        elif value is not None:
            value = self._check(value)
        obj._values[self._name] = value

    def _check(self, value):
        if not isinstance(value, self.data_type):
            raise BadValueError('%s: %r' % (self._name, value))
        return value


class NStringProperty(NProperty):
    data_type = basestring


class NIntegerProperty(NProperty):
    def _check(self, value):
        if not isinstance(value, (int, long)):
            raise BadValueError('%s: %r' % (self._name, value))
        return int(value)


class NFloatProperty(NProperty):
    def _check(self, value):
        if not isinstance(value, (int, long, float)):
            raise BadValueError('%s: %r' % (self._name, value))
        return float(value)


class NDateTimeProperty(NProperty):
    data_type = datetime.datetime


class NDateProperty(NDateTimeProperty):
    def _check(self, value):
        if not isinstance(value, datetime.date) or isinstance(value, datetime.datetime):
            raise BadValueError('%s: %r' % (self._name, value))
        return value


class NTimeProperty(NDateTimeProperty):
    data_type = datetime.time


class NKeyProperty(NProperty):
    data_type = NKey


class NGenericProperty(NProperty):
    pass


class ComputedPropertyError(Exception):
    pass


class NComputedProperty(NProperty):
    def __init__(self, func):
        NProperty.__init__(self)
        self._func = func

    def _get_value(self, obj):
        return self._func(obj)

    def _set_value(self, obj, value):
        raise ComputedPropertyError(self._name)


class ModelKey(object):
    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj._entity_key

    def __set__(self, obj, value):
        obj._entity_key = value


class MetaModel(type):
    def __init__(cls, name, bases, dct):
        type.__init__(cls, name, bases, dct)
        cls._properties = {}
        for b in bases:
            cls._properties.update(getattr(b, '_properties', {}))
        for k in dct.keys():
            if isinstance(dct[k], NProperty):
                dct[k]._name = k
                cls._properties[k] = dct[k]
        cls._kind_map[name] = cls


class _NotEqualMixin(object):
    def __ne__(self, other):
        return not self == other


class NModel(_NotEqualMixin):
    __metaclass__ = MetaModel
    _kind_map = {}
    key = ModelKey()
    _key = key

    def __init__(self, key=None, id=None, **kw):
        self._values = {}
        self._entity_key = key
        if id is not None:
            self._entity_key = NKey(self.__class__.__name__, id)
        self._set_attributes(kw)

    def _set_attributes(self, kw):
        for k in kw:
            prop = getattr(self.__class__, k)
            if not isinstance(prop, NProperty):
                raise TypeError('Cannot set non-property %s' % (k,))
            prop._set_value(self, kw[k])

    def __eq__(self, other):
        return other.__class__ is self.__class__ and self._entity_key == other._entity_key and self._values == other._values

    def __hash__(self):
        raise TypeError('Model is not immutable')

    @classmethod
    def query(cls):
        return NQuery([])

    def put(self):
        values = {}
        for name in self._properties:
            v = self._properties[name]._get_value(self)
            if isinstance(v, list):
                v = list(v)
            if not isinstance(self._properties[name], NComputedProperty):
                values[name] = v
        ndb_store.rows[self._entity_key.urlsafe()] = (self.__class__, values)
        return self._entity_key


class NExpando(NModel):
    def _set_attributes(self, kw):
        for k in kw:
            setattr(self, k, kw[k])

    def _clone_properties(self):
        if '_properties' not in self.__dict__:
            self.__dict__['_properties'] = dict(self.__class__._properties)

    def _dynamic(self, k, v):
        self._clone_properties()
        p = NGenericProperty(repeated=isinstance(v, list))
        p._name = k
        self._properties[k] = p
        return p

    def __getattr__(self, k):
        if k[:1] == '_':
            raise AttributeError(k)
        p = self._properties.get(k)
        if p is None:
            raise AttributeError(k)
        return p._get_value(self)

    def __setattr__(self, k, v):
        if k[:1] == '_' or isinstance(getattr(self.__class__, k, None), (NProperty, ModelKey)):
            object.__setattr__(self, k, v)
            return
        self._dynamic(k, v)._set_value(self, v)


class NPolyModel(NModel):
    pass


NPolyModel._properties['class'] = NProperty(repeated=True)
NPolyModel._properties['class']._name = 'class'


class NQuery(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def _packages(s):
    s.provide('google', {}, [])
    s.provide('google.appengine', {}, [])
    s.provide('google.appengine.ext', {}, [])


def install_db(s):
    _packages(s)
    s.provide('google.appengine.ext.db', dict(
        Model=Model, Expando=Expando, Key=Key, Query=Query, get=db_get, class_for_kind=lambda k: kinds[k], Property=Property,
        StringProperty=StringProperty, IntegerProperty=IntegerProperty, FloatProperty=FloatProperty, BooleanProperty=BooleanProperty,
        DateTimeProperty=DateTimeProperty, DateProperty=DateProperty, TimeProperty=TimeProperty, ListProperty=ListProperty,
        ReferenceProperty=ReferenceProperty, _ReverseReferenceProperty=_ReverseReferenceProperty, NotSavedError=NotSavedError,
        BadKeyError=BadKeyError, BadValueError=BadValueError, ReferencePropertyResolveError=ReferencePropertyResolveError), [])
    s.provide('google.appengine.ext.db.polymodel', {'PolyModel': PolyModel})
    from pyamf.adapters import _google_appengine_ext_db
    return _google_appengine_ext_db


def install_ndb(s):
    _packages(s)
    s.provide('google.appengine.ext.ndb', dict(
        Model=NModel, Expando=NExpando, Key=NKey, Query=NQuery, get_multi=get_multi, Property=NProperty, StringProperty=NStringProperty,
        IntegerProperty=NIntegerProperty, FloatProperty=NFloatProperty, DateTimeProperty=NDateTimeProperty, DateProperty=NDateProperty,
        TimeProperty=NTimeProperty, KeyProperty=NKeyProperty, ComputedProperty=NComputedProperty), [])
    s.provide('google.appengine.ext.ndb.polymodel', {'PolyModel': NPolyModel})
    s.provide('google.appengine.ext.ndb.model', {'_NotEqualMixin': _NotEqualMixin})
    from pyamf.adapters import _google_appengine_ext_ndb
    return _google_appengine_ext_ndb
