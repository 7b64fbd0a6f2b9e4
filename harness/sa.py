# A model of the parts of SQLAlchemy's ORM the adapter uses, as documented.


class UnmappedClassError(Exception):
    pass


class InstrumentedList(list):
    pass


class InstrumentedSet(set):
    pass


class InstrumentedDict(dict):
    pass


class Property(object):
    def __init__(self, key):
        self.key = key


class InstanceState(object):
    def __init__(self, obj):
        self.dict = obj.__dict__
        self.committed_state = {}


class ClassManager(object):
    def __init__(self, klass):
        self.klass = klass

    def new_instance(self):
        obj = self.klass.__new__(self.klass)
        obj._sa_instance_state = InstanceState(obj)
        return obj


class Mapper(object):
    def __init__(self, klass, names, key):
        self.klass, self.key = klass, key
        self.class_ = klass
        self.iterate_properties = [Property(n) for n in names]
        self.attrs = self.iterate_properties
        self.class_manager = ClassManager(klass)

    def primary_key_from_instance(self, obj):
        return [getattr(obj, self.key)]


class Attribute(object):
    """a mapped attribute: loaded from the row on first use"""
    def __init__(self, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            cls.loads.append(self.name)
            obj.__dict__[self.name] = cls.row.get(self.name)
        return obj.__dict__[self.name]

    def __set__(self, obj, value):
        state = obj._sa_instance_state
        state.committed_state[self.name] = obj.__dict__.get(self.name)
        obj.__dict__[self.name] = value


MAPPERS = {}


def class_mapper(klass):
    if klass not in MAPPERS:
        raise UnmappedClassError(klass)
    return MAPPERS[klass]


def define(name, names, key):
    members = dict((n, Attribute(n)) for n in names)
    members['__module__'] = 'application'
    cls = type(name, (object,), members)
    cls.row, cls.loads = {}, []
    MAPPERS[cls] = Mapper(cls, names, key)
    return cls


def new(cls, **kw):
    obj = MAPPERS[cls].class_manager.new_instance()
    obj.__dict__.update(kw)
    return obj


def instance_state(obj):
    return obj._sa_instance_state


def instance_dict(obj):
    return obj.__dict__


def object_mapper(obj):
    return class_mapper(obj.__class__)


def install(s):
    MAPPERS.clear()
    s.provide('sqlalchemy', {'__version__': '0.9.8'}, [])
    s.provide('sqlalchemy.orm', {'class_mapper': class_mapper, 'object_mapper': object_mapper}, [])
    s.provide('sqlalchemy.orm.attributes', {'instance_state': instance_state, 'instance_dict': instance_dict})
    s.provide('sqlalchemy.orm.collections', {'InstrumentedList': InstrumentedList, 'InstrumentedSet': InstrumentedSet,
                                             'InstrumentedDict': InstrumentedDict})
    from pyamf.adapters import _sqlalchemy_orm, _sqlalchemy_orm_collections
    return _sqlalchemy_orm
