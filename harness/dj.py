# A model of the parts of Django's ORM the adapters use, as documented (Django 1.4 to 1.7).


class NOT_PROVIDED:
    pass


class Field(object):
    def __init__(self, name, default=None):
        self.name = self.attname = name
        self.default = default


class AutoField(Field):
    pass


class CharField(Field):
    pass


class IntegerField(Field):
    pass


class DateField(Field):
    pass


class DateTimeField(DateField):
    pass


class TimeField(Field):
    pass


class FieldFile(object):
    def __init__(self, name):
        self.name = name


class FileField(Field):
    pass


class ForeignKey(Field):
    def __init__(self, name, to):
        Field.__init__(self, name)
        self.attname = name + '_id'
        self.to = to


class OneToOneField(ForeignKey):
    pass


class ManyToManyField(Field):
    def __init__(self, name, to):
        Field.__init__(self, name)
        self.to = to


class ForeignObjectRel(object):
    def __init__(self, name):
        self.name = name


class DoesNotExist(Exception):
    pass


class QuerySet(object):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def all(self):
        return QuerySet(self.items)

    def iterator(self):
        return iter(self.items)

    def first(self):
        for x in self.items:
            return x

    def exists(self):
        return len(self.items) > 0

    def count(self):
        return len(self.items)

    def get(self):
        if not self.items:
            raise DoesNotExist()
        return self.items[0]


class Manager(object):
    def __init__(self, klass):
        self.klass = klass
        self.rows = []
        self.queries = 0

    def filter(self, **kw):
        self.queries += 1
        (name, value), = kw.items()
        if name in ('pk', 'pk__exact'):
            name = self.klass._meta.pk.attname
        return QuerySet([self.klass._load(r) for r in self.rows if r[name] == value])

    def get(self, **kw):
        r = list(self.filter(**kw))
        if not r:
            raise self.klass.DoesNotExist()
        assert len(r) == 1
        return r[0]

    def all(self):
        self.queries += 1
        return QuerySet([self.klass._load(r) for r in self.rows])


class Options(object):
    def __init__(self, fields, pk, parents, extra):
        self.fields, self.pk, self.parents, self.extra = fields, pk, parents, extra

    def get_all_field_names(self):
        return [f.name for f in self.fields] + [x.name for x in self.extra]

    def get_field_by_name(self, name):
        for f in self.fields + self.extra:
            if f.name == name:
                return (f, None, True, False)
        raise KeyError(name)

    def get_field(self, name):
        return self.get_field_by_name(name)[0]


class State(object):
    pass


class RelatedDescriptor(object):
    """the attribute of a foreign key: fetched on first use and kept in _name_cache"""
    def __init__(self, field):
        self.field = field

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        f = self.field
        cache = '_%s_cache' % f.name
        if cache not in obj.__dict__:
            key = obj.__dict__.get(f.attname)
            if key is None:
                return None
            obj.__dict__[cache] = f.to.objects.filter(pk=key)[0]
        return obj.__dict__[cache]

    def __set__(self, obj, value):
        obj.__dict__['_%s_cache' % self.field.name] = value
        obj.__dict__[self.field.attname] = value is not None and value.pk or None


class ManyDescriptor(object):
    def __init__(self, field):
        self.field = field

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if obj.pk is None:
            raise ValueError('needs to have a value for its primary key')
        return QuerySet(self.field.to.links.setdefault((obj.__class__, obj.pk), []))

    def __set__(self, obj, value):
        if obj.pk is None:
            raise ValueError('needs to have a value for its primary key')
        self.field.to.links[(obj.__class__, obj.pk)] = list(value)


class ModelBase(type):
    pass


class Model(object):
    __metaclass__ = ModelBase

    def __init__(self, **kw):
        self._state = State()
        for f in self._meta.fields:
            if isinstance(f, ManyToManyField):
                continue
            if isinstance(f, ForeignKey):
                self.__dict__[f.attname] = None
            else:
                self.__dict__[f.attname] = kw.pop(f.name, f.default)
        for k in kw:
            setattr(self, k, kw[k])

    @classmethod
    def _load(cls, row):
        obj = cls()
        obj.__dict__.update(row)
        return obj

    @property
    def pk(self):
        return self.__dict__[self._meta.pk.attname]

    def _get_pk_val(self):
        return self.pk


def define(name, fields, base=Model, parents=None, extra=(), pk='id', **members):
    """a model class with these fields"""
    if not [f for f in fields if f.name == pk or f.attname == pk]:
        fields = [AutoField(pk)] + fields
    members['__module__'] = 'application'
    for f in fields:
        if isinstance(f, ManyToManyField):
            members[f.name] = ManyDescriptor(f)
        elif isinstance(f, ForeignKey):
            members[f.name] = RelatedDescriptor(f)
    cls = type(name, (base,), members)
    cls._meta = Options(fields, [f for f in fields if pk in (f.name, f.attname)][0], parents or {}, list(extra))
    cls.objects = cls._default_manager = Manager(cls)
    cls.DoesNotExist = DoesNotExist
    cls.links = {}
    return cls


def install(s):
    """make it importable, and load the adapters"""
    s.provide('django', {}, [])
    s.provide('django.core', {}, [])
    s.provide('django.core.exceptions', {'ObjectDoesNotExist': DoesNotExist})
    s.provide('django.db', {}, [])
    fields = dict((c.__name__, c) for c in (Field, AutoField, CharField, IntegerField, DateField, DateTimeField, TimeField))
    fields['NOT_PROVIDED'] = NOT_PROVIDED
    names = dict(fields, Model=Model, ForeignKey=ForeignKey, ManyToManyField=ManyToManyField, FileField=FileField, OneToOneField=OneToOneField)
    s.provide('django.db.models', names, [])
    s.provide('django.db.models.base', {'Model': Model})
    s.provide('django.db.models.fields', fields, [])
    s.provide('django.db.models.fields.files', {'FileField': FileField, 'FieldFile': FieldFile})
    s.provide('django.db.models.fields.related', {'ForeignObjectRel': ForeignObjectRel})
    s.provide('django.db.models.query', {'QuerySet': QuerySet})
    from pyamf.adapters import _django_db_models_base, _django_db_models_fields, _django_db_models_query
    return _django_db_models_base
