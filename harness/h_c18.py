# C18: class aliases expose exactly the attributes they are configured to expose
import pyamf
from pyamf import remoting, util
from pyamf.flex import ArrayCollection, ObjectProxy
import hx

BOUNDS = ('hierarchies of up to 3 classes, new-style and old-style; every placement of one attribute in the static, exclude, readonly, proxy '
          'and synonym options of the class or its base, every combination of the dynamic option; pairs of attributes with synonyms naming '
          'each other; properties, slots, dict classes, external classes, exceptions; every attribute name of up to 2 characters from the wire; '
          'AMF0 and AMF3')
ASSUMPTIONS = ['a property that overrides one of a base class has the same accessors', 'every slot of a sealed object is set when encoding',
               'name and message of an exception are sent always',
               'the base classes of a class are compiled with the options they have when the class is first used']
PRELOAD = ['pyamf.amf3', 'pyamf.flex']


def setup():
    pass


def teardown():
    for k in [k for k, v in pyamf.CLASS_CACHE.items() if getattr(v.klass, '__module__', None) == __name__]:
        pyamf.CLASS_CACHE.pop(k, None)


def sent(s, obj, enc, alias='K'):
    """the attributes on the wire"""
    data = pyamf.encode(obj, encoding=enc).getvalue()
    pyamf.unregister_class(obj.__class__)
    v = hx.decode_one(s, data, enc)
    s.check(type(v) is pyamf.TypedObject and v.alias == alias, 'typed object')
    return dict(v)


class Client(dict):
    pass


def received(s, klass, attrs, enc):
    """the instance that a client sending these attributes makes, None if refused"""
    pyamf.register_class(Client, 'K')
    o = Client()
    o.update(attrs)
    data = pyamf.encode(o, encoding=enc).getvalue()
    pyamf.unregister_class(Client)
    pyamf.register_class(klass, 'K')
    try:
        v = hx.decode_one(s, data, enc)
    except pyamf.DecodeError:
        return None
    s.check(v.__class__ is klass, 'class')
    return v


def same_attrs(s, a, b):
    if len(a) != len(b):
        return False
    r = True
    for k in a:
        if k not in b:
            return False
        r = s.And(r, hx.equal(s, a[k], b[k]))
    return r


class Options(object):
    """the options of one class"""
    def __init__(self):
        self.static, self.exclude, self.readonly, self.proxy = [], [], [], []
        self.synonym, self.dynamic = {}, None

    def meta(self, form):
        d = {}
        for k in ('static', 'exclude', 'readonly', 'proxy', 'synonym'):
            if getattr(self, k):
                d[k] = getattr(self, k)
        if self.dynamic is not None:
            d['dynamic'] = self.dynamic
        if form == 'dict':
            return d

        class __amf__:
            pass
        for k in d:
            setattr(__amf__, k, d[k])
        return __amf__


class Merged(object):
    """what the options of a class and its bases (nearest first) amount to"""
    def __init__(self, *levels):
        self.static, self.exclude, self.readonly, self.proxy = set(), set(), set(), set()
        self.synonym, self.dynamic = {}, None
        for o in levels:
            self.static.update(o.static)
            self.exclude.update(o.exclude)
            self.readonly.update(o.readonly)
            self.proxy.update(o.proxy)
            for k in o.synonym:
                self.synonym.setdefault(k, o.synonym[k])
            if self.dynamic is None:
                self.dynamic = o.dynamic
        if self.dynamic is None:
            self.dynamic = True
        self.static.difference_update(self.exclude)

    def sent(self, attrs, enc):
        out = {}
        for k in attrs:
            if k in self.exclude or not (self.dynamic or k in self.static):
                continue
            v = attrs[k]
            out[self.synonym.get(k, k)] = v
        for k in self.static:
            if k not in attrs:
                out[self.synonym.get(k, k)] = pyamf.Undefined
        return out

    def set(self, attrs):
        """None: refused"""
        names = dict([(v, k) for k, v in self.synonym.items()])
        got = dict([(k, attrs[k]) for k in attrs if k not in names])
        got.update(dict([(names[k], attrs[k]) for k in attrs if k in names]))
        for k in self.static:
            if k not in got:
                return None
        out = {}
        for k in got:
            if k not in self.exclude and k not in self.readonly and (self.dynamic or k in self.static):
                out[k] = got[k]
        return out


def place(s, name, own, base, where=('no', 'own', 'base')):
    """an option of attribute a: of the class, its base or not given"""
    w = s.choice(name, list(where))
    if w == 'no':
        return
    o = w == 'own' and own or base
    if name == 'synonym':
        o.synonym = {'a': 'A'}
    else:
        setattr(o, name, ['a'])


def two(s, own, base, form):
    root = s.choice('style', [object, hx.Old])

    class B(root):
        __amf__ = base.meta(form)

    class K(B):
        __amf__ = own.meta(form)
    return B, K


def t_one_sent(s):
    """one attribute in any combination of options, of the class or its base: what is sent"""
    enc = s.choice('enc', [0, 3])
    own, base = Options(), Options()
    for o in ('static', 'exclude'):
        place(s, o, own, base)
    place(s, 'synonym', own, base, s.quick and ('no', 'own') or ('no', 'own', 'base'))
    if not s.quick:
        place(s, 'readonly', own, base)
    own.dynamic = s.choice('dynamic', [None, False, True])
    base.dynamic = s.choice('base dynamic', [None, False])
    B, K = two(s, own, base, s.quick and 'dict' or s.choice('form', ['dict', 'class']))
    pyamf.register_class(K, 'K')
    o = K()
    x = s.int('x', 1000000, 1001000)
    o.z = x + 1
    if s.bool('present'):
        o.a = x
    got = sent(s, o, enc)
    s.check(same_attrs(s, Merged(own, base).sent(o.__dict__, enc), got), 'sent')


def t_one_set(s):
    """one attribute in any combination of options, of the class or its base: what is set"""
    enc = s.choice('enc', [0, 3])
    own, base = Options(), Options()
    for o in ('static', 'exclude', 'readonly', 'synonym'):
        place(s, o, own, base, s.quick and o != 'exclude' and ('no', 'own') or ('no', 'own', 'base'))
    own.dynamic = s.choice('dynamic', [None, False, True])
    base.dynamic = s.quick and [None] or s.choice('base dynamic', [None, False])
    if s.quick:
        base.dynamic = None
    B, K = two(s, own, base, 'class')
    x = s.int('x', 1000000, 1001000)
    attrs = {}
    if s.bool('a'):
        attrs['a'] = x
    if own.synonym or base.synonym:
        if s.bool('A'):
            attrs['A'] = x + 1
    if s.bool('z'):
        attrs['z'] = x + 2
    v = received(s, K, attrs, enc)
    want = Merged(own, base).set(attrs)
    if want is None:
        s.check(v is None, 'static attribute missing')
    else:
        s.check(v is not None, 'refused')
        s.check(same_attrs(s, want, v.__dict__), 'set')


def t_pair(s):
    """two attributes whose synonyms name each other or one another's attribute"""
    enc = s.choice('enc', [0, 3])
    own, base = Options(), Options()
    own.synonym = s.choice('synonym', [{'a': 'b', 'b': 'a'}, {'a': 'b'}, {'a': 'b', 'b': 'c'}, {'b': 'c'}, {'a': 'c'}])
    base.synonym = s.choice('base synonym', [{}, {'b': 'd'}])
    if s.quick:
        setattr(own, s.choice('option', ['static', 'exclude', 'readonly', 'none']), ['b'])
    else:
        for k in ('static', 'exclude', 'readonly'):
            setattr(own, k, s.choice(k, [[], ['b']]))
    own.dynamic = s.choice('dynamic', [None, False])
    B, K = two(s, own, base, 'dict')
    m = Merged(own, base)
    x = s.int('x', 1000000, 1001000)
    if s.bool('encode'):
        pyamf.register_class(K, 'K')
        o = K()
        o.a, o.b = x, x + 1
        if own.synonym == {'a': 'b'} and not base.synonym and m.dynamic and not m.exclude:
            s.stop()        # two attributes of the same name on the wire
        got = sent(s, o, enc)
        s.check(same_attrs(s, m.sent({'a': x, 'b': x + 1}, enc), got), 'sent')
    else:
        attrs = {}
        for i in range(4):
            if s.bool('abcd'[i]):
                attrs['abcd'[i]] = x + i
        v = received(s, K, attrs, enc)
        want = m.set(attrs)
        if want is None:
            s.check(v is None, 'static attribute missing')
        else:
            s.check(v is not None, 'refused')
            s.check(same_attrs(s, want, v.__dict__), 'set')


def t_three(s):
    """three classes: the nearest class that says so decides whether it is dynamic; the other options add up"""
    enc = s.quick and 3 or s.choice('enc', [0, 3])
    levels = [Options(), Options(), Options()]
    for i in range(3):
        levels[i].dynamic = s.choice('dynamic%d' % i, [None, False, True])
    levels[s.choice('static', 3)].static = ['p']
    levels[s.choice('exclude', 3)].exclude = ['q']
    levels[s.quick and 2 or s.choice('readonly', 3)].readonly = ['r']
    root = s.choice('style', [object, hx.Old])

    class A(root):
        __amf__ = levels[2].meta('dict')

    class B(A):
        __amf__ = levels[1].meta('dict')

    class K(B):
        __amf__ = levels[0].meta('dict')
    if s.bool('registered'):
        pyamf.register_class(A, 'A')
        pyamf.register_class(B)
    m = Merged(*levels)
    x = s.int('x', 1000000, 1001000)
    attrs = {'p': x, 'q': x + 1, 'r': x + 2, 't': x + 3}
    pyamf.register_class(K, 'K')
    o = K()
    o.p, o.q, o.r, o.t = x, x + 1, x + 2, x + 3
    got = sent(s, o, enc)
    s.check(same_attrs(s, m.sent(attrs, enc), got), 'sent')
    v = received(s, K, attrs, enc)
    s.check(same_attrs(s, m.set(attrs), v.__dict__), 'set')


def t_two_bases(s):
    """several bases: in the order of method resolution"""
    first, second, own = Options(), Options(), Options()
    first.dynamic, second.dynamic = s.choice('first', [None, False, True]), s.choice('second', [None, False, True])
    first.exclude, second.exclude = ['a'], ['b']
    first.synonym, second.synonym = {'c': 'C'}, {'c': 'D', 'd': 'E'}
    second.readonly, second.static = ['d'], ['c', 'd']

    class A(object):
        __amf__ = first.meta('dict')

    class B(object):
        __amf__ = second.meta('dict')

    class K(A, B):
        __amf__ = own.meta('dict')
    m = Merged(own, first, second)
    # a base that says nothing is dynamic
    m.dynamic = first.dynamic is not False
    x = s.int('x', 1000000, 1001000)
    pyamf.register_class(K, 'K')
    o = K()
    o.a, o.b, o.c, o.d, o.e = x, x, x, x + 1, x + 2
    enc = s.choice('enc', [0, 3])
    got = sent(s, o, enc)
    s.check(same_attrs(s, m.sent(o.__dict__, enc), got), 'sent')
    attrs = {'a': x, 'b': x, 'C': x + 1, 'E': x, 'f': x + 2}
    v = received(s, K, attrs, enc)
    s.check(same_attrs(s, m.set(attrs), v.__dict__), 'set')


def t_any_name(s):
    """no name from the wire gets around the filters"""
    special = s.bool('special')
    if special:
        name = s.choice('name', ['__dict__', '__class__', '__doc__', '__init__', '__amf__', '__module__', '__setattr__', 'public', 'keys'])
    else:
        name = s.bytes_upto('name', s.quick and 2 or 3, least=1)
    dynamic = s.choice('dynamic', [None, False])

    class K(object):
        __amf__ = {'exclude': ['e', 'ee'], 'readonly': ['r', 'rr', '_'], 'synonym': {'e': 'E', 'r': 'R', 's': 'S'}, 'static': ['t']}
    if dynamic is not None:
        K.__amf__['dynamic'] = dynamic
    x = s.int('x', 1000000, 1001000)
    value = s.choice('value', ['number', 'dict'])
    if value == 'number':
        value = x
    else:
        value = {'e': x, 'r': x, 't': 0}
    attrs = {'t': x, name: value}
    if special:
        v = received(s, K, attrs, s.choice('enc', [0, 3]))
        s.check(v is not None and v.__class__ is K, 'class')
        got = v.__dict__
    else:
        alias = pyamf.register_class(K, 'K')
        got = alias.getDecodableAttributes(K(), attrs)
    for k in ('e', 'ee'):
        s.check(k not in got, 'excluded attribute set')
    for k in ('r', 'rr', '_'):
        s.check(k not in got, 'read-only attribute set')
    if name != 't':
        s.check(hx.equal(s, x, got['t']), 'static attribute')
        n = 1
        if dynamic is None and name not in ('e', 'ee', 'E', 'r', 'rr', 'R', '_', '__dict__', '__class__'):
            n = 2
            if name == 'S':
                name = 's'
            s.check(name in got and (got[name] is value or hx.equal(s, value, got[name])), 'set')
        s.check(len(got) == n, 'set')


class Props(object):
    def __init__(self):
        self._rw, self._wo = 0, 0

    @property
    def ro(self):
        return 7

    def _get_rw(self):
        return self._rw

    def _set_rw(self, v):
        self._rw = v

    def _set_wo(self, v):
        self._wo = v

    rw = property(_get_rw, _set_rw)
    wo = property(None, _set_wo)


def t_properties(s):
    """properties: sent if they can be read, set if they can be set"""
    enc = s.choice('enc', [0, 3])
    opts = Options()
    opts.dynamic = s.choice('dynamic', [None, False])
    opts.exclude = s.choice('exclude', [[], ['rw'], ['ro']])
    opts.readonly = s.choice('readonly', [[], ['rw'], ['wo']])
    opts.synonym = s.choice('synonym', [{}, {'rw': 'RW', 'ro': 'RO'}])
    inherited = s.bool('inherited')

    class K(inherited and Props or object):
        __amf__ = opts.meta('dict')
        if not inherited:
            __init__, ro, rw, wo = Props.__dict__['__init__'], Props.__dict__['ro'], Props.__dict__['rw'], Props.__dict__['wo']
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K()
    o.rw = x
    want = {'rw': x, 'ro': 7}
    if opts.dynamic is None:
        want.update({'_rw': x, '_wo': 0})
    for k in opts.exclude:
        del want[k]
    want = dict([(opts.synonym.get(k, k), want[k]) for k in want])
    s.check(same_attrs(s, want, sent(s, o, enc)), 'sent')
    attrs = {opts.synonym and 'RW' or 'rw': x + 1, opts.synonym and 'RO' or 'ro': x + 2, 'wo': x + 3}
    v = received(s, K, attrs, enc)
    s.check(v is not None, 'refused')
    want = {}
    if 'rw' not in opts.exclude and 'rw' not in opts.readonly:
        want['_rw'] = x + 1
    if 'wo' not in opts.readonly:
        want['_wo'] = x + 3
    s.check(same_attrs(s, want, v.__dict__), 'set')
    s.check(v.ro == 7, 'property without setter')


def t_slots(s):
    """sealed classes: exactly their slots"""
    enc = s.choice('enc', [0, 3])
    opts = Options()
    opts.exclude = s.choice('exclude', [[], ['a'], ['b']])
    opts.readonly = s.choice('readonly', [[], ['a'], ['b']])
    opts.dynamic = s.choice('dynamic', [None, False, True])
    opts.synonym = s.choice('synonym', [{}, {'a': 'A'}])

    class B(object):
        __slots__ = s.choice('slots', [('a',), ['a'], 'a'])

    class K(B):
        __slots__ = ('b',)
        __amf__ = opts.meta('dict')
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K()
    o.a, o.b = x, x + 1
    m = Merged(opts)
    m.dynamic = True
    s.check(same_attrs(s, m.sent({'a': x, 'b': x + 1}, enc), sent(s, o, enc)), 'sent')
    attrs = {opts.synonym and 'A' or 'a': x, 'b': x + 1, 'c': x + 2}
    v = received(s, K, attrs, enc)
    s.check(v is not None, 'refused')
    want = m.set(attrs)
    want.pop('c', None)
    got = {}
    for k in 'abc':
        if hasattr(v, k):
            got[k] = getattr(v, k)
    s.check(same_attrs(s, want, got), 'set')


class D(dict):
    pass


def t_dicts(s):
    """classes made of dict: items are attributes"""
    enc = s.choice('enc', [0, 3])
    opts = Options()
    opts.exclude = s.choice('exclude', [[], ['a'], ['b']])
    opts.readonly = s.choice('readonly', [[], ['a']])

    class K(dict):
        __amf__ = opts.meta('dict')
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K(a=x, z=x + 1)
    m = Merged(opts)
    s.check(same_attrs(s, m.sent({'a': x, 'z': x + 1}, enc), sent(s, o, enc)), 'sent')
    attrs = {'a': x, 'b': x + 1, '__dict__': {'q': 1}}
    v = received(s, K, attrs, enc)
    s.check(same_attrs(s, m.set(attrs), v), 'set')
    s.check(not v.__dict__, 'attributes')


def t_external(s):
    """external classes write and read themselves in AMF3, whatever else they are configured for"""
    opts = Options()
    opts.exclude, opts.dynamic = s.choice('exclude', [[], ['a']]), s.choice('dynamic', [None, False])
    opts.static = s.choice('static', [[], ['b']])

    class K(object):
        __amf__ = opts.meta('dict')

        def __writeamf__(self, out):
            out.writeObject(self.a)
            out.writeObject(u'end')

        def __readamf__(self, inp):
            self.got = inp.readObject(), inp.readObject()
    K.__amf__['external'] = True
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K()
    o.a, o.b = x, x + 1
    data = pyamf.encode([o, o, 5], encoding=3).getvalue()
    v = hx.decode_one(s, data, 3)
    s.check(len(v) == 3 and v[0] is v[1] and v[2] == 5, 'the value after it')
    s.check(v[0].__class__ is K and v[0].__dict__.keys() == ['got'], 'set')
    s.check(hx.equal(s, x, v[0].got[0]) and v[0].got[1] == u'end', 'read')


def t_proxies(s):
    """proxied attributes: proxies in AMF3 only, transparently"""
    enc = s.choice('enc', [0, 3])
    opts, base = Options(), Options()
    opts.dynamic = s.choice('dynamic', [None, False])
    opts.static = s.choice('static', [['p'], ['p', 'q'], ['q', 'p', 'z']])
    opts.readonly = s.choice('readonly', [[], ['q']])
    where = s.choice('where', ['own', 'base', 'p of the base', 'both'])
    if where == 'p of the base':
        base.proxy, opts.proxy = ['p'], ['q']
    if where in ('own', 'both'):
        opts.proxy = ['p', 'q']
    if where in ('base', 'both'):
        base.proxy = ['q', 'p']
    opts.synonym = s.choice('synonym', [{}, {'p': 'P'}])
    B, K = two(s, opts, base, 'dict')
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K()
    o.p, o.q, o.z = [x, x + 1], {'k': x}, [x]
    m = Merged(opts, base)
    data = pyamf.encode(o, encoding=enc).getvalue()
    back = hx.decode_one(s, data, enc)
    want = dict(o.__dict__)
    if not m.dynamic:
        want = dict([(k, want[k]) for k in want if k in m.static])
    for k in m.readonly:
        want.pop(k, None)
    s.check(same_attrs(s, want, back.__dict__), 'decoded')
    pyamf.unregister_class(K)
    got = hx.decode_one(s, data, enc)
    p = got[opts.synonym.get('p', 'p')]
    if enc == 3:
        s.check(type(p) is ArrayCollection and hx.equal(s, o.p, list(p)), 'list proxy')
    else:
        s.check(hx.equal(s, o.p, p), 'no proxies in AMF0')
    if m.dynamic or 'q' in m.static:
        if enc == 3:
            s.check(type(got['q']) is ObjectProxy and hx.equal(s, o.q, got['q']._amf_object), 'object proxy')
        else:
            s.check(hx.equal(s, o.q, got['q']), 'no proxies in AMF0')
    else:
        s.check('q' not in got, 'not sent')


class Err(Exception):
    pass


def t_exceptions(s):
    """exceptions are sent with their name, text and attributes, without args"""
    enc = s.choice('enc', [0, 3])
    text = s.uni_upto('text', s.quick and 1 or 2)
    x = s.int('x', 1000000, 1001000)
    own = s.bool('registered')
    if own:
        pyamf.register_class(Err, 'K')
    arg = s.choice('bytes', [False, True]) and text.encode('utf-8') or text
    e = Err(arg)
    e.extra = x
    data = pyamf.encode(e, encoding=enc).getvalue()
    if own:
        pyamf.unregister_class(Err)
    got = hx.decode_one(s, data, enc)
    s.check(hx.equal(s, text, got['message']), 'message')
    s.check(got['name'] == 'Err' and hx.equal(s, x, got['extra']) and len(got) == 3, 'attributes')


class Thing(object):
    pass


def t_amf3_option(s):
    """classes that ask for AMF3 are sent as AMF3 in an AMF0 stream, their filters applied"""
    where = s.choice('where', ['own', 'base'])
    opts, base = Options(), Options()
    opts.exclude, opts.static = ['e'], s.choice('static', [[], ['a']])
    B, K = two(s, opts, base, 'dict')
    (where == 'own' and K or B).__amf__['amf3'] = True
    pyamf.register_class(K, 'K')
    x = s.int('x', 1000000, 1001000)
    o = K()
    o.a, o.e = x, x
    data = pyamf.encode(o, encoding=0).getvalue()
    s.check(data[0] == '\x11' and data[1] == '\x0a', 'AMF3 object')
    v = hx.decode_one(s, data, 0)
    s.check(v.__class__ is K and same_attrs(s, {'a': x}, v.__dict__), 'decoded')


def t_many(s):
    """every instance of a class is filtered alike, first and later"""
    enc = s.choice('enc', [0, 3])
    opts = Options()
    opts.static, opts.exclude, opts.synonym = s.choice('static', [[], ['a'], ['a', 'b']]), s.choice('exclude', [[], ['b']]), {'a': 'A'}
    opts.dynamic = s.choice('dynamic', [None, False])

    class K(object):
        __amf__ = opts.meta('dict')
    m = Merged(opts)
    x = s.int('x', 1000000, 1001000)
    objs, want = [], []
    for i in range(3):
        o = K()
        if s.bool('a%d' % i):
            o.a = x + i
        o.b = i
        if i == 1:
            o.z = x
        objs.append(o)
        want.append(m.sent(o.__dict__, enc))
    pyamf.register_class(K, 'K')
    data = pyamf.encode(objs, encoding=enc).getvalue()
    pyamf.unregister_class(K)
    got = hx.decode_one(s, data, enc)
    for i in range(3):
        s.check(same_attrs(s, want[i], dict(got[i])), 'sent')
