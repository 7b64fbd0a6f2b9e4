# C19: class, type, error and package registries reflect exactly their history
import types
import pyamf
import pyamf.amf0
import pyamf.amf3
import pyamf.flex.messaging
import hx

BOUNDS = ('every history of up to 4 (quick: 3) registrations and removals of 2 classes (one new-style, one old-style) under 2 names, by name and '
          'by class; two names of up to 2 characters each, as bytes or text; histories of up to 4 (3) operations on the type, error class '
          'and alias type registries; loaders giving a class, an alias or nothing, two at a time; packages given as module, dictionary, list')
ASSUMPTIONS = ['a class loader gives the same answer each time', 'importing a module a name leads to is outside the claim',
               'registering a class under a second name leaves the first name in use for decoding or drops it',
               'a custom alias class set for other classes again replaces the ones it was set for']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3', 'pyamf.flex', 'pyamf.flex.messaging']

STATE = dict([(n, getattr(pyamf, n).copy()) for n in ('CLASS_CACHE', 'CLASS_LOADERS', 'TYPE_MAP', 'ERROR_CLASS_MAP', 'ALIAS_TYPES')])


class A(object):
    pass


class B:
    pass


def lookup(key):
    try:
        return pyamf.get_class_alias(key)
    except pyamf.UnknownClassAlias:
        return None


def wire_name(s, obj, enc):
    """the class name an instance is sent under, None if it is sent without one"""
    saved, loaders = pyamf.CLASS_CACHE.copy(), pyamf.CLASS_LOADERS.copy()
    pyamf.CLASS_LOADERS.clear()
    data = pyamf.encode(obj, encoding=enc).getvalue()
    for k in saved:
        if getattr(saved[k], 'klass', None) in (A, B):
            del pyamf.CLASS_CACHE[k]
    v = hx.decode_one(s, data, enc)
    pyamf.CLASS_CACHE.clear()
    pyamf.CLASS_CACHE.update(saved)
    pyamf.CLASS_LOADERS.update(loaders)
    if type(v) is pyamf.TypedObject:
        return v.alias
    s.check(type(v) is pyamf.ASObject, 'object')


def t_classes(s):
    """registering and unregistering classes: the latest live registration of the name and of the class"""
    names, classes = {'x': None, 'y': None}, {A: None, B: None}
    n = s.quick and 3 or 4
    for i in range(n):
        op = s.choice('op%d' % i, ['register', 'unregister', 'unregister class', 'anonymous'])
        if op == 'register':
            k, name = s.choice('class%d' % i, [A, B]), s.choice('name%d' % i, ['x', 'y'])
            r = pyamf.register_class(k, name)
            s.check(r.klass is k and r.alias == name and not r.anonymous, 'registration')
            names[name] = classes[k] = r
        elif op == 'anonymous':
            k = s.choice('class%d' % i, [A, B])
            r = pyamf.register_class(k)
            s.check(r.klass is k and r.anonymous, 'registration')
            classes[k] = r
        else:
            if op == 'unregister':
                key = s.choice('name%d' % i, ['x', 'y'])
                r = names[key]
            else:
                key = s.choice('class%d' % i, [A, B])
                r = classes[key]
            before = pyamf.CLASS_CACHE.copy()
            try:
                got = pyamf.unregister_class(key)
                s.check(r is not None and got is r, 'unregistered')
            except pyamf.UnknownClassAlias:
                s.check(r is None, 'unregister')
                s.check(pyamf.CLASS_CACHE == before, 'refused')
            for d in (names, classes):
                for x in d:
                    if r is not None and d[x] is r:
                        d[x] = None
    for x in names:
        s.check(lookup(x) is names[x], 'name')
        s.check(lookup(unicode(x)) is names[x], 'name')
    for k in classes:
        s.check(lookup(k) is classes[k], 'class')
    left = [k for k in pyamf.CLASS_CACHE if k not in STATE['CLASS_CACHE']]
    for k in left:
        s.check(names.get(k) or classes.get(k), 'nothing else')
    enc = s.choice('enc', [0, 3])
    for k in (A, B):
        r = classes[k]
        name = wire_name(s, k(), enc)
        s.check(name == (r and not r.anonymous and r.alias or None), 'name on the wire')
        if name and names[name]:
            v = hx.decode_one(s, pyamf.encode(k(), encoding=enc).getvalue(), enc)
            s.check(v.__class__ is names[name].klass, 'class of the instance')


def t_names(s):
    """names of any text, as text or UTF-8 bytes"""
    x = s.uni_upto('x', s.quick and 1 or 2, least=1)
    y = s.uni_upto('y', 1, least=1)
    ra = pyamf.register_class(A, s.bool('bytes x') and x.encode('utf-8') or x)
    rb = pyamf.register_class(B, s.bool('bytes y') and y.encode('utf-8') or y)
    same = x == y
    s.check(lookup(x) is (same and rb or ra), 'text')
    s.check(lookup(y.encode('utf-8')) is rb, 'bytes')
    s.check(lookup(A) is ra and lookup(B) is rb, 'class')
    enc = s.choice('enc', [0, 3])
    v = hx.decode_all(pyamf.encode(A(), B(), encoding=enc).getvalue(), enc)
    s.check(v[0].__class__ is (same and B or A) and v[1].__class__ is B, 'decoded')
    s.check(wire_name(s, A(), enc) == x and wire_name(s, B(), enc) == y, 'name on the wire')
    pyamf.unregister_class(y)
    s.check(lookup(B) is None and lookup(y) is None, 'gone')
    s.check(lookup(A) is ra, 'other class')
    if not same:
        s.check(lookup(x) is ra, 'other name')


def t_unregister_bytes(s):
    """a name can be unregistered the way it has been registered"""
    x = s.uni_upto('x', 1, least=1)
    b = x.encode('utf-8')
    pyamf.register_class(A, b)
    pyamf.unregister_class(s.choice('key', [b, x, A]))
    s.check(lookup(A) is None and lookup(x) is None, 'gone')


class Meta(object):
    __amf__ = {'alias': 'own.name', 'exclude': ['e']}


def t_declared(s):
    """the name a class declares is used unless another is given"""
    given = s.choice('name', [None, 'x', u'x'])
    r = pyamf.register_class(Meta, given)
    name = given or 'own.name'
    s.check(lookup(name) is r and lookup(Meta) is r, 'lookup')
    s.check(given is None or lookup('own.name') is None, 'nothing else')
    enc = s.choice('enc', [0, 3])
    v = hx.decode_one(s, pyamf.encode(Meta(), encoding=enc).getvalue(), enc)
    s.check(v.__class__ is Meta, 'decoded')
    pyamf.unregister_class(Meta)
    s.check(lookup(name) is None and lookup(Meta) is None, 'gone')


def snapshot():
    return [getattr(pyamf, n).copy() for n in ('CLASS_CACHE', 'CLASS_LOADERS', 'TYPE_MAP', 'ERROR_CLASS_MAP', 'ALIAS_TYPES')]


class NotAlias(object):
    pass


class MyAlias(pyamf.ClassAlias):
    pass


class OtherAlias(pyamf.ClassAlias):
    pass


class NeedsArgs(object):
    def __init__(self, a):
        pass


BAD = [('class that is none', lambda: pyamf.register_class('A', 'x'), TypeError),
       ('object', lambda: pyamf.register_class(object, 'x'), TypeError),
       ('instance', lambda: pyamf.register_class(A(), 'x'), TypeError),
       ('empty name', lambda: pyamf.register_class(A, ''), ValueError),
       ('class without name', lambda: pyamf.unregister_class('nothing'), pyamf.UnknownClassAlias),
       ('class not registered', lambda: pyamf.unregister_class(A), pyamf.UnknownClassAlias),
       ('loader', lambda: pyamf.register_class_loader('no'), TypeError),
       ('unknown loader', lambda: pyamf.unregister_class_loader(lambda x: None), LookupError),
       ('type', lambda: pyamf.add_type('no'), TypeError),
       ('types', lambda: pyamf.add_type([A, 'no']), TypeError),
       ('type twice', lambda: pyamf.add_type(hx.Thing), KeyError),
       ('types twice', lambda: pyamf.add_type([hx.Thing, hx.Other]), KeyError),
       ('unknown type', lambda: pyamf.remove_type(A), KeyError),
       ('unknown types', lambda: pyamf.remove_type([A, B]), KeyError),
       ('get unknown type', lambda: pyamf.get_type(A), KeyError),
       ('error class', lambda: pyamf.add_error_class('no', 'x'), TypeError),
       ('error class that is none', lambda: pyamf.add_error_class(A, 'x'), TypeError),
       ('error code twice', lambda: pyamf.add_error_class(ValueError, 'KeyError'), ValueError),
       ('unknown error', lambda: pyamf.remove_error_class('x'), ValueError),
       ('unknown error class', lambda: pyamf.remove_error_class(A), ValueError),
       ('error type', lambda: pyamf.remove_error_class(5), TypeError),
       ('alias type', lambda: pyamf.register_alias_type('no', A), TypeError),
       ('alias type without types', lambda: pyamf.register_alias_type(MyAlias), ValueError),
       ('alias type that is none', lambda: pyamf.register_alias_type(NotAlias, A), ValueError),
       ('alias type for no class', lambda: pyamf.register_alias_type(MyAlias, A, 'no'), TypeError),
       ('alias type twice', lambda: pyamf.register_alias_type(MyAlias, pyamf.TypedObject), RuntimeError),
       ('alias type for one twice', lambda: pyamf.register_alias_type(MyAlias, A, pyamf.TypedObject), RuntimeError),
       ('package', lambda: pyamf.register_package(5, 'x'), TypeError),
       ('package without name', lambda: pyamf.register_package(''), TypeError),
       ('package list without name', lambda: pyamf.register_package([A, B]), TypeError)]


def t_refused(s):
    """refused operations change nothing"""
    pyamf.add_type(hx.Thing, lambda *a: None)
    pyamf.add_type((hx.Thing, hx.Other), lambda *a: None)
    pyamf.register_class(B, 'b')
    before = snapshot()
    what, f, error = s.choice('what', BAD)
    try:
        f()
    except error:
        pass
    else:
        s.fail('%s accepted' % what)
    s.check(snapshot() == before, '%s changed something' % what)


def t_types(s):
    """the type map holds exactly what has been added and not removed"""
    def f(x):
        return False
    keys = [A, (A, B), [A, B], f]
    model = {}
    for i in range(s.quick and 3 or 4):
        k = s.choice('key%d' % i, keys)
        name = type(k) is list and (A, B) or k
        op = s.choice('op%d' % i, ['add', 'remove'])
        if op == 'add':
            v = s.int('v%d' % i, 1000000, 1001000)
            try:
                pyamf.add_type(k, v)
                s.check(name not in model, 'added twice')
                model[name] = v
            except KeyError:
                s.check(name in model, 'add')
        else:
            try:
                got = pyamf.remove_type(k)
                s.check(name in model and got == model.pop(name), 'removed')
            except KeyError:
                s.check(name not in model, 'remove')
    for k in keys:
        name = type(k) is list and (A, B) or k
        try:
            got = pyamf.get_type(k)
            s.check(name in model and got == model[name], 'found')
        except KeyError:
            s.check(name not in model, 'not found')
    s.check(len(pyamf.TYPE_MAP) == len(STATE['TYPE_MAP']) + len(model), 'nothing else')


class E1(Exception):
    pass


class E2(E1):
    pass


def t_errors(s):
    """the error map holds exactly what has been added and not removed"""
    model = {}
    codes = [s.uni_upto('c', 2, least=1), 'C2']
    if codes[0] == 'C2':
        s.stop()
    for i in range(s.quick and 3 or 4):
        op = s.choice('op%d' % i, ['add', 'remove', 'remove class'])
        if op == 'add':
            c, k = s.choice('code%d' % i, codes), s.choice('class%d' % i, [E1, E2])
            try:
                pyamf.add_error_class(k, c)
                s.check(c not in model, 'added twice')
                model[c] = k
            except ValueError:
                s.check(c in model, 'add')
        elif op == 'remove':
            c = s.choice('code%d' % i, codes)
            try:
                pyamf.remove_error_class(c)
                s.check(c in model, 'removed')
                del model[c]
            except ValueError:
                s.check(c not in model, 'remove')
        else:
            k = s.choice('class%d' % i, [E1, E2])
            mine = [c for c in model if model[c] is k]
            try:
                pyamf.remove_error_class(k)
                s.check(mine, 'removed')
                for c in mine:
                    del model[c]
            except ValueError:
                s.check(not mine, 'remove')
    for c in codes:
        s.check(pyamf.ERROR_CLASS_MAP.get(c) is model.get(c), 'found')
    s.check(len(pyamf.ERROR_CLASS_MAP) == len(STATE['ERROR_CLASS_MAP']) + len(model), 'nothing else')
    for c in STATE['ERROR_CLASS_MAP']:
        s.check(pyamf.ERROR_CLASS_MAP.get(c) is STATE['ERROR_CLASS_MAP'][c], 'standard errors')


def t_error_raised(s):
    """a fault is raised as the class its code is registered for"""
    from pyamf import remoting
    code, want = s.uni_upto('code', 2, least=1), s.uni_upto('registered', 2, least=1)
    pyamf.add_error_class(E2, want)
    error = s.bool('error class') and 'KeyError' or code
    fault = remoting.ErrorFault(code=error, description=u'd')
    klass = remoting.ErrorFault
    try:
        fault.raiseException()
    except Exception, e:
        klass = e.__class__
    if error == want:
        s.check(klass is E2, 'registered code')
    elif error == 'KeyError':
        s.check(klass is KeyError, 'standard error')
    else:
        s.check(klass is remoting.RemotingError, 'any other code')
    s.reached('raised')


def t_loaders(s):
    """classes not registered come from the loaders, registered classes stay as they are"""
    calls = []
    gives = s.choice('gives', ['class', 'alias', 'nothing', 'other'])

    def loader(name):
        calls.append(name)
        if name != 'x':
            return None
        if gives == 'class':
            return A
        if gives == 'alias':
            return pyamf.ClassAlias(A, 'x')
        if gives == 'other':
            return 5

    def second(name):
        if name == 'y':
            return B
    registered = s.choice('registered', ['no', 'class', 'name'])
    r = None
    if registered == 'class':
        if gives == 'alias':
            s.stop()
        r = pyamf.register_class(A, 'mine')
    elif registered == 'name':
        r = pyamf.register_class(B, 'x')
    pyamf.register_class_loader(loader)
    two = s.bool('two')
    if two:
        pyamf.register_class_loader(second)
    if s.bool('again'):
        pyamf.register_class_loader(loader)
    removed = s.bool('removed')
    if removed:
        pyamf.unregister_class_loader(loader)
        s.check(loader not in pyamf.CLASS_LOADERS, 'removed')
    name = s.choice('lookup', ['x', u'x', 'z'])
    try:
        got = pyamf.get_class_alias(name)
    except pyamf.UnknownClassAlias:
        got = None
    except TypeError:
        s.check(not removed and gives == 'other' and name == 'x' and registered != 'name', 'TypeError')
        s.stop()
    if name == 'z':
        s.check(got is None, 'unknown')
    elif registered == 'name':
        s.check(got is r and not calls, 'registered')
    elif removed or gives == 'nothing':
        s.check(got is None, 'no loader')
    else:
        s.check(gives != 'other', 'loader that gives neither')
        s.check(got is not None and got.klass is A, 'class of the loader')
        s.check(registered == 'class' or got.alias == 'x', 'name')
        s.check(pyamf.get_class_alias(name).klass is A, 'again')
        if registered == 'class':
            s.check(lookup(A) is r and r.alias == 'mine', 'registration')
        else:
            s.check(lookup(A) is got, 'found by class')
        s.check(wire_name(s, A(), s.choice('enc', [0, 3])) == (registered == 'class' and 'mine' or 'x'), 'name on the wire')
    if two:
        got = lookup('y')
        s.check(got is not None and got.klass is B, 'second loader')


class Found(object):
    def __init__(self):
        self.v = 0


def t_python_name(s):
    """classes found by their Python name; what a peer names does not change what is registered"""
    Found.__module__ = 'c19mod'
    s.provide('c19mod', {'Found': Found, 'Alias': pyamf.ClassAlias(A, 'other'), 'number': 5}, '/c19')
    registered = s.choice('registered', ['no', 'name', 'anonymous'])
    if registered == 'name':
        pyamf.register_class(Found, 'mine')
    elif registered == 'anonymous':
        pyamf.register_class(Found)
    before = pyamf.CLASS_CACHE.copy()
    enc = s.choice('enc', [0, 3])
    sent = pyamf.encode(Found(), encoding=enc).getvalue()
    name = s.choice('name', ['c19mod.Found', 'c19mod.number', 'c19mod.nothing', 'c19no.Found', 'c19mod', 'pyamf.ASObject'])
    got = lookup(name)
    if name == 'c19mod.Found':
        s.check(got is not None and got.klass is Found, 'found')
    elif name == 'pyamf.ASObject':
        s.check(got is None or got.klass is pyamf.ASObject, 'found')
    else:
        s.check(got is None, 'not found')
    for k in before:
        s.check(pyamf.CLASS_CACHE.get(k) is before[k], 'registration changed')
    if registered != 'no':
        s.check(pyamf.encode(Found(), encoding=enc).getvalue() == sent, 'sent otherwise')
    if name == 'c19mod.Found':
        s.check(lookup(name).klass is Found, 'again')
    elif got is None:
        s.check(pyamf.CLASS_CACHE == before, 'nothing registered')


def t_alias_types(s):
    """alias types: used for exactly the classes they are registered for and their subclasses"""
    class Sub(A):
        pass

    when = s.choice('when', ['before', 'after'])
    named = s.choice('named', [True, False])
    how = s.choice('how', ['class', 'two', 'function'])

    def mine(k):
        return k is A or k is Sub

    def types_():
        if how == 'class':
            pyamf.register_alias_type(MyAlias, A)
        elif how == 'two':
            pyamf.register_alias_type(MyAlias, A, B)
        else:
            pyamf.register_alias_type(MyAlias, mine)
    other = s.bool('other')
    if other:
        pyamf.register_alias_type(OtherAlias, hx.Thing)
    if when == 'before':
        types_()
    n = 0
    for k in (A, Sub, B):
        pyamf.register_class(k, named and 'xyz'[n] or None)
        n += 1
    if when == 'after':
        types_()
    n = 0
    for k in (A, Sub, B):
        want = MyAlias
        if k is B and how != 'two':
            want = pyamf.ClassAlias
        x = lookup(k)
        s.check(type(x) is want and x.klass is k, 'alias type')
        if named:
            s.check(lookup('xyz'[n]) is x and x.alias == 'xyz'[n], 'same by name')
        else:
            s.check(x.anonymous, 'anonymous')
        n += 1
    if other:
        s.check(pyamf.ALIAS_TYPES.get(OtherAlias) == (hx.Thing,), 'other type')
    enc = s.choice('enc', [0, 3])
    v = hx.decode_one(s, pyamf.encode(A(), encoding=enc).getvalue(), enc)
    s.check(v.__class__ is (named and A or pyamf.ASObject), 'decoded')
    k = s.choice('unregister', [A, Sub, B])
    pyamf.unregister_class(k)
    s.check(lookup(k) is None, 'gone')
    if named:
        s.check(lookup('xyz'[[A, Sub, B].index(k)]) is None, 'gone')
    s.check(pyamf.unregister_alias_type(MyAlias) is not None, 'alias type removed')
    s.check(pyamf.unregister_alias_type(MyAlias) is None, 'removed twice')
    pyamf.register_class(k, 'w')
    s.check(type(lookup('w')) is pyamf.ClassAlias, 'plain alias')


def t_package(s):
    """packages register exactly their classes"""
    class P(object):
        __module__ = 'c19.pack'

    class Q:
        __module__ = 'c19.pack'

    class Foreign(object):
        __module__ = s.choice('foreign', ['elsewhere', 'c19.pack.sub', 'c19.packed', 'c19'])
    form = s.choice('form', ['module', 'dict', 'list'])
    strict = s.bool('strict')
    ignore = s.choice('ignore', [None, ['P'], [P], ('Q', 'Foreign')])
    limited = s.bool('__all__')
    package = s.choice('package', ['p.q', None, ''])
    sep = s.choice('separator', ['.', '::'])
    d = {'__name__': 'c19.pack', 'P': P, 'Q': Q, 'Foreign': Foreign, 'f': len, 'n': 5}
    if limited:
        d['__all__'] = ['P', 'Foreign', 'n']
    before = pyamf.CLASS_CACHE.copy()
    if form == 'module':
        m = types.ModuleType('c19.pack')
        for k in d:
            setattr(m, k, d[k])
    elif form == 'dict':
        m = d
    else:
        if package is None or limited:
            s.stop()
        m = [P, Q, Foreign, 5, len]
    r = pyamf.register_package(m, package, sep, ignore, strict)
    if package is None:
        package = 'c19.pack'
    n = 0
    for k in (P, Q, Foreign):
        want = True
        if k.__name__ in (ignore or ()) or k in (ignore or ()):
            want = False
        if limited and k is Q:
            want = False
        if k is Foreign and strict and form != 'list':
            want = False
        x = lookup(k)
        name = package + sep + k.__name__
        if want:
            n += 1
            s.check(x is not None and x.alias == name and x.klass is k and r.get(k) is x, 'registered')
            s.check(lookup(name) is x, 'name')
            enc = s.choice('enc%d' % n, [0, 3])
            v = hx.decode_one(s, pyamf.encode(k(), encoding=enc).getvalue(), enc)
            s.check(v.__class__ is k, 'decoded')
        else:
            s.check(x is None and k not in r, 'not registered')
    s.check(len(r) == n and len(pyamf.CLASS_CACHE) == len(before) + 2 * n, 'nothing else')


def t_caller(s):
    """without a module, the classes known where it is called are meant, under the name given or its own"""
    class P(object):
        __module__ = 'c19.pack'

    class Q:
        __module__ = 'c19.pack'

    class Foreign(object):
        __module__ = 'elsewhere'
    n = 5
    how = s.choice('how', ['name', 'package', 'own name', 'nothing', 'empty'])
    ignore = s.choice('ignore', [None, ['P'], [P], ('Q',)])
    before = pyamf.CLASS_CACHE.copy()
    strict = s.bool('strict')
    want = [k for k in (P, Q, Foreign) if not (k is Foreign and strict) and k not in (ignore or ()) and k.__name__ not in (ignore or ())]
    if how in ('nothing', 'empty'):
        try:
            if how == 'empty':
                pyamf.register_package('')
            else:
                pyamf.register_package()
            s.fail('accepted')
        except TypeError:
            pass
        s.check(len(pyamf.CLASS_CACHE) == len(before), 'unchanged')
        return
    __name__ = 'c19.pack'
    package = 'p.q'
    if how == 'name':
        r = pyamf.register_package('p.q', ignore=ignore, strict=strict)
    elif how == 'package':
        r = pyamf.register_package(package='p.q', ignore=ignore, strict=strict)
    else:
        package = __name__
        r = pyamf.register_package(ignore=ignore, strict=strict)
    s.check(len(r) == len(want), 'number')
    for k in want:
        x = lookup(package + '.' + k.__name__)
        s.check(x is r.get(k) and x is lookup(k) and x.klass is k, 'registered')
    s.check(len(pyamf.CLASS_CACHE) == len(before) + 2 * len(want), 'nothing else')


def t_standard(s):
    """the classes of Flex are found by name, however they are asked for, until unregistered"""
    name = s.choice('name', ['DSK', 'DSC', 'DSA', 'flex.messaging.messages.RemotingMessage', 'flex.messaging.io.ArrayCollection',
                             'flex.messaging.io.ObjectProxy', 'flex.data.messages.DataMessage',
                             'flex.data.messages.DataErrorMessage', 'flex.data.messages.nothing', 'flex.messaging.io.nothing',
                             'flex.messaging.messages.nothing', 'flex.no', 'DSX'])
    known = name != 'DSX' and name != 'flex.no' and not name.endswith('.nothing')
    x = lookup(s.bool('text') and unicode(name) or name)
    s.check((x is not None) == known, 'known')
    if known:
        s.check(x.alias == name and lookup(x.klass) is x, 'alias')
        pyamf.unregister_class(name)
        s.check(lookup(name) is None and lookup(x.klass) is None, 'gone')
