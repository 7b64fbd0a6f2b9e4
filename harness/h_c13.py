# C13: only exposed, public service methods can be called through a gateway
import types
import pyamf
from pyamf import remoting
from pyamf.remoting import gateway
from pyamf.flex import messaging
import hx

BOUNDS = ('gateways with a class, an old-style class, an instance, a module, a function and nested names as services; every target of up to 4 '
          '(thorough: 5) characters, any Unicode, and every composition of known names, dots and underscores; arguments symbolic, '
          'up to 3; histories of up to 3 (thorough: 4) additions and removals; AMF0 and AMF3 requests')
ASSUMPTIONS = ['a service registered twice under different names and removed by value loses one of its names, no matter which']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.flex.messaging']
CALLS = []


class Svc(object):
    v = 5

    def m(self, *args):
        CALLS.append(('m', args))
        return 'm'

    def _m(self, *args):
        CALLS.append(('_m', args))

    def __p(self, *args):
        CALLS.append(('__p', args))

    def mm(self, *args):
        CALLS.append(('mm', args))
        return 'mm'


class Old:
    v = None

    def m(self, *args):
        CALLS.append(('old m', args))
        return 'old m'

    def _m(self, *args):
        CALLS.append(('old _m', args))


class Callable(Svc):
    def __call__(self, *args):
        CALLS.append(('call', args))
        return 'call'


def f(*args):
    CALLS.append(('f', args))
    return 'f'


def g(*args):
    CALLS.append(('g', args))
    return 'g'


def module():
    m = types.ModuleType('svcmod')
    m.m = f
    m._m = g
    m.v = 1
    m.types = types
    return m


# what calling a method of these gives; missing: unknown method; None: not callable
METHODS = {
    'class': {'m': 'm', 'mm': 'mm', 'v': None},
    'inst': {'m': 'm', 'mm': 'mm', 'v': None},
    'old': {'m': 'old m', 'v': None},
    'call': {'m': 'm', 'mm': 'mm', 'v': None},
    'mod': {'m': 'f', 'v': None, 'types': None},
    'f': {},
    'g': {},
}
DIRECT = {'call': 'call', 'f': 'f', 'g': 'g'}


def service(kind):
    if kind == 'class':
        return Svc
    if kind == 'inst':
        return Svc()
    if kind == 'old':
        return Old
    if kind == 'call':
        return Callable()
    if kind == 'mod':
        return module()
    return {'f': f, 'g': g}[kind]


def expected(names, target):
    """('unknown service' | 'unknown method' | 'invalid' | what is called); names: what is registered"""
    if target in names:
        k = names[target]
        return DIRECT.get(k, 'unknown method')
    i = target.rfind(u'.')
    if i < 0:
        return names.get('', None) is None and 'unknown service' or method(names[''], target)
    name, meth = target[:i], target[i + 1:]
    if name not in names:
        return 'unknown service'
    return method(names[name], meth)


def method(kind, meth):
    if meth[:1] == u'_':
        return 'invalid'
    if meth not in METHODS[kind]:
        return 'unknown method'
    r = METHODS[kind][meth]
    if r is None:
        return 'invalid'
    return r


def is_ascii(text):
    for c in text:
        if ord(c) > 127:
            return False
    return True


ERRORS = {'unknown service': 'Service.ResourceNotFound', 'unknown method': 'Service.MethodNotFound', 'invalid': 'Service.MethodInvalid'}


def ask(s, gw, target, args, protocol):
    """send one request; -> (error code or None, result)"""
    env = remoting.Envelope(protocol == 'amf0' and 0 or 3)
    if protocol == 'amf0':
        req = remoting.Request(target, args, env)
        res = gw.getProcessor(req)(req)
        s.check(type(res) is remoting.Response, 'response')
        if res.status == remoting.STATUS_OK:
            return None, res.body
        s.check(res.status == remoting.STATUS_ERROR and type(res.body) is remoting.ErrorFault, 'error response')
        return res.body.code, None
    if protocol == 'operation':
        msg = messaging.RemotingMessage(operation=target, body=args, messageId='1')
    else:
        i = target.rfind(u'.')
        s.assume(i > 0)
        msg = messaging.RemotingMessage(destination=target[:i], operation=target[i + 1:], body=args, messageId='1')
    req = remoting.Request(s.choice('null', [u'null', u'']), [msg], env)
    res = gw.getProcessor(req)(req)
    s.check(type(res) is remoting.Response, 'response')
    if res.status == remoting.STATUS_OK:
        s.check(type(res.body) is messaging.AcknowledgeMessage, 'acknowledgement')
        return None, res.body.body
    s.check(res.status == remoting.STATUS_ERROR and type(res.body) is messaging.ErrorMessage, 'error response')
    return res.body.faultCode, None


def verify(s, gw, names, target, args, protocol='amf0'):
    del CALLS[:]
    want = expected(names, target)
    code, result = ask(s, gw, target, args, protocol)
    if want in ERRORS:
        if want == 'invalid' and not is_ascii(target):
            s.check(code in (ERRORS['invalid'], ERRORS['unknown method']), 'refused with a matching error')
        else:
            s.check(code == ERRORS[want], 'refused with the matching error')
        s.check(not CALLS, 'something was called')
        return
    s.check(code is None, 'refused')
    s.check(result == want, 'result')
    s.check(len(CALLS) == 1 and CALLS[0][0] == want, 'called once')
    got = CALLS[0][1]
    s.check(len(got) == len(args), 'number of arguments')
    for i in range(len(args)):
        s.check(s.same(got[i], args[i]) if not hx.is_container(args[i]) else got[i] is args[i], 'arguments as sent')


SETS = [
    {u'a': 'class', u'a.b': 'f', u'b': 'inst', u'\xe9': 'g'},
    {u'a': 'old', u'b': 'mod', u'a.m': 'call', u'': 'f'},
    {u'_': 'inst', u'a.': 'f', u'a._': 'class', u'm': 'call'},
]


def build(names, **kw):
    return gateway.BaseGateway(dict((k, service(v)) for k, v in names.items()), **kw)


def t_any_target(s):
    """targets of arbitrary characters"""
    names = s.choice('names', SETS)
    target = s.uni_upto('target', s.quick and 3 or 4, least=1)
    verify(s, build(names), names, target, [])


def t_any_name(s):
    """services under any two names: the same name is refused, another one is another service"""
    first, second = s.choice('first', [u'f', u'a.b', u'']), s.uni_upto('second', 3)
    gw = gateway.BaseGateway()
    gw.addService(f, first)
    same = s.same(first, second)
    try:
        gw.addService(g, second)
        s.check(s.Not(same), 'replaced an existing service')
    except remoting.RemotingError:
        s.check(same, 'refused a new name')
    s.check(second in gw.services and first in gw.services, 'registered')
    s.check(len(gw.services) == (same and 1 or 2), 'number of services')
    s.check(gw.services[first].service is f, 'first')
    if same:
        s.stop()
    s.check(gw.services[second].service is g, 'second')
    if s.bool('remove second'):
        gw.removeService(second)
        s.check(second not in gw.services and gw.services[first].service is f, 'removed')
    else:
        gw.removeService(first)
        s.check(first not in gw.services and gw.services[second].service is g, 'removed')


def t_composed(s):
    """targets put together from names that mean something"""
    names = s.choice('names', SETS)
    parts = []
    for i in range(s.choice('n', s.quick and [1, 2, 3] or [1, 2, 3, 4])):
        parts.append(s.choice('p%d' % i, [u'a', u'b', u'm', u'_m', u'v', u'']) if s.quick else
                     s.choice('p%d' % i, [u'a', u'b', u'm', u'mm', u'_m', u'__p', u'v', u'', u'\xe9', u'types']))
    target = u'.'.join(parts)
    s.assume(len(target) > 0)
    s.assume(target != u'null')
    verify(s, build(names), names, target, [1])


def t_private(s):
    """names of methods starting with an underscore, whatever follows"""
    names = s.choice('names', SETS[:2])
    kind = s.choice('svc', [u'a', u'b'])
    target = kind + u'.' + s.choice('m', [u'__init__', u'__class__', u'__getattribute__', u'__dict__', u'_Svc__p', u'__call__', u'__import__',
                                         u'_', u'func_globals', u'im_func', u'__doc__', u'mro'])
    verify(s, build(names), names, target, [])


def t_listed(s):
    """the methods a service lists for its own use are the public ones"""
    svc = s.choice('service', [Svc, Svc(), Old, Old(), Callable()])
    listed = gateway.ServiceWrapper(svc).getMethods()
    want = s.is_(svc, Old) or svc is Old
    s.check(sorted(listed) == (want and ['m'] or ['m', 'mm']), 'public methods')
    for k in listed:
        s.check(listed[k] == getattr(svc, k), 'method')


def t_of_function(s):
    """attributes of functions and callables are no methods of the service"""
    names = {u'f': 'f', u'c': 'call'}
    t = u'f.' + s.choice('m', [u'func_globals', u'func_code', u'__call__', u'func_name', u'__globals__', u'm'])
    gw = build(names)
    code, result = ask(s, gw, t, [], 'amf0')
    s.check(code in ('Service.MethodNotFound', 'Service.MethodInvalid'), 'refused')


def t_arguments(s):
    """the arguments sent are those received, in both protocols"""
    names = SETS[0]
    protocol = s.choice('protocol', ['amf0', 'operation', 'destination'])
    args = []
    for i in range(s.choice('n', 4)):
        args.append(s.choice('k%d' % i, [s.int('i%d' % i, -1000, 1000), s.uni('u%d' % i, 1), None, [1]]))
    verify(s, build(names), names, s.choice('target', [u'a.m', u'a.b', u'b.mm']), args, protocol)


def t_remote_object(s):
    """RemoteObject requests: the same names, given as destination and operation"""
    names = s.choice('names', SETS)
    protocol = s.choice('protocol', ['operation', 'destination'])
    target = s.choice('name', [u'a', u'a.b', u'b', u'\xe9', u'c', u'a.m', u'm', u'_']) + s.choice('method', [u'', u'.m', u'._m', u'.v', u'.x', u'.\xe9', u'.'])
    verify(s, build(names), names, target, [s.int('x', 0, 9)], protocol)


def t_no_name(s):
    """RemoteObject requests without a name, or with one that is no text, are refused"""
    gw = build(SETS[0])
    del CALLS[:]
    op = s.choice('op', [None, 5, 1.5, [], {}, True])
    msg = messaging.RemotingMessage(operation=op, destination=s.choice('dest', [None, u'a', 7, []]), body=[], messageId='1')
    env = remoting.Envelope(3)
    req = remoting.Request(u'null', [msg], env)
    res = gw.getProcessor(req)(req)
    s.check(res.status == remoting.STATUS_ERROR, 'accepted')
    s.check(res.body.faultCode in ('Service.ResourceNotFound', 'Service.MethodNotFound', 'Service.MethodInvalid'), 'matching error')
    s.check(not CALLS, 'something was called')


def t_exposed_request(s):
    """the request comes first exactly where asked for"""
    names = {u'a': 'class', u'f': 'f'}
    gw = gateway.BaseGateway(expose_request=s.choice('gateway', [False, True]))
    own = s.choice('service', [None, False, True])
    gw.addService(f, u'f', expose_request=own)
    gw.addService(Svc, u'a', expose_request=own)
    x = s.int('x', 0, 99)
    del CALLS[:]
    env = remoting.Envelope(0)
    http = object()
    req = remoting.Request(s.choice('target', [u'f', u'a.m']), [x], env)
    res = gw.getProcessor(req)(req, http_request=http)
    s.check(res.status == remoting.STATUS_OK and len(CALLS) == 1, 'called once')
    exposed = own
    if own is None:
        exposed = gw.expose_request
    got = CALLS[0][1]
    if exposed:
        s.check(len(got) == 2 and got[0] is http and got[1] == x, 'request and arguments')
    else:
        s.check(len(got) == 1 and got[0] == x, 'arguments alone')


def t_histories(s):
    """after any additions and removals, exactly the registered names resolve"""
    gw = gateway.BaseGateway()
    svcs = {'f': f, 'g': g, 'class': Svc}
    model = {}
    pool = [u'a', 'a', u'ab']
    for i in range(s.quick and 3 or 4):
        op = s.choice('op%d' % i, ['add', 'remove', 'remove value', 'skip'])
        if op == 'add':
            name, kind = s.choice('n%d' % i, pool), s.choice('k%d' % i, ['f', 'g', 'class'])
            try:
                gw.addService(svcs[kind], name)
                s.check(name not in model, 'replaced an existing service')
                model[name] = kind
            except remoting.RemotingError:
                s.check(name in model, 'refused a new name')
        elif op == 'remove':
            name = s.choice('n%d' % i, pool)
            try:
                gw.removeService(name)
                s.check(name in model, 'removed what is not there')
                del model[name]
            except NameError:
                s.check(name not in model, 'refused to remove')
        elif op == 'remove value':
            kind = s.choice('k%d' % i, ['f', 'class'])
            have = [n for n in model if model[n] == kind]
            try:
                gw.removeService(svcs[kind])
                s.check(have, 'removed what is not there')
                left = [n for n in have if n in gw.services]
                s.check(len(left) == len(have) - 1, 'removed one')
                for n in have:
                    if n not in left:
                        del model[n]
            except NameError:
                s.check(not have, 'refused to remove')
    s.check(len(gw.services) == len(model), 'number of services')
    for n in pool:
        s.check((n in gw.services) == (n in model), 'registered')
    for t in (u'a', u'ab', u'a.m', u'ab.m', u'b', u'm'):
        verify(s, gw, model, t, [7])


def t_default_names(s):
    """a service added without a name has the name of what it is"""
    gw = gateway.BaseGateway()
    k = s.choice('kind', ['class', 'old', 'f', 'mod'])
    gw.addService(service(k))
    name = {'class': u'Svc', 'old': u'Old', 'f': u'f', 'mod': u'svcmod'}[k]
    s.check(list(gw.services) == [name], 'name')
    verify(s, gw, {name: k}, name + s.choice('m', [u'', u'.m', u'._m']), [1])


def t_add_refused(s):
    """scalars are no services, and a gateway takes a dictionary and known settings"""
    v = s.choice('v', [s.int('i', -5, 5), 1.5, u'text', 'text', True, 2 ** 40])
    gw = gateway.BaseGateway()
    try:
        gw.addService(v, u'x')
        s.fail('scalar accepted')
    except TypeError:
        pass
    s.check(len(gw.services) == 0, 'unchanged')
    for a, k in (([[1]], {}), ([], {'unknown': 1})):
        try:
            gateway.BaseGateway(*a, **k)
            s.fail('accepted')
        except TypeError:
            pass


def t_describe(s):
    """a description request gives the description and calls nothing"""
    gw = gateway.BaseGateway()
    gw.addService(f, u'f', description=u'about f')
    env = remoting.Envelope(0)
    if s.bool('describe'):
        env.headers[u'DescribeService'] = None
    req = remoting.Request(u'f', [1], env)
    del CALLS[:]
    res = gw.getProcessor(req)(req)
    if u'DescribeService' in env.headers:
        s.check(res.body == u'about f' and not CALLS, 'description')
    else:
        s.check(res.body == 'f' and len(CALLS) == 1, 'called')
