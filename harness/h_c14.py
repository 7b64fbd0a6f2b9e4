# C14: protected services run only after their authenticator accepted the caller
import base64
import types
import pyamf
from pyamf import remoting
from pyamf.remoting import gateway
from pyamf.flex import messaging
import hx

BOUNDS = ('every combination of settings at method, service and gateway level, for class, old-style class, instance, callable instance, '
          'function and module services; every result of the authenticator out of True, False, other values and an exception; credentials '
          'absent, any text of up to 2 (thorough: 3) characters, user names and passwords separately, or malformed; AMF0 requests, RemoteObject requests with packet credentials '
          'and with DSRemoteCredentials in both charsets')
ASSUMPTIONS = ['settings per method are attached to the method or to a callable service itself; attributes on a class whose methods are called '
               'are not documented to apply to its methods',
               'which arguments beyond the service request a preprocessor gets differs between the protocols and is not claimed']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.flex.messaging']
LOG = []
KINDS = ['class', 'old', 'instance', 'callable', 'callable method', 'function', 'module']


class Refused(Exception):
    pass


def target_of(kind):
    return kind in ('callable', 'function') and u'svc' or u'svc.m'


def service(kind, decorate):
    """a fresh service of that kind; decorate is applied to what gets called"""
    def func(*args):
        LOG.append(('service', args))
        return 'done'

    def method(self, *args):
        LOG.append(('service', args))
        return 'done'
    if kind == 'function':
        decorate(func)
        return func
    if kind == 'module':
        m = types.ModuleType('protected')
        m.m = func
        m.n = lambda *a: None
        decorate(func)
        return m
    if kind == 'old':
        class S:
            m = method

            def n(self):
                pass
    else:
        class S(object):
            m = method

            def n(self):
                pass
    if kind == 'callable':
        class C(object):
            __call__ = method
        decorate(C.__call__)
        return C()
    if kind == 'callable method':
        class C(S):
            def __call__(self):
                LOG.append(('wrong', ()))
        decorate(C.m)
        return C()
    decorate(S.m)
    if kind == 'instance':
        return S()
    return S


class Hollow(dict):
    """something to call that counts as false"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)


def authenticator(name, outcome):
    def auth(*args):
        LOG.append((name, args))
        if outcome == 'raise':
            raise Refused('no')
        return outcome
    return auth


def preprocessor(name, outcome):
    def pre(*args):
        LOG.append((name, args))
        if outcome == 'raise':
            raise Refused('no')
        return outcome
    return pre


def send(s, gw, target, args, how, cred, http=None, headers=None):
    """-> (accepted, error code, result); how: amf0, packet, ds, ds-utf8"""
    env = remoting.Envelope(how != 'amf0' and 3 or 0)
    if headers:
        for k, v in headers.items():
            env.headers[k] = v
    if how in ('amf0', 'packet') and cred is not None:
        env.headers[u'Credentials'] = {u'userid': cred[0], u'password': cred[1]}
    if how == 'amf0':
        req = remoting.Request(target, args, env)
    else:
        msg = messaging.RemotingMessage(operation=target, body=args, messageId='1', headers={})
        if how in ('ds', 'ds-utf8') and cred is not None:
            text = cred[0] + u':' + cred[1]
            if how == 'ds-utf8':
                msg.headers['DSRemoteCredentialsCharset'] = 'UTF-8'
            msg.headers['DSRemoteCredentials'] = base64.b64encode(text.encode(how == 'ds' and 'iso-8859-1' or 'utf-8'))
        req = remoting.Request(u'null', [msg], env)
    return reply(s, gw, req, http)


def reply(s, gw, req, http=None):
    res = gw.getProcessor(req)(req, http_request=http)
    s.check(type(res) is remoting.Response, 'a response')
    if res.status == remoting.STATUS_OK:
        return True, None, res.body
    s.check(res.status == remoting.STATUS_ERROR, 'status')
    if type(res.body) is remoting.ErrorFault:
        return False, res.body.code, res.body
    s.check(type(res.body) is messaging.ErrorMessage, 'error')
    return False, res.body.faultCode, res.body


def calls(*names):
    return [x for x in LOG if x[0] in names]


OUTCOMES = [True, False, 1, None, u'True', 'raise', 1.0]


def t_authenticator(s):
    """the most specific authenticator decides, and only True lets the request through"""
    del LOG[:]
    outcome = s.choice('outcome', s.quick and OUTCOMES[:6] or OUTCOMES)
    kind = s.choice('kind', KINDS)
    levels = []
    for l in ('method', 'service', 'gateway'):
        if s.bool(l):
            levels.append(l)
    level = levels and levels[0] or None
    auth = dict((l, authenticator(l, True)) for l in levels)
    if level is not None:
        auth[level] = authenticator(level, outcome)
        if level != 'method' and s.bool('hollow'):
            auth[level] = Hollow(auth[level])

    def decorate(f):
        if 'method' in auth:
            gateway.authenticate(f, auth['method'])
    gw = gateway.BaseGateway(authenticator=auth.get('gateway'))
    gw.addService(service(kind, decorate), u'svc', authenticator=auth.get('service'))
    how = s.choice('how', ['amf0', 'packet', 'ds', 'ds-utf8'])
    hi = how == 'ds' and 0xff or 0x10ffff
    cred = None
    if s.bool('credentials'):
        user = s.quick and s.uni('user', 1, 0x7f) or s.uni_upto('user', 2, hi)
        password = s.uni_upto('password', s.quick and 1 or 2, hi)
        if how[:2] == 'ds':
            for c in user:
                s.assume(c != u':')
        cred = (user, password)
    ok, code, body = send(s, gw, target_of(kind), [3], how, cred)
    asked = calls('method', 'service', 'gateway')
    asked = [x for x in asked if x[1] != (3,)]
    ran = [x for x in calls('service') if x[1] == (3,)]
    s.check(not calls('wrong'), 'something else was called')
    if level is None:
        s.check(ok and len(ran) == 1 and len(asked) == 0, 'free for all')
        return
    s.check(len(asked) == 1 and asked[0][0] == level, 'the most specific authenticator was asked, once')
    got = asked[0][1]
    s.check(len(got) == 2, 'arguments of the authenticator')
    if cred is None:
        s.check(got[0] is None and got[1] is None, 'no credentials')
    else:
        s.check(got[0] == cred[0], 'user name')
        s.check(got[1] == cred[1], 'password')
    if outcome is True:
        s.check(ok and len(ran) == 1, 'accepted')
        s.check(LOG[-1] == ('service', (3,)), 'service last')
    else:
        s.check(not ok and len(ran) == 0, 'refused')
        if outcome != 'raise':
            s.check(code == 'AuthenticationError', 'authentication error')


def t_secret(s):
    """exactly the right user name and password get through"""
    del LOG[:]
    secret = (s.uni('name', 1), s.uni('secret', 2))

    def auth(user, password):
        return user == secret[0] and password == secret[1]
    gw = gateway.BaseGateway(authenticator=auth)
    gw.addService(service('function', lambda f: None), u'svc')
    how = s.choice('how', ['amf0', 'packet', 'ds-utf8'])
    user, password = s.uni_upto('user', s.quick and 1 or 2), s.uni_upto('password', s.quick and 2 or 3)
    if how == 'ds-utf8':
        for c in user:
            s.assume(c != u':')
    ok, code, body = send(s, gw, u'svc', [3], how, (user, password))
    right = len(user) == 1 and len(password) == 2 and s.And(user == secret[0], password == secret[1])
    s.check(s.Implies(right, ok), 'right credentials refused')
    s.check(s.Implies(s.Not(right), s.Not(ok)), 'wrong credentials accepted')
    s.check((len(LOG) == 1) == ok, 'service called')


MALFORMED = [None, 5, u'text', {}, {u'userid': u'a'}, {u'password': u'b'}, [], [u'userid', u'password'], True,
             {u'userid': None, u'password': None}, {u'userid': [], u'password': {}}]


def t_malformed(s):
    """malformed credentials: the service runs only if the authenticator said so"""
    del LOG[:]
    how = s.choice('how', ['amf0', 'packet'])
    gw = gateway.BaseGateway(authenticator=authenticator('auth', s.choice('outcome', [True, False])))
    gw.addService(service('class', lambda f: None), u'svc')
    v = s.choice('v', MALFORMED)
    ok, code, body = send(s, gw, u'svc.m', [3], how, None, headers={u'Credentials': v})
    asked = calls('auth')
    s.check(len(calls('service')) == (ok and 1 or 0), 'service called')
    if ok:
        s.check(len(asked) == 1 and gw.authenticator is not None, 'authenticator asked')
        s.check(LOG[0][0] == 'auth', 'first')


def t_malformed_ds(s):
    """malformed RemoteObject credentials likewise"""
    del LOG[:]
    outcome = s.choice('outcome', [True, False])
    gw = gateway.BaseGateway(authenticator=authenticator('auth', outcome))
    gw.addService(service('class', lambda f: None), u'svc')
    v = s.choice('v', [u'', u'!!!', u'YWJj', u'YWI6Y2Q=', u'YWI6Y2Q', 5, [], {}, None, True, '\xff', u'\u1234', u'/////w=='])
    h = s.choice('headers', [{'DSRemoteCredentials': v}, {'DSRemoteCredentials': v, 'DSRemoteCredentialsCharset': 'UTF-8'},
                             {'DSRemoteCredentials': v, 'DSRemoteCredentialsCharset': 5}, None, [], u'text', 5])
    msg = messaging.RemotingMessage(operation=u'svc.m', body=[3], messageId='1', headers=h)
    req = remoting.Request(u'null', [msg], remoting.Envelope(3))
    ok, code, body = reply(s, gw, req)
    asked = calls('auth')
    s.check(len(calls('service')) == (ok and 1 or 0), 'service called')
    s.check(s.Implies(ok, outcome), 'refused credentials accepted')
    if ok:
        s.check(len(asked) == 1 and LOG[0][0] == 'auth', 'authenticator asked first')


def t_other_messages(s):
    """no other kind of RemoteObject message reaches a service"""
    del LOG[:]
    gw = gateway.BaseGateway(authenticator=authenticator('auth', False))
    gw.addService(service('function', lambda f: None), u'svc')
    cls = s.choice('class', [messaging.CommandMessage, messaging.AsyncMessage, messaging.AcknowledgeMessage, messaging.ErrorMessage,
                             messaging.AbstractMessage, messaging.CommandMessageExt, messaging.AsyncMessageExt])
    msg = cls(operation=s.choice('operation', [u'svc', s.int('op', -2, 30)]), destination=s.choice('destination', [None, u'svc']), body=[3],
              messageId='1')
    req = remoting.Request(u'null', [msg], remoting.Envelope(3))
    reply(s, gw, req)
    s.check(not calls('service'), 'service called')


def t_description(s):
    """descriptions of protected services are protected too"""
    del LOG[:]
    outcome = s.choice('outcome', OUTCOMES)
    gw = gateway.BaseGateway()
    gw.addService(service('function', lambda f: None), u'svc', description=u'secret', authenticator=authenticator('auth', outcome))
    ok, code, body = send(s, gw, u'svc', [], 'amf0', None, headers={u'DescribeService': None})
    s.check(not calls('service'), 'service called')
    s.check(len(calls('auth')) == 1, 'asked')
    s.check(ok == (outcome is True), 'authenticated')
    if ok:
        s.check(body == u'secret', 'description')


def t_preprocessor(s):
    """the most specific preprocessor runs once, between authentication and service; if it fails nothing is called"""
    del LOG[:]
    outcome = s.choice('outcome', [None, False, True, 'raise'])
    authok = s.choice('auth', [None, True, False])
    kind = s.choice('kind', KINDS)
    exposed = s.bool('exposed')
    hollow = s.bool('hollow')
    levels = []
    for l in ('method', 'service', 'gateway'):
        if s.bool(l):
            levels.append(l)
    level = levels and levels[0] or None
    pre = {}
    for l in levels:
        pre[l] = preprocessor('pre ' + l, outcome)
        if l != 'method' and hollow:
            pre[l] = Hollow(pre[l])
        if exposed and l != 'method':
            gateway.expose_request(pre[l])

    def decorate(f):
        if 'method' in pre:
            gateway.preprocess(f, pre['method'], expose_request=exposed)
    gw = gateway.BaseGateway(preprocessor=pre.get('gateway'), authenticator=authok is not None and authenticator('auth', authok) or None)
    gw.addService(service(kind, decorate), u'svc', preprocessor=pre.get('service'))
    http = object()
    ok, code, body = send(s, gw, target_of(kind), [3], s.choice('how', ['amf0', 'ds']), None, http=http)
    order = [x[0] for x in LOG]
    want = []
    if authok is not None:
        want.append('auth')
    if authok is not False:
        if level is not None:
            want.append('pre ' + level)
        if level is None or outcome != 'raise':
            want.append('service')
    s.check(order == want, 'what was called, in order')
    s.check(ok == (want[-1] == 'service'), 'accepted')
    for name, args in LOG:
        if name[:3] == 'pre':
            if exposed:
                s.check(args[0] is http, 'request exposed')
                args = args[1:]
            s.check(type(args[0]) is gateway.ServiceRequest and args[0].service is gw.services[u'svc'], 'service request')
            s.check(not [x for x in args[1:] if x is http], 'request not exposed')


def t_exposed_authenticator(s):
    """an authenticator gets the request first exactly if it asks for it"""
    del LOG[:]
    how = s.choice('how', ['amf0', 'packet', 'ds'])
    level = s.choice('level', ['method', 'service', 'gateway'])
    style = s.choice('style', ['no', 'argument', 'decorator'])
    auth = authenticator('auth', True)
    if style == 'decorator':
        auth = gateway.expose_request(auth)
    s.assume(style != 'argument' or level == 'method')

    def decorate(f):
        if level == 'method':
            gateway.authenticate(f, auth, expose_request=style == 'argument')
    gw = gateway.BaseGateway(authenticator=level == 'gateway' and auth or None)
    kind = s.choice('kind', KINDS)
    gw.addService(service(kind, decorate), u'svc', authenticator=level == 'service' and auth or None)
    http = object()
    user = s.uni('user', 1, 0xff)
    s.assume(user != u':')
    ok, code, body = send(s, gw, target_of(kind), [3], how, (user, u'pw'), http=http)
    s.check(ok and len(calls('auth')) == 1, 'asked')
    args = calls('auth')[0][1]
    if style != 'no':
        s.check(len(args) == 3 and args[0] is http, 'request exposed')
        args = args[1:]
    s.check(len(args) == 2 and args[0] == user and args[1] == u'pw', 'credentials')
    s.check(calls('service')[0][1] == (3,), 'service without request')


def t_exposed_service(s):
    """whether the service gets the request: method before service before gateway"""
    del LOG[:]
    kind = s.choice('kind', KINDS)
    own, svc, gate = s.bool('method'), s.choice('service', [None, False, True]), s.choice('gateway', [None, False, True])

    def decorate(f):
        if own:
            gateway.expose_request(f)
    gw = gateway.BaseGateway(expose_request=gate)
    gw.addService(service(kind, decorate), u'svc', expose_request=svc)
    http = object()
    ok, code, body = send(s, gw, target_of(kind), [3], s.choice('how', ['amf0', 'ds']), None, http=http)
    s.check(ok and len(LOG) == 1, 'called')
    exposed = own or svc
    if not own and svc is None:
        exposed = gate
    args = LOG[0][1]
    if exposed:
        s.check(len(args) == 2 and args[0] is http and args[1] == 3, 'request and arguments')
    else:
        s.check(args == (3,), 'arguments')


def t_two_methods(s):
    """settings of one method or service do not apply to another"""
    del LOG[:]

    class S(object):
        def m(self):
            LOG.append(('service', ()))

        def n(self):
            LOG.append(('service', ()))
    gateway.authenticate(S.m, authenticator('auth', False))
    gw = gateway.BaseGateway()
    gw.addService(S, u'a')
    gw.addService(service('function', lambda f: None), u'b', authenticator=authenticator('auth b', s.choice('b', [True, False])))
    gw.addService(service('function', lambda f: None), u'c')
    t = s.choice('target', [u'a.m', u'a.n', u'b', u'c'])
    ok, code, body = send(s, gw, t, [], s.choice('how', ['amf0', 'ds']), None)
    s.check(len(calls('auth')) == (t == u'a.m' and 1 or 0), 'authenticator of the method')
    s.check(len(calls('auth b')) == (t == u'b' and 1 or 0), 'authenticator of the service')
    s.check(len(calls('service')) == (ok and 1 or 0), 'called')
    if t == u'a.m':
        s.check(not ok, 'refused')
    elif t != u'b':
        s.check(ok, 'not refused')


def t_on_the_fly(s):
    """settings of methods a service makes on the fly apply too"""
    del LOG[:]
    what = s.choice('what', ['nothing', 'auth', 'pre', 'expose'])
    outcome = s.choice('outcome', [True, False])

    def m(*args):
        LOG.append(('service', args))
        return 7
    if what == 'auth':
        gateway.authenticate(m, authenticator('auth', outcome))
    elif what == 'pre':
        gateway.preprocess(m, preprocessor('pre', not outcome and 'raise' or None))
    elif what == 'expose':
        gateway.expose_request(m)

    class S(object):
        def __getattr__(self, name):
            if name != 'm':
                raise AttributeError(name)
            return m
    gw = gateway.BaseGateway()
    gw.addService(S(), u's', authenticator=s.choice('service', [None, authenticator('wrong', what != 'auth')]))
    t = s.choice('target', [u's.m', u's.n', u's.\xe9', u's._m'])
    ok, code, body = send(s, gw, t, [3], s.choice('how', ['amf0', 'ds']), None, 'http')
    good = t == u's.m' and (outcome or what not in ('auth', 'pre'))
    s.check(ok == good, 'answer')
    s.check(len(calls('auth')) == (what == 'auth' and t == u's.m' and 1 or 0), 'authenticator of the method')
    s.check(len(calls('pre')) == (what == 'pre' and t == u's.m' and 1 or 0), 'preprocessor of the method')
    s.check(calls('service') == (good and [('service', what == 'expose' and ('http', 3) or (3,))] or []), 'called')


def t_decorators_refuse(s):
    """decorators take callables only, and give back the function"""
    bad = s.choice('bad', [None, 5, u'x', [], {}])

    def f():
        pass
    for g in (lambda: gateway.authenticate(bad, f), lambda: gateway.authenticate(f, bad), lambda: gateway.preprocess(bad, f),
              lambda: gateway.preprocess(f, bad), lambda: gateway.expose_request(bad)):
        try:
            g()
            s.fail('accepted')
        except TypeError:
            pass
    s.check(gateway.authenticate(f, f) is f and gateway.preprocess(f, f) is f and gateway.expose_request(f) is f, 'returned')
