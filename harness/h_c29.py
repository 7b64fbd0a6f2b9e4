# C29: Twisted and App Engine gateways answer every request once, like the WSGI gateway
import base64
import pyamf
from pyamf import remoting
from pyamf.remoting import gateway
from pyamf.flex import messaging
import hx
import tx

BOUNDS = ('batches of up to 2 (thorough: 3) requests in both protocols; services, authenticators and preprocessors that answer at once, later, '
          'fail at once or later, in every order in which threads finish and results arrive; bodies of up to 6 (thorough: 8) arbitrary bytes; '
          'credentials of one arbitrary character each; failures while decoding, processing and encoding')
ASSUMPTIONS = ['Twisted and App Engine are not installed: Deferred, DeferredList, maybeDeferred, deferToThread, Failure, Resource and Request, '
               'and the webapp request handler are modelled as documented (harness/tx.py)',
               'a thread runs its work as one step: what it works on is not shared with the event loop']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.flex.messaging']
LOG = []
SECRET = 'the secret text'


class Refused(Exception):
    pass


class Coded(Exception):
    _amf_code = 'Some.Code'


class Log(object):
    def error(self, msg, *args):
        self.text = args and msg % args or msg

    exception = debug = info = warn = warning = error

    def log(self, level, msg, *args):
        self.error(msg, *args)

    def isEnabledFor(self, level):
        return True


def behaviour(s, reactor, name, how, value):
    """something that answers with value in one of the ways"""
    def f(*args):
        LOG.append((name, args))
        if how == 'raise':
            raise Coded(SECRET)
        if how == 'later':
            return reactor.later(value)
        if how == 'fails later':
            return reactor.later(None, Coded(SECRET))
        if how == 'succeed':
            return tx.succeed(value)
        return value
    return f


WAYS = ['now', 'later', 'raise', 'fails later']


def twisted(s, services, **kw):
    reactor = tx.install(s)
    from pyamf.remoting.gateway import twisted
    kw.setdefault('expose_request', False)
    return reactor, twisted.TwistedGateway(services, **kw)


def request_for(env, protocol, target, args, headers=None):
    if protocol == 'amf0':
        return remoting.Request(target, args, env)
    return remoting.Request(u'null', [messaging.RemotingMessage(operation=target, body=args, messageId=u'm', headers=headers or {})], env)


class Content(object):
    def __init__(self, data):
        self.data = data
        self.pos = 3

    def seek(self, pos, whence=0):
        assert whence == 0
        self.pos = pos

    def read(self):
        r = self.data[self.pos:]
        self.pos = len(self.data)
        return r


def post(s, reactor, gw, data):
    """-> the finished request"""
    req = tx.Request(Content(data))
    s.check(gw.render_POST(req) == tx.NOT_DONE_YET, 'to be continued')
    reactor.run(s)
    s.check(req.finished == 1, 'finished once')
    body = ''.join(req.written)
    s.check(req.headers.get('Content-Length') == str(len(body)), 'content length')
    req.body = body
    if req.code == 200:
        s.check(req.headers['Content-Type'] == 'application/x-amf', 'content type')
        req.env = remoting.decode(body)
    else:
        s.check(req.headers['Content-Type'] != 'application/x-amf', 'content type of an error')
        s.check(gw.debug or (SECRET not in body and 'Traceback' not in body), 'internals disclosed')
    return req


def answer(s, env, name):
    """-> (accepted, value or error code) of the one answer of that name"""
    found = [m for n, m in list(env) if n == name]
    s.check(len(found) == 1, 'exactly one answer')
    m = found[0]
    body = m.body
    if m.status == remoting.STATUS_OK:
        if isinstance(body, messaging.AcknowledgeMessage):
            s.check(not isinstance(body, messaging.ErrorMessage), 'an error as result')
            s.check(body.correlationId == u'm', 'correlation')
            body = body.body
        return True, body
    s.check(m.status == remoting.STATUS_ERROR, 'status')
    if isinstance(body, messaging.ErrorMessage):
        return False, body.faultCode
    s.check(isinstance(body, remoting.ErrorFault), 'an error')
    return False, body.code


def names():
    return [x[0] for x in LOG]


def t_stages(s):
    """authenticator, preprocessor and service run in turn, each when the one before has answered"""
    del LOG[:]
    protocol = s.choice('protocol', ['amf0', 'amf3'])
    auth = s.choice('auth', [None] + WAYS)
    accept = True
    pre, how = None, 'now'
    if auth in ('now', 'later'):
        accept = s.choice('accept', s.quick and [True, False, 1] or [True, False, None, 1, u'yes'])
    if auth not in ('raise', 'fails later') and accept is True:
        pre = s.choice('pre', [None] + WAYS)
        if pre not in ('raise', 'fails later'):
            how = s.choice('service', WAYS)
    reactor, gw = twisted(s, {})
    x = s.int('x', 1000000, 1001000)
    gw.addService(behaviour(s, reactor, 'service', how, [x]), 'svc')
    if auth is not None:
        gw.authenticator = behaviour(s, reactor, 'auth', auth, accept)
    if pre is not None:
        gw.preprocessor = behaviour(s, reactor, 'pre', pre, 5)
    if not s.quick and s.bool('logger'):
        gw.logger = Log()
    env = remoting.Envelope(protocol == 'amf0' and 0 or 3)
    env[u'/1'] = request_for(env, protocol, u'svc', [x])
    r = post(s, reactor, gw, remoting.encode(env).getvalue())
    s.check(r.code == 200, 'status')
    ok, got = answer(s, r.env, u'/1')
    expect = []
    fate = None
    for name, h in (('auth', auth), ('pre', pre), ('service', how)):
        if h is None:
            continue
        expect.append(name)
        if h in ('raise', 'fails later'):
            fate = 'Some.Code'
            break
        if name == 'auth' and accept is not True:
            fate = 'AuthenticationError'
            break
    s.check(names() == expect, 'what ran')
    if fate is None:
        s.check(ok and hx.equal(s, [x], got), 'result')
    else:
        s.check(not ok and got == fate, 'error')
    if 'service' in names():
        s.check(hx.equal(s, [x], list(LOG[-1][1])), 'arguments')


OUTCOMES = ['now', 'later', 'raise', 'fails later', 'unknown', 'refused', 'odd']


def t_batch(s):
    """each request of a batch is answered once and as it would be alone, in whatever order results arrive"""
    del LOG[:]
    n = s.quick and 2 or s.choice('n', [1, 2, 3])
    version = s.quick and 3 or s.choice('version', [0, 3])
    reactor, gw = twisted(s, {})

    def no(*a):
        return reactor.later(False)
    env = remoting.Envelope(version)
    plan = []
    for i in range(n):
        protocol = s.choice('protocol%d' % i, version == 3 and ['amf0', 'amf3'] or ['amf0'])
        outcome = s.choice('outcome%d' % i, OUTCOMES)
        plan.append(outcome)
        name = u's%d' % i
        if outcome != 'unknown':
            gw.addService(behaviour(s, reactor, i, outcome, i + 70), name, authenticator=outcome == 'refused' and no or None)
        if outcome == 'odd' and protocol == 'amf3':
            env[u'/%d' % i] = remoting.Request(u'null', s.choice('body%d' % i, [[], [5], [None], [u'text'], [messaging.CommandMessage(operation=77)]]), env)
        elif outcome == 'odd':
            env[u'/%d' % i] = remoting.Request(name + u'.missing', [], env)
        else:
            env[u'/%d' % i] = request_for(env, protocol, name, [])
    r = post(s, reactor, gw, remoting.encode(env).getvalue())
    s.check(r.code == 200, 'status')
    s.check(r.env.amfVersion == version, 'version')
    s.check(len(list(r.env)) == n, 'as many answers as requests')
    for i in range(n):
        ok, got = answer(s, r.env, u'/%d' % i)
        if plan[i] in ('now', 'later'):
            s.check(ok and got == i + 70, 'result')
        else:
            s.check(not ok, 'error')
            if plan[i] in ('raise', 'fails later'):
                s.check(got == 'Some.Code', 'error code')
            elif plan[i] == 'unknown':
                s.check(got == 'Service.ResourceNotFound', 'error code')
            elif plan[i] == 'refused':
                s.check(got == 'AuthenticationError', 'error code')
        s.check(names().count(i) == (plan[i] in WAYS and 1 or 0), 'called once or not at all')


def t_credentials(s):
    """the authenticator gets exactly the credentials sent, wherever they stand; exposed requests come first"""
    del LOG[:]
    how = s.choice('how', ['amf0', 'packet', 'ds', 'ds-utf8', 'none', 'amf3 none'])
    hi = how == 'ds' and 0xff or 0xffff
    user, password = s.uni('user', 1, hi), s.uni('password', 1, hi)
    s.assume(user != u':')
    reactor, gw = twisted(s, {})
    right = s.bool('right')

    def auth(*args):
        LOG.append(('auth', args))
        return reactor.later(right)
    exposed = s.bool('exposed')
    if exposed:
        auth = gateway.expose_request(auth)
    gw.addService(behaviour(s, reactor, 'service', 'now', 1), 'svc', authenticator=auth)
    env = remoting.Envelope(how in ('amf0', 'none') and 0 or 3)
    headers = {}
    if how in ('amf0', 'packet'):
        env.headers[u'Credentials'] = {u'userid': user, u'password': password}
    elif how in ('ds', 'ds-utf8'):
        if how == 'ds-utf8':
            headers['DSRemoteCredentialsCharset'] = 'UTF-8'
        headers['DSRemoteCredentials'] = base64.b64encode((user + u':' + password).encode(how == 'ds' and 'iso-8859-1' or 'utf-8'))
    env[u'/1'] = request_for(env, how in ('amf0', 'none') and 'amf0' or 'amf3', u'svc', [], headers)
    r = post(s, reactor, gw, remoting.encode(env).getvalue())
    ok, got = answer(s, r.env, u'/1')
    args = LOG[0][1]
    if exposed:
        s.check(args[0] is r, 'request')
        args = args[1:]
    if 'none' in how:
        s.check(args == (None, None), 'no credentials')
    else:
        s.check(len(args) == 2 and hx.equal(s, [user, password], list(args)), 'credentials')
    s.check(ok == right, 'accepted')
    s.check(names() == (right and ['auth', 'service'] or ['auth']), 'what ran')


def t_any_body(s):
    """arbitrary bytes are answered with 400 or, if they are an envelope, 200"""
    reactor, gw = twisted(s, {}, debug=not s.quick and s.bool('debug'), strict=not s.quick and s.bool('strict'))
    r = post(s, reactor, gw, s.bytes_upto('data', s.quick and 6 or 8))
    s.check(r.code in (200, 400), 'status')
    if r.code == 200:
        s.check(len(list(r.env)) == 0, 'no answers')


def t_truncated(s):
    """an envelope cut off anywhere is a bad request and nothing is called"""
    del LOG[:]
    env = remoting.Envelope(s.choice('version', [0, 3]))
    env[u'/1'] = remoting.Request(u'svc', [u'text', 5], env)
    data = remoting.encode(env, strict=True).getvalue()
    which = s.choice('gateway', ['twisted', 'webapp'])
    cut = s.choice('cut', len(data))
    if which == 'twisted':
        reactor, gw = twisted(s, {}, debug=s.bool('debug'))
        gw.addService(behaviour(s, reactor, 'service', 'now', 1), 'svc')
        r = post(s, reactor, gw, data[:cut])
        s.check(r.code == 400, 'status')
    else:
        gw = webapp(s, {'svc': behaviour(s, None, 'service', 'now', 1)}, debug=s.bool('debug'))
        r = handle(s, gw, data[:cut])
        s.check(r.status == 400, 'status')
    s.check(LOG == [], 'called')


class FailingAttribute(object):
    class __amf__:
        static = ('x',)

    @property
    def x(self):
        raise ValueError(SECRET)


def t_unencodable(s):
    """a result that cannot be encoded is one 500"""
    bad = s.choice('bad', [hx, type, FailingAttribute(), [1, hx]])
    debug = s.bool('debug')
    protocol = s.choice('protocol', ['amf0', 'amf3'])
    which = s.choice('gateway', ['twisted', 'webapp'])
    env = remoting.Envelope(3)
    env[u'/1'] = request_for(env, protocol, u'ok', [])
    env[u'/2'] = request_for(env, protocol, u'bad', [])
    data = remoting.encode(env).getvalue()
    if which == 'twisted':
        reactor, gw = twisted(s, {}, debug=debug)
        gw.addService(behaviour(s, reactor, 'ok', 'later', 1), 'ok')
        gw.addService(behaviour(s, reactor, 'bad', s.choice('how', ['now', 'later']), bad), 'bad')
        r = post(s, reactor, gw, data)
        s.check(r.code == 500, 'status')
    else:
        gw = webapp(s, {'ok': behaviour(s, None, 'ok', 'now', 1), 'bad': behaviour(s, None, 'bad', 'now', bad)}, debug=debug)
        r = handle(s, gw, data)
        s.check(r.status == 500, 'status')


def t_twisted_fails(s):
    """an internal failure while the requests are processed still finishes the response"""
    reactor, gw = twisted(s, {}, debug=s.bool('debug'))
    gw.addService(behaviour(s, reactor, 'service', 'later', 1), 'svc')
    if s.bool('logger'):
        gw.logger = Log()

    def broken(*a):
        raise Coded(SECRET)
    where = s.choice('where', ['getProcessor', 'getResponse'])
    setattr(gw, where, broken)
    env = remoting.Envelope(0)
    env[u'/1'] = remoting.Request(u'svc', [], env)
    r = post(s, reactor, gw, remoting.encode(env).getvalue())
    s.check(r.code in (400, 500), 'status')


def t_expose(s):
    """services get the request first, as Twisted gateways do by default, unless told otherwise"""
    del LOG[:]
    kw = {}
    expose = s.choice('expose', [None, True, False])
    if expose is not None:
        kw['expose_request'] = expose
    reactor = tx.install(s)
    from pyamf.remoting.gateway import twisted
    gw = twisted.TwistedGateway({}, **kw)
    gw.addService(behaviour(s, reactor, 'service', 'now', 1), 'svc')
    env = remoting.Envelope(3)
    x = s.int('x', 1000000, 1001000)
    protocol = s.choice('protocol', ['amf0', 'amf3'])
    env[u'/1'] = request_for(env, protocol, u'svc', [x])
    r = post(s, reactor, gw, remoting.encode(env).getvalue())
    args = list(LOG[0][1])
    if expose is not False:
        s.check(args[0] is r, 'request')
        args = args[1:]
    s.check(hx.equal(s, [x], args), 'arguments')
    s.check(type(r.amf_request) is remoting.Request, 'AMF request attached')
    s.check(twisted.TwistedGateway.allowedMethods == ('POST',), 'methods')


# ------------------------------------------------------------------ App Engine
def webapp(s, services, cls=None, **kw):
    tx.install_webapp(s)
    from pyamf.remoting.gateway import google
    base = google.WebAppGateway
    if cls is not None:
        class G(cls, base):
            pass
        base = G
    return base(services, **kw)


def handle(s, gw, data, method='POST'):
    h = gw()
    h.initialize(tx.WebRequest(method, data), tx.WebResponse())
    if method == 'POST':
        h.post()
    else:
        h.get()
    r = h.response
    r.body = ''.join(r.out.data)
    s.check(r.headers.get('Server') == gateway.SERVER_NAME, 'server')
    if r.status == 200:
        s.check(r.headers['Content-Type'] == 'application/x-amf', 'content type')
        s.check(r.headers['Content-Length'] == str(len(r.body)), 'content length')
        r.env = remoting.decode(r.body)
    else:
        s.check(r.headers['Content-Type'] == 'text/plain', 'content type of an error')
        if r.status != 405:
            s.check(('Traceback' in r.body) == gw.debug, 'traceback with debugging only')
            s.check(gw.debug or SECRET not in r.body, 'internals disclosed')
    return r


def t_webapp_batch(s):
    """the App Engine gateway answers each request of a batch once"""
    del LOG[:]
    version = s.choice('version', [0, 3])
    gw = webapp(s, {}, strict=s.bool('strict'))
    env = remoting.Envelope(version)
    plan = []
    n = s.choice('n', 3)
    x = s.int('x', 1000000, 1001000)
    for i in range(n):
        protocol = s.choice('protocol%d' % i, version == 3 and ['amf0', 'amf3'] or ['amf0'])
        outcome = s.choice('outcome%d' % i, ['now', 'raise', 'unknown', 'refused'])
        plan.append(outcome)
        if outcome != 'unknown':
            gw.addService(behaviour(s, None, i, outcome, [i, x]), u's%d' % i,
                          authenticator=outcome == 'refused' and (lambda *a: False) or None)
        env[u'/%d' % i] = request_for(env, protocol, u's%d' % i, [])
    r = handle(s, gw, remoting.encode(env, strict=True).getvalue())
    s.check(r.status == 200 and r.env.amfVersion == version and len(list(r.env)) == n, 'answers')
    for i in range(n):
        ok, got = answer(s, r.env, u'/%d' % i)
        if plan[i] == 'now':
            s.check(ok and hx.equal(s, [i, x], got), 'result')
        else:
            s.check(not ok and got == {'raise': 'Some.Code', 'unknown': 'Service.ResourceNotFound', 'refused': 'AuthenticationError'}[plan[i]], 'error')
        s.check(names().count(i) == (plan[i] in WAYS and 1 or 0), 'called')


def t_webapp_any_body(s):
    """arbitrary bytes are answered with 400 or, if they are an envelope, 200; other methods with 405"""
    gw = webapp(s, {}, debug=not s.quick and s.bool('debug'), logger=s.bool('logger') and Log() or None)
    method = s.choice('method', ['POST', 'GET'])
    r = handle(s, gw, s.bytes_upto('data', s.quick and 6 or 8), method)
    if method == 'GET':
        s.check(r.status == 405, 'status')
    else:
        s.check(r.status in (200, 400), 'status')
        if r.status == 200:
            s.check(len(list(r.env)) == 0, 'no answers')


class Failing(object):
    def getResponse(self, request):
        raise self.failure(SECRET)


class FailingProcessor(object):
    def getProcessor(self, request):
        raise self.failure(SECRET)


class OldError:
    def __init__(self, text):
        pass


def t_webapp_fails(s):
    """an internal failure is one 500; interrupts are passed on"""
    where = s.choice('where', ['decode', 'respond', 'process'])
    cls = {'decode': None, 'respond': Failing, 'process': FailingProcessor}[where]
    gw = webapp(s, {}, cls, debug=s.bool('debug'), logger=s.bool('logger') and Log() or None)
    failure = s.choice('failure', [ValueError, IOError, pyamf.EncodeError, OldError, KeyboardInterrupt, SystemExit])
    gw.failure = failure
    env = remoting.Envelope(0)
    env[u'/1'] = remoting.Request(u'svc', [], env)
    data = remoting.encode(env).getvalue()
    if where == 'decode':
        def broken(*a, **kw):
            raise failure(SECRET)
        s.stub('pyamf.remoting', {'decode': broken})
    try:
        r = handle(s, gw, data)
    except failure:
        s.check(failure in (KeyboardInterrupt, SystemExit), 'escaped')
        return
    s.check(failure not in (KeyboardInterrupt, SystemExit), 'swallowed')
    s.check(r.status in (where == 'decode' and (400, 500) or (500,)), 'status')


def t_webapp_request(s):
    """the HTTP request reaches services that ask for it"""
    del LOG[:]
    f = behaviour(s, None, 'service', 'now', 1)
    if s.bool('decorated'):
        gw = webapp(s, {'svc': gateway.expose_request(f)})
    else:
        gw = webapp(s, {'svc': f}, expose_request=True)
    env = remoting.Envelope(3)
    protocol = s.choice('protocol', ['amf0', 'amf3'])
    env[u'/1'] = request_for(env, protocol, u'svc', [7])
    handle(s, gw, remoting.encode(env).getvalue())
    s.check(LOG[0][1][0] is gw.request and LOG[0][1][1:] == (7,), 'request')
    s.check(type(gw.request.amf_request) is remoting.Request, 'AMF request attached')
