# C15: every request of a batch gets exactly one response, whatever the others do
import pyamf
from pyamf import remoting
from pyamf.remoting import gateway
from pyamf.remoting.gateway.wsgi import WSGIGateway
from pyamf.flex import messaging
import hx

BOUNDS = ('batches of up to 3 (thorough: 4) requests, with distinct ids of one arbitrary character for up to 2 of them; every assignment of outcomes to them: '
          'results, exceptions of 20 kinds with symbolic messages, unknown services and methods, refusals, wrong argument numbers, '
          'malformed RemoteObject requests; both protocols, debugging, logger and error hook on and off')
ASSUMPTIONS = ['KeyboardInterrupt and SystemExit raised by a service end the request, as documented by the code',
               'a result or an exception attribute that cannot be encoded fails the batch (see C16)',
               'request targets are not of the form of responses (/onResult, /onStatus, /onDebugEvents)']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.flex.messaging', 'pyamf.remoting.gateway.wsgi']


class CodedError(Exception):
    _amf_code = 'Some.Code'


class DerivedError(CodedError):
    pass


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('no')

    def __unicode__(self):
        raise ValueError('no')


class Odd(Exception):
    def __str__(self):
        return 'odd \xff'


class NotText(Exception):
    def __str__(self):
        return 5


class NoInit(Exception):
    def __init__(self):
        pass


class OldError:
    pass


class OldText:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Base(BaseException):
    pass


class WithAttributes(Exception):
    def __init__(self, **kw):
        Exception.__init__(self, 'attributes')
        self.__dict__.update(kw)


class NeedsArguments(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, u'needs')
        self.a, self.b = a, b


class MessageNone(Exception):
    message = None


class Named(Exception):
    pass


Named.__name__ = 'Other'


class Log(object):
    """formats what it is given, as a logger does"""
    def __init__(self):
        self.records = []

    def exception(self, msg, *args):
        self.records.append(args and msg % args or msg)

    error = debug = info = warn = warning = exception

    def isEnabledFor(self, level):
        return True

    def log(self, level, msg, *args):
        self.records.append(args and msg % args or msg)


def raising(cls, *args, **kw):
    def f(*a):
        raise cls(*args, **kw)
    return f


# name -> (service, code, description or None for anything)
def failing(s, kind, n):
    if kind == 'text':
        t = s.uni('text%d' % n, s.quick and 1 or 2)
        return raising(Exception, t), 'Exception', t
    if kind == 'ascii':
        t = s.uni('text%d' % n, 2, 127).encode('ascii')
        return raising(ValueError, t), 'ValueError', t
    if kind == 'bytes':
        return raising(CodedError, s.choice('bytes%d' % n, ['\xff', '\xc3\xa9', 'a\xe9', '\xed\xa0\x80'])), 'Some.Code', None
    fixed = {
        'empty': (raising(Exception), 'Exception', u''),
        'many': (raising(KeyError, 'k', 5), 'KeyError', None),
        'coded': (raising(CodedError, u'x'), 'Some.Code', u'x'),
        'derived': (raising(DerivedError, u'x'), 'Some.Code', u'x'),
        'unprintable': (raising(Unprintable, 'x'), 'Unprintable', None),
        'odd': (raising(Odd, 'x'), 'Odd', None),
        'nottext': (raising(NotText), 'NotText', None),
        'noinit': (raising(NoInit), 'NoInit', None),
        'old': (raising(OldError), 'OldError', None),
        'oldtext': (raising(OldText, 'old text'), 'OldText', u'old text'),
        'base': (raising(Base, 'b'), 'Base', u'b'),
        'generator exit': (raising(GeneratorExit), 'GeneratorExit', u''),
        'stop': (raising(StopIteration, 'done'), 'StopIteration', u'done'),
        'attributes': (raising(WithAttributes, a=1, b=u'x', headers=2, code=3), 'WithAttributes', u'attributes'),
        'message none': (raising(MessageNone), 'MessageNone', None),
        'named': (raising(Named, 'n'), 'Other', u'n'),
        'encode error': (raising(pyamf.EncodeError, 'e'), 'EncodeError', u'e'),
        'decode error': (raising(pyamf.DecodeError, 'd'), 'DecodeError', u'd'),
        'unknown service error': (raising(gateway.UnknownServiceError, 'u'), 'Service.ResourceNotFound', u'u'),
        'attribute error': (lambda *a: [].nothing, 'AttributeError', None),
        'unicode error': (lambda *a: u'\xe9'.encode('ascii'), 'UnicodeEncodeError', None),
        'byte attribute': (raising(WithAttributes, data='\xff'), 'WithAttributes', u'attributes'),
        'function attribute': (raising(WithAttributes, f=raising), 'WithAttributes', u'attributes'),
        'class attribute': (raising(WithAttributes, f=[Log]), 'WithAttributes', u'attributes'),
        'needs arguments': (raising(NeedsArguments, 1, u'x'), 'NeedsArguments', u'needs'),
        'object message': (raising(Exception, Log), 'Exception', None),
        'no arguments': (lambda: 1, 'TypeError', None),
    }
    return fixed[kind]


KINDS = ['text', 'ascii', 'bytes', 'empty', 'many', 'coded', 'derived', 'unprintable', 'odd', 'nottext', 'noinit', 'old', 'oldtext', 'base',
         'generator exit', 'stop', 'attributes', 'message none', 'named', 'encode error', 'decode error', 'unknown service error',
         'attribute error', 'unicode error', 'no arguments', 'byte attribute', 'function attribute', 'class attribute', 'needs arguments',
         'object message']


class Out(object):
    """what is expected of one request"""
    def __init__(self, ok, code=None, text=None, value=None, acknowledged=True):
        self.ok, self.code, self.text, self.value = ok, code, text, value


def request(s, gw, env, protocol, n, kind):
    """-> (request, expectation); registers the service"""
    name = u'svc%d' % n
    body = [s.int('arg%d' % n, 1000000 * (n + 1), 1000000 * (n + 1) + 999)]
    target = name
    if kind == 'ok':
        gw.addService(lambda x: [x], name)
        out = Out(True, value=body[:])
    elif kind == 'ok none':
        gw.addService(lambda x: None, name)
        out = Out(True)
    elif kind == 'unknown':
        target = n and u'?' or s.uni('name%d' % n, 1) + u'?'
        out = Out(False, 'Service.ResourceNotFound')
    elif kind == 'method':
        gw.addService(Log, name)
        target = name + u'.nothing'
        out = Out(False, 'Service.MethodNotFound')
    elif kind == 'private':
        gw.addService(Log, name)
        target = name + u'._x'
        out = Out(False, 'Service.MethodInvalid')
    elif kind == 'refused':
        gw.addService(lambda x: x, name, authenticator=lambda u, p: False)
        out = Out(False, 'AuthenticationError')
    elif kind == 'authenticator fails':
        gw.addService(lambda x: x, name, authenticator=raising(CodedError, u'auth'))
        out = Out(False, 'Some.Code', u'auth')
    elif kind == 'preprocessor fails':
        gw.addService(lambda x: x, name, preprocessor=raising(CodedError, u'pre'))
        out = Out(False, 'Some.Code', u'pre')
    else:
        f, code, text = failing(s, kind, n)
        gw.addService(f, name)
        out = Out(False, code, text)
    if protocol == 'amf0':
        return remoting.Request(target, body, env), out
    msg = messaging.RemotingMessage(operation=target, body=body, messageId=u'id%d' % n)
    out.correlation = u'id%d' % n
    return remoting.Request(u'null', [msg], env), out


def decoded(s, env, strict):
    return remoting.decode(remoting.encode(env, strict=strict).getvalue())


# debug, logger, version, strict: any two of them in every combination
CONFIGS = [(False, False, 0, False), (False, True, 3, True), (True, False, 3, False), (True, True, 0, True), (False, False, 3, True)]


def text_of(t):
    if isinstance(t, str):
        return t.decode('latin-1')
    return t


def verify(s, res, out, protocol, debug):
    """res is the answer out says; before or after the wire"""
    s.check(type(res) is remoting.Response, 'response')
    s.check(res.status == (not out.ok and remoting.STATUS_ERROR or remoting.STATUS_OK), 'status')
    body = res.body
    if protocol == 'amf0':
        if out.ok:
            s.check(hx.equal(s, out.value, body), 'result')
            return
        s.check(isinstance(body, remoting.ErrorFault), 'fault')
        code, text, details = body.code, body.description, body.details
        s.check(body.level == 'error', 'level')
        s.check(debug or details in (None, ''), 'traceback without debugging')
    else:
        if out.ok:
            s.check(isinstance(body, messaging.AcknowledgeMessage) and not isinstance(body, messaging.ErrorMessage), 'acknowledgement')
            s.check(hx.equal(s, out.value, body.body), 'result')
            s.check(body.correlationId == out.correlation, 'correlation')
            return
        s.check(isinstance(body, messaging.ErrorMessage), 'error message')
        code, text = body.faultCode, body.faultString
        s.check(body.correlationId == out.correlation, 'correlation')
        s.check(debug or (body.faultDetail is None and not body.extendedData), 'traceback without debugging')
    s.check(text_of(code) == out.code, 'code')
    if out.text is not None and not (text is None and len(out.text) == 0):
        s.check(isinstance(text, basestring), 'message is text')
        s.check(s.same(text_of(text), text_of(out.text)), 'message')


def batch(s, kinds, protocols, idents, configs=CONFIGS):
    if s.quick:
        debug, logger, version, strict = s.choice('config', configs)
    else:
        debug, logger, version, strict = s.bool('debug'), s.bool('logger'), s.choice('version', [0, 3]), s.choice('strict', [False, True])
    kw = {'debug': debug}
    if logger:
        kw['logger'] = Log()
    gw = WSGIGateway(**kw)
    env = remoting.Envelope(version)
    outs, ids = [], []
    for i in range(len(kinds)):
        req, out = request(s, gw, env, protocols[i], i, kinds[i])
        ident = i < idents and s.uni('id%d' % i, 1, idents > 1 and 0xff or 0x10ffff) or u'%d*' % i
        for x in ids:
            s.assume(x != ident)
        ids.append(ident)
        env[u'/' + ident] = req
        outs.append(out)
    res = gw.getResponse(env, {})
    s.check(res.amfVersion == env.amfVersion, 'version')
    for answers in (list(res), list(decoded(s, res, strict))):
        s.check(len(answers) == len(outs), 'one response per request')
        for i in range(len(outs)):
            s.check(s.same(answers[i][0], u'/' + ids[i]), 'response id and order')
            verify(s, answers[i][1], outs[i], protocols[i], debug)


def t_exceptions(s):
    """one request failing with any exception between two that succeed"""
    p = s.choice('protocol', ['amf0', 'amf3'])
    kind = s.choice('kind', KINDS)
    batch(s, ['ok', kind, 'ok'], ['amf0', p, s.quick and p or s.choice('third', ['amf0', 'amf3'])], 0)


OUTCOMES = ['ok', 'ok none', 'unknown', 'method', 'private', 'refused', 'authenticator fails', 'preprocessor fails', 'coded', 'no arguments', 'text']


def t_outcomes(s):
    """every assignment of outcomes to the requests of a batch"""
    kinds = []
    protocols = []
    for i in range(s.quick and 2 or 3):
        kinds.append(s.choice('o%d' % i, s.quick and OUTCOMES[:9] or OUTCOMES))
        protocols.append(s.choice('p%d' % i, ['amf0', 'amf3']))
    batch(s, kinds, protocols, 0, CONFIGS[1:3])


def t_sizes(s):
    """batches of every size, from none"""
    n = s.choice('n', s.quick and 4 or 5)
    kinds = [s.choice('o%d' % i, ['ok', i == n - 1 and 'text' or 'coded']) for i in range(n)]
    batch(s, kinds, [s.choice('p%d' % i, ['amf0', 'amf3']) for i in range(n)], n < 3 and n or 0, CONFIGS[1:3])


BODIES = [[], None, [None], [5], [u'text'], [[]], [{}], {}, [object]]


def t_no_message(s):
    """a RemoteObject request without a message is an error, the request after it is answered"""
    gw = WSGIGateway(debug=s.bool('debug'), logger=s.choice('logger', [None, Log()]))
    if s.bool('hook'):
        seen = []
        gw.onServiceError = lambda req, fault: seen.append(fault)
    env = remoting.Envelope(3)
    env[u'/1'] = remoting.Request(s.choice('target', [u'null', u'']), s.choice('body', BODIES[:8]), env)
    req, out = request(s, gw, env, s.choice('protocol', ['amf0', 'amf3']), 2, 'ok')
    env[u'/2'] = req
    for answers in (list(gw.getResponse(env, {})), ):
        s.check(len(answers) == 2 and answers[0][0] == u'/1' and answers[1][0] == u'/2', 'two answers')
        s.check(answers[0][1].status == remoting.STATUS_ERROR, 'error')
        s.check(type(answers[0][1].body) is messaging.ErrorMessage, 'error message')
        s.check(answers[1][1].status == remoting.STATUS_OK, 'other request')


def t_odd_messages(s):
    """messages with odd headers, bodies or names"""
    gw = WSGIGateway()
    gw.addService(lambda *a: u'done', u'svc')
    env = remoting.Envelope(3)
    names = not s.quick or s.bool('names')
    content = not s.quick or not names
    op, dest, body, headers, ident = u'svc', None, [], {}, u'1'
    if names:
        op = s.choice('operation', [u'svc', u'x', None, 5, u'\xe9', '\xff'])
        dest = s.choice('destination', [None, u'', 5, u'\xe9'])
    if content:
        body = s.choice('body', [[], None, 5, u'ab', {}, [1, 2]])
        headers = s.choice('headers', [{}, None, 5, {'DSId': u'x'}, {'DSId': 5}, {'DSId': u'nil'}])
        ident = s.choice('id', [u'1', None])
    msg = messaging.RemotingMessage(operation=op, destination=dest, body=body, headers=headers, messageId=ident)
    env[u'/1'] = remoting.Request(u'null', [msg], env)
    env[u'/2'] = remoting.Request(u'svc', [], env)
    answers = list(decoded(s, gw.getResponse(env, {}), False))
    s.check(len(answers) == 2, 'two answers')
    s.check(answers[0][1].status in (remoting.STATUS_OK, remoting.STATUS_ERROR), 'status')
    s.check(answers[0][1].body.correlationId == msg.messageId, 'correlation')
    if answers[0][1].status == remoting.STATUS_OK:
        s.check(answers[0][1].body.body == u'done', 'answer')
    s.check(answers[1][1].status == remoting.STATUS_OK and answers[1][1].body == u'done', 'other request')


def t_commands(s):
    """ping and disconnect are acknowledged, other commands are errors"""
    gw = WSGIGateway()
    env = remoting.Envelope(3)
    op = s.int('op', -1, 20)
    cls = s.choice('class', [messaging.CommandMessage, messaging.CommandMessageExt])
    msg = cls(operation=op, messageId=u'm', body=[])
    env[u'/1'] = remoting.Request(u'null', [msg], env)
    answers = list(gw.getResponse(env, {}))
    s.check(len(answers) == 1, 'one answer')
    ok = s.Or(op == messaging.CommandMessage.PING_OPERATION, op == messaging.CommandMessage.DISCONNECT_OPERATION)
    res = answers[0][1]
    s.check((res.status == remoting.STATUS_OK) == ok, 'status')
    s.check(res.body.correlationId == u'm', 'correlation')
    if res.status == remoting.STATUS_OK:
        s.check(type(res.body) is messaging.AcknowledgeMessage, 'acknowledgement')
    else:
        s.check(res.body.faultCode == 'Server.Call.Failed', 'code')


def t_dsid(s):
    """the client id is kept, or a new one is given"""
    gw = WSGIGateway()
    gw.addService(lambda: 1, u'svc')
    dsid = s.choice('dsid', [None, u'nil', s.uni('id', 2)])
    headers = {}
    if dsid is not None:
        headers['DSId'] = dsid
    msg = messaging.RemotingMessage(operation=s.choice('op', [u'svc', u'x']), body=[], headers=headers, messageId=u'1')
    env = remoting.Envelope(3)
    env[u'/1'] = remoting.Request(u'null', [msg], env)
    body = list(gw.getResponse(env, {}))[0][1].body
    got = body.headers['DSId']
    if dsid is None or dsid == u'nil':
        s.check(isinstance(got, basestring) and len(got) > 0 and got != 'nil', 'new id')
    else:
        s.check(got == dsid, 'kept')


def t_timing(s):
    """whatever is raised while a request is processed, the request seen by the application is its own"""
    seen = []

    def f(environ, *a):
        seen.append(environ['pyamf.request'])
        if len(seen) == 2:
            raise CodedError('x')
    gw = WSGIGateway(expose_request=True)
    gw.addService(f, u'svc')
    env = remoting.Envelope(0)
    reqs = []
    for i in range(3):
        r = remoting.Request(u'svc', [i], env)
        env[u'/%d' % i] = r
        reqs.append(r)
    answers = list(gw.getResponse(env, {}))
    s.check(len(seen) == 3, 'all called')
    for i in range(3):
        s.check(seen[i] is reqs[i], 'its own request')
        s.check((answers[i][1].status == remoting.STATUS_OK) == (i != 1), 'status')
