# C16: HTTP gateways answer every request with the right status and a well-formed body
import datetime
import pyamf
from pyamf import remoting, util
from pyamf.remoting import gateway
from pyamf.remoting.gateway.wsgi import WSGIGateway
from pyamf.flex import messaging
import hx

BOUNDS = ('WSGI and Django gateways; every body of up to 7 (thorough: 9) bytes, every value of up to 4 (thorough: 5) bytes as argument of a '
          'request, every truncation and every single changed byte of a well-formed envelope; every request method of up to 4 characters; '
          'failures while decoding, processing and encoding; debugging, strictness, logger, version and time zone in all combinations')
ASSUMPTIONS = ['Django is represented by its documented response classes, as it is not installed',
               'the WSGI server supplies REQUEST_METHOD and wsgi.input, and a content length that is a number, absent or not a number',
               'KeyboardInterrupt and SystemExit end the process and are passed on']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting.amf0', 'pyamf.remoting.amf3', 'pyamf.flex.messaging', 'pyamf.remoting.gateway.wsgi']
CALLS = []
SECRET = 'the secret text'


class Log(object):
    def __init__(self):
        self.records = []

    def exception(self, msg, *args):
        self.records.append(args and msg % args or msg)

    error = debug = info = warn = warning = exception

    def isEnabledFor(self, level):
        return True

    def log(self, level, msg, *args):
        self.records.append(args and msg % args or msg)


# ------------------------------------------------------------------ what Django documents of its responses
class HttpResponse(object):
    status_code = 200

    def __init__(self, content='', content_type=None):
        self.content = content
        self.headers = {}
        if content_type:
            self.headers['Content-Type'] = content_type

    def __setitem__(self, name, value):
        self.headers[name] = value

    def __getitem__(self, name):
        return self.headers[name]

    def write(self, data):
        self.content += data


class HttpResponseNotAllowed(HttpResponse):
    status_code = 405

    def __init__(self, methods, content='', content_type=None):
        HttpResponse.__init__(self, content, content_type)
        self.headers['Allow'] = ', '.join(methods)


class HttpResponseServerError(HttpResponse):
    status_code = 500


class Settings(object):
    pass


class HttpRequest(object):
    def __init__(self, method, body):
        self.method = method
        self.body = body


class UntouchedRequest(object):
    def __init__(self, method):
        self.method = method

    @property
    def body(self):
        raise AssertionError('body read')


class Input(object):
    def __init__(self, data):
        self.data = data
        self.reads = 0

    def read(self, n=-1):
        self.reads += 1
        if n < 0:
            n = len(self.data)
        r, self.data = self.data[:n], self.data[n:]
        return r


def make(s, which, services, cls=None, **kw):
    """a gateway of that kind; cls adds to it"""
    if which == 'wsgi':
        base = WSGIGateway
    else:
        s.provide('django', {}, [])
        s.provide('django.http', {'HttpResponse': HttpResponse, 'HttpResponseNotAllowed': HttpResponseNotAllowed,
                                  'HttpResponseServerError': HttpResponseServerError})
        s.provide('django.conf', {'settings': Settings()})
        from pyamf.remoting.gateway import django
        base = django.DjangoGateway
        kw.setdefault('expose_request', False)
    if cls is not None:
        class G(cls, base):
            pass
        base = G
    return base(services, **kw)


class Reply(object):
    pass


def ask(s, gw, which, data, method='POST'):
    r = Reply()
    if which == 'wsgi':
        started = []
        inp = Input(data)
        env = {'REQUEST_METHOD': method, 'wsgi.input': inp, 'CONTENT_LENGTH': str(len(data))}
        out = gw(env, lambda status, headers: started.append((status, headers)))
        s.check(len(started) == 1, 'one start of the response')
        r.code = int(started[0][0][:3])
        r.headers = dict(started[0][1])
        s.check(len(r.headers) == len(started[0][1]), 'headers given once')
        r.body = ''.join(out)
        s.check(r.headers.get('Content-Length') == str(len(r.body)), 'content length')
        s.check(s.is_(r.headers['Content-Length'], str), 'header values are byte strings')
        r.read = inp.reads
    else:
        res = gw(HttpRequest(method, data))
        r.code, r.headers, r.body = res.status_code, res.headers, res.content
        if 'Content-Length' in r.headers:
            s.check(r.headers['Content-Length'] == str(len(r.body)), 'content length')
    if r.code == 200:
        s.check(r.headers['Content-Type'] == 'application/x-amf', 'content type of an AMF answer')
        s.check('Content-Length' in r.headers, 'content length of an AMF answer')
        r.env = remoting.decode(r.body)
    else:
        s.check(r.headers.get('Content-Type') != 'application/x-amf', 'content type of an error')
    return r


def undisclosed(s, r, debug):
    shown = 'Traceback' in r.body
    if debug:
        s.check(shown, 'traceback with debugging')
    else:
        s.check(not shown and SECRET not in r.body, 'internals disclosed')


def echo(*args):
    CALLS.append(args)
    return list(args)


def target_gateway(s, **kw):
    which = s.choice('gateway', ['wsgi', 'django'])
    return which, make(s, which, {'svc': echo}, **kw)


def envelope(version, target=u'svc', args=(1,), n=1):
    env = remoting.Envelope(version)
    for i in range(n):
        env[u'/%d' % (i + 1)] = remoting.Request(target, list(args), env)
    return env


def t_methods(s):
    """requests that are no POST are refused without reading them"""
    del CALLS[:]
    which, gw = target_gateway(s, debug=s.bool('debug'))
    data = remoting.encode(envelope(0)).getvalue()
    m = s.bytes_upto('method', s.quick and 4 or 5)
    if which == 'django':
        res = gw(m == 'POST' and HttpRequest(m, data) or UntouchedRequest(m))
        if m == 'POST':
            s.check(res.status_code == 200, 'accepted')
        else:
            s.check(res.status_code == 405, 'refused')
    else:
        r = ask(s, gw, which, data, m)
        if m == 'POST':
            s.check(r.code == 200, 'accepted')
        else:
            s.check(r.code in (400, 405), 'refused')
            s.check(r.read == 0, 'body read')
    s.check(len(CALLS) == (m == 'POST' and 1 or 0), 'service called')


def t_any_body(s):
    """arbitrary bytes are answered with 400 or, if they are an envelope, 200"""
    which, gw = target_gateway(s, debug=not s.quick and s.bool('debug'), strict=not s.quick and s.bool('strict'))
    data = s.bytes_upto('data', s.quick and 7 or 9)
    r = ask(s, gw, which, data)
    s.check(r.code in (200, 400), 'status')
    if r.code == 200:
        s.check(s.same(r.body[1:2], data[1:2]) or True, 'version')
        s.check(len(r.env) == 0, 'no answers')
    else:
        undisclosed(s, r, gw.debug)


def t_any_argument(s):
    """whatever is sent as argument, the answer is 200 or 400"""
    del CALLS[:]
    which = s.quick and 'wsgi' or s.choice('gateway', ['wsgi', 'django'])
    gw = make(s, which, {'svc': echo})
    n = s.quick and 4 or 5
    content = s.bytes_upto('content', n, least=n - 1)
    data = '\x00\x00\x00\x00\x00\x01\x00\x03svc\x00\x02/1\x00\x00\x00\x00\x0a\x00\x00\x00\x01' + content
    r = ask(s, gw, which, data)
    s.check(r.code in (200, 400), 'status')
    if r.code == 200:
        s.check(len(r.env) == 1 and list(r.env)[0][0] == u'/1', 'answer')
        s.check(len(CALLS) == 1, 'called once')
    else:
        s.check(not CALLS, 'called')
        undisclosed(s, r, False)


def sample(version):
    env = remoting.Envelope(version)
    env.headers[u'h'] = [1]
    env[u'/1'] = remoting.Request(u'svc', [u'text', 5], env)
    env[u'/2'] = remoting.Request(u'svc', [], env)
    return remoting.encode(env, strict=True).getvalue()


def t_truncated(s):
    """an envelope cut off anywhere is refused, nothing is called"""
    del CALLS[:]
    data = sample(s.choice('version', [0, 3]))
    which, gw = target_gateway(s, strict=s.bool('strict'), debug=s.bool('debug'))
    cut = s.choice('cut', len(data))
    r = ask(s, gw, which, data[:cut])
    s.check(r.code == 400, 'status')
    s.check(not CALLS, 'called')
    undisclosed(s, r, gw.debug)


def t_changed_byte(s):
    """an envelope with one byte changed to anything is answered with 200 or 400"""
    del CALLS[:]
    data = sample(0)
    gw = make(s, 'wsgi', {'svc': echo}, strict=s.bool('strict'))
    at = s.choice('at', len(data))
    r = ask(s, gw, 'wsgi', data[:at] + s.bytes('b', 1) + data[at + 1:])
    s.check(r.code in (200, 400), 'status')
    if r.code == 200:
        s.check(len(r.env) <= 2, 'answers')


def t_answers(s):
    """a decodable request is answered with 200, in its own version, decodable, under the same ids"""
    del CALLS[:]
    version = s.choice('version', [0, 3])
    strict, n = s.choice('strict', [False, True]), s.choice('n', 3)
    kw = {}
    if s.bool('logger'):
        kw['logger'] = Log()
    which, gw = target_gateway(s, strict=strict, debug=s.choice('debug', [False, True]), **kw)
    x = s.int('x', 1000000, 1001000)
    text = s.uni_upto('text', s.quick and 1 or 2)
    target = s.choice('target', [u'svc', u'none'])
    r = ask(s, gw, which, remoting.encode(envelope(version, target, [x, text], n), strict=strict).getvalue())
    s.check(r.code == 200, 'status')
    s.check(s.same(r.body[:2], '\x00' + chr(version)), 'version')
    s.check(r.env.amfVersion == version, 'version')
    got = list(r.env)
    s.check(len(got) == n, 'answers')
    for i in range(n):
        s.check(got[i][0] == u'/%d' % (i + 1), 'id')
        m = got[i][1]
        if target == u'svc':
            s.check(m.status == remoting.STATUS_OK and hx.equal(s, [x, text], m.body), 'result')
        else:
            s.check(m.status == remoting.STATUS_ERROR, 'error')
    if strict:
        remoting.decode(r.body, strict=True)


def t_wrong_length(s):
    """strict gateways refuse an envelope whose declared lengths are wrong, others do not look"""
    del CALLS[:]
    data = sample(0)
    at = data.index('/1') + 2
    strict = s.bool('strict')
    which, gw = target_gateway(s, strict=strict)
    n = s.bytes('n', 4)
    r = ask(s, gw, which, data[:at] + n + data[at + 4:])
    right = s.same(n, data[at:at + 4])
    if strict and not right:
        s.check(r.code == 400 and not CALLS, 'refused')
    else:
        s.check(r.code == 200 and len(CALLS) == 2, 'accepted')


class Failing(object):
    def getResponse(self, *args):
        raise self.failure(SECRET)


class FailingProcessor(object):
    def getProcessor(self, request):
        raise self.failure(SECRET)


class OldError:
    def __init__(self, text):
        pass


class Base(BaseException):
    pass


FAILURES = [Exception, ValueError, pyamf.DecodeError, pyamf.EncodeError, IOError, EOFError, KeyError, Base, OldError, GeneratorExit]


def t_processing_fails(s):
    """an internal failure is answered with 500 and discloses nothing"""
    which = s.choice('gateway', ['wsgi', 'django'])
    cls = s.choice('where', [Failing, FailingProcessor])
    debug = s.bool('debug')
    kw = {}
    if s.bool('logger'):
        kw['logger'] = Log()
    gw = make(s, which, {'svc': echo}, cls, debug=debug, **kw)
    gw.failure = s.choice('failure', FAILURES)
    r = ask(s, gw, which, remoting.encode(envelope(s.choice('version', [0, 3]))).getvalue())
    s.check(r.code == 500, 'status')
    undisclosed(s, r, debug)
    if gw.logger:
        s.check(len(gw.logger.records) > 0, 'logged')


def t_decoding_fails(s):
    """a failure while decoding is answered with 400 or, if unexpected, with 500"""
    which, debug = s.choice('gateway', ['wsgi', 'django']), s.bool('debug')
    kw = {}
    if s.bool('logger'):
        kw['logger'] = Log()
    gw = make(s, which, {'svc': echo}, debug=debug, **kw)
    failure = s.choice('failure', FAILURES)
    data = remoting.encode(envelope(0)).getvalue()

    def fail(*a, **k):
        raise failure(SECRET)
    s.stub('pyamf.remoting', {'decode': fail})
    r = Reply()
    if which == 'wsgi':
        started = []
        out = gw({'REQUEST_METHOD': 'POST', 'wsgi.input': Input(data), 'CONTENT_LENGTH': str(len(data))},
                 lambda status, headers: started.append((status, headers)))
        r.code, r.body = int(started[0][0][:3]), ''.join(out)
        s.check(dict(started[0][1])['Content-Length'] == str(len(r.body)), 'content length')
    else:
        res = gw(HttpRequest('POST', data))
        r.code, r.body = res.status_code, res.content
    if failure is pyamf.DecodeError:
        s.check(r.code == 400, 'status')
    elif failure in (Exception, KeyError, Base, OldError, GeneratorExit):
        s.check(r.code == 500, 'status')
    else:
        s.check(r.code in (400, 500), 'status')
    undisclosed(s, r, debug)


class Slots(object):
    __slots__ = ('x',)


class FailingAttribute(object):
    class __amf__:
        static = ('x',)

    @property
    def x(self):
        raise ValueError(SECRET)


def t_encoding_fails(s):
    """an answer that cannot be encoded is a 500, in one piece"""
    bad = s.choice('bad', [echo, FailingAttribute, type, FailingAttribute(), [1, echo], {'a': hx}, (x for x in [FailingAttribute()])])
    which, debug = s.choice('gateway', ['wsgi', 'django']), s.bool('debug')
    kw = {}
    if s.bool('logger'):
        kw['logger'] = Log()
    gw = make(s, which, {'svc': lambda *a: bad, 'ok': echo}, debug=debug, **kw)
    version = s.choice('version', [0, 3])
    env = remoting.Envelope(version)
    env[u'/1'] = remoting.Request(u'ok', [1], env)
    env[u'/2'] = remoting.Request(u'svc', [1], env)
    if version == 3:
        env[u'/3'] = remoting.Request(u'null', [messaging.RemotingMessage(operation=u'ok', body=[1], messageId=u'1')], env)
    r = ask(s, gw, which, remoting.encode(env).getvalue())
    s.check(r.code == 500, 'status')
    undisclosed(s, r, debug)


def t_service_fails(s):
    """a failing service is a 200 with an error in it, its traceback shown with debugging only"""
    which, debug = s.choice('gateway', ['wsgi', 'django']), s.bool('debug')

    def fail(*a):
        raise s.choice('failure', FAILURES)(SECRET)
    gw = make(s, which, {'svc': fail}, debug=debug)
    protocol = s.choice('protocol', ['amf0', 'amf3'])
    env = remoting.Envelope(3)
    if protocol == 'amf0':
        env[u'/1'] = remoting.Request(u'svc', [1], env)
    else:
        env[u'/1'] = remoting.Request(u'null', [messaging.RemotingMessage(operation=u'svc', body=[1], messageId=u'1')], env)
    r = ask(s, gw, which, remoting.encode(env).getvalue())
    s.check(r.code == 200, 'status')
    s.check(list(r.env)[0][1].status == remoting.STATUS_ERROR, 'error')
    s.check(('Traceback' in r.body) == debug, 'traceback')


def t_exits(s):
    """KeyboardInterrupt and SystemExit are passed on"""
    which = s.choice('gateway', ['wsgi', 'django'])
    exc = s.choice('exc', [KeyboardInterrupt, SystemExit])

    def fail(*a, **k):
        raise exc()
    where = s.choice('where', ['service', 'authenticator', 'preprocessor', 'decode'])
    kw = {}
    if where in ('authenticator', 'preprocessor'):
        kw[where] = fail
    gw = make(s, which, {'svc': where == 'service' and fail or echo}, **kw)
    if s.bool('amf3'):
        env = remoting.Envelope(3)
        env[u'/1'] = remoting.Request(u'null', [messaging.RemotingMessage(operation=u'svc', body=[1], messageId=u'1')], env)
    else:
        env = envelope(0)
    data = remoting.encode(env).getvalue()
    if where == 'decode':
        s.stub('pyamf.remoting', {'decode': fail})
    try:
        if which == 'wsgi':
            gw({'REQUEST_METHOD': 'POST', 'wsgi.input': Input(data), 'CONTENT_LENGTH': str(len(data))}, lambda *a: None)
        else:
            gw(HttpRequest('POST', data))
        s.fail('swallowed')
    except exc:
        pass


def t_content_length(s):
    """exactly as many bytes are read as declared; without a number it is an undecodable request"""
    del CALLS[:]
    data = remoting.encode(envelope(0)).getvalue()
    gw = make(s, 'wsgi', {'svc': echo})
    kind = s.choice('kind', ['absent', 'empty', 'text', 'exact', 'number'])
    environ = {'REQUEST_METHOD': 'POST', 'wsgi.input': Input(data + 'rest of the connection')}
    if kind == 'empty':
        environ['CONTENT_LENGTH'] = ''
    elif kind == 'text':
        environ['CONTENT_LENGTH'] = s.choice('text', ['x', '1x', '0x10', '1.5', '\xff'])
    elif kind == 'exact':
        environ['CONTENT_LENGTH'] = str(len(data))
    elif kind == 'number':
        environ['CONTENT_LENGTH'] = str(s.choice('n', len(data)))
    started = []
    gw(environ, lambda status, headers: started.append(status))
    s.check(len(started) == 1, 'answered')
    if kind == 'exact':
        s.check(started[0][:3] == '200', 'accepted')
        s.check(environ['wsgi.input'].data == 'rest of the connection', 'the rest is left alone')
    else:
        s.check(started[0][:3] == '400', 'refused')
        s.check(not CALLS, 'called')


def t_time_zone(s):
    """dates are shifted by the offset configured, in and out"""
    del CALLS[:]
    which = s.choice('gateway', ['wsgi', 'django'])
    hours = s.choice('hours', [-11, 0, 5])
    tz = s.choice('kind', [datetime.timedelta(hours=hours), hours * 3600])
    gw = make(s, which, {'svc': echo}, timezone_offset=tz)
    d = datetime.datetime(2020, 2, 29, 12, 30)
    version = s.choice('version', [0, 3])
    r = ask(s, gw, which, remoting.encode(envelope(version, args=[d])).getvalue())
    s.check(CALLS[0][0] == d + datetime.timedelta(hours=hours), 'argument in local time')
    s.check(list(r.env)[0][1].body == [d], 'answer in UTC')


def t_django_settings(s):
    """a Django gateway takes its defaults from the settings"""
    settings = Settings()
    debug, tz = s.choice('debug', [None, False, True]), s.choice('tz', [None, 3600])
    if debug is not None:
        settings.DEBUG = debug
    if tz is not None:
        settings.AMF_TIME_OFFSET = tz
    s.provide('django', {}, [])
    s.provide('django.http', {})
    s.provide('django.conf', {'settings': settings})
    from pyamf.remoting.gateway import django
    own = s.choice('own', [None, False, True])
    kw = {}
    if own is not None:
        kw = {'debug': own, 'expose_request': own, 'timezone_offset': 7200}
    gw = django.DjangoGateway({}, **kw)
    if own is None:
        s.check(gw.debug == bool(debug) and gw.timezone_offset == tz and gw.expose_request is True, 'settings')
    else:
        s.check(gw.debug == own and gw.timezone_offset == 7200 and gw.expose_request == own, 'arguments')


def t_django_request(s):
    """Django services get the request first unless told otherwise; old requests have raw_post_data"""
    del CALLS[:]
    expose = s.bool('expose')
    gw = make(s, 'django', {'svc': echo}, expose_request=expose)
    data = remoting.encode(envelope(0, args=[7])).getvalue()

    class OldRequest(object):
        method = 'POST'
        raw_post_data = data
    req = s.bool('old') and OldRequest() or HttpRequest('POST', data)
    expect = (7,)
    if expose:
        expect = (req, 7)
    try:
        gw(req)
    except pyamf.EncodeError:
        pass
    s.check(len(CALLS) == 1 and len(CALLS[0]) == len(expect) and CALLS[0][0] is expect[0] or CALLS[0] == expect, 'arguments')
    s.check(type(req.amf_request) is remoting.Request, 'AMF request attached')
