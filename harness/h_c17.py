# C17: the remoting client matches every response to its request and reports every failure
import pyamf
from pyamf import remoting, util
import hx

BOUNDS = ('histories of up to 4 (thorough: 5) operations on up to 3 services; batches of up to 3 requests answered in any order, with any status, '
          'with answers missing, doubled or added; fault codes and descriptions of up to 1 (thorough: 3) characters, any Unicode, and every '
          'registered code; content types of up to 1 (thorough: 3) characters after every prefix of the right one; headers with symbolic names and values; '
          'AMF0 and AMF3, strict or not')
ASSUMPTIONS = ['urllib2 is represented by its documented Request and URLError, gzip by the inverse of a marked compression',
               'the names of services are ASCII byte strings or text',
               'a reply of the right content type that is no AMF envelope is refused with the errors of the decoder']
PRELOAD = ['pyamf.amf3', 'pyamf.remoting', 'urlparse']
SENT = []


class Log(object):
    def __init__(self):
        self.records = []

    def debug(self, msg, *args):
        self.records.append(args and msg % args or msg)

    error = exception = info = warn = debug


class HTTPRequest(object):
    """what urllib2 documents of a request"""
    def __init__(self, url, data=None, headers={}):
        self.url, self.data, self.headers = url, data, dict(headers)
        self.proxy = None

    def set_proxy(self, host, type):
        self.proxy = (host, type)


class URLError(IOError):
    pass


class HTTPError(URLError):
    pass


class Reply(object):
    def __init__(self, data, content_type='application/x-amf', **headers):
        self.data, self.headers = data, {}
        if content_type is not None:
            self.headers['Content-Type'] = content_type
        for k in headers:
            self.headers[k.replace('_', '-')] = headers[k]

    def info(self):
        return self

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def read(self, n=-1):
        if n < 0:
            n = len(self.data)
        r, self.data = self.data[:n], self.data[n:]
        return r


class GzipFile(object):
    def __init__(self, fileobj):
        self.f = fileobj

    def read(self):
        if self.f.read(2) != 'gz':
            raise IOError('Not a gzipped file')
        return self.f.read()

    def close(self):
        self.f = None


def urlopen(request):
    raise URLError('no network')


def service(s, answer, version=0, url='http://localhost/gateway', **kw):
    """a client whose requests are answered by that function"""
    s.provide('urllib2', {'Request': HTTPRequest, 'URLError': URLError, 'HTTPError': HTTPError, 'urlopen': urlopen})
    s.provide('gzip', {'GzipFile': GzipFile})
    from pyamf.remoting import client
    del SENT[:]

    def opener(request):
        SENT.append(request)
        return answer(request)
    return client.RemotingService(url, version, opener=opener, **kw)


def respond(version, pairs, headers={}, strict=False):
    env = remoting.Envelope(version)
    for k, r in pairs:
        env[k] = r
    for k in headers:
        env.headers[k] = headers[k]
    return Reply(remoting.encode(env, strict=strict).getvalue())


def raised(f, *args):
    try:
        f(*args)
    except Exception, e:
        return e
    return None


def same_list(a, b):
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if a[i] is not b[i]:
            return False
    return True


def t_history(s):
    """any history of adding, removing and executing: ids are unique, exactly the pending requests are kept and sent"""
    gw = service(s, lambda r: respond(0, [(k, remoting.Response([k])) for k, q in remoting.decode(r.data)]))
    a = gw.getService('a', auto_execute=False)
    targets = [(a, 'a'), (a.m, 'a.m'), (a.n, 'a.n')]
    pending, ids, everything = [], [], []
    x = s.int('x', 1000000, 1001000)
    for step in range(s.quick and 4 or 5):
        ops = ['add', 'remove by', 'execute']
        if everything:
            ops += ['remove', 'single']
        op = s.choice('op%d' % step, ops)
        if op == 'add':
            t = s.choice('t%d' % step, s.quick and 2 or 3)
            args = s.choice('args%d' % step, s.quick and [(1,)] or [(), (1,)])
            if step == 0 and args:
                args = (x,)
            r = gw.addRequest(targets[t][0], *args)
            s.check(r.id not in ids, 'id given twice')
            ids.append(r.id)
            pending.append((r, t, args))
            everything.append((r, t, args))
        elif op in ('remove', 'single'):
            r = everything[s.choice('which%d' % step, len(everything))][0]
            known = [p for p in pending if p[0] is r]
            pending = [p for p in pending if p[0] is not r]
            if op == 'remove':
                if known:
                    gw.removeRequest(r)
                else:
                    s.check(isinstance(raised(gw.removeRequest, r), LookupError), 'not pending')
            elif known:
                got = gw.execute_single(r)
                s.check(got.body == [r.id], 'its response')
            else:
                n = len(SENT)
                s.check(isinstance(raised(gw.execute_single, r), LookupError), 'not pending')
                s.check(len(SENT) == n, 'nothing sent')
        elif op == 'remove by':
            t = s.choice('t%d' % step, s.quick and 2 or 3)
            args = s.choice('args%d' % step, s.quick and [(1,)] or [(), (1,)])
            known = [p for p in pending if p[1] == t and p[2] == args]
            if known:
                gw.removeRequest(targets[t][0], *args)
                pending = [p for p in pending if p[0] is not known[0][0]]
            else:
                s.check(isinstance(raised(gw.removeRequest, targets[t][0], *args), LookupError), 'not pending')
        else:
            env = gw.execute()
            sent = remoting.decode(SENT[-1].data)
            s.check(len(sent) == len(pending) and len(env) == len(pending), 'sent as many')
            for i in range(len(pending)):
                r, t, args = pending[i]
                k, q = list(sent)[i]
                s.check(k == r.id and q.target == targets[t][1] and hx.equal(s, list(args), q.body), 'sent')
                s.check(env[r.id].body == [r.id], 'response')
            pending = []
        s.check(same_list(gw.requests, [p[0] for p in pending]), 'pending requests')
    for r, t, args in pending:
        s.check(gw.getRequest(r.id) is r, 'found by id')
    for r, t, args in everything:
        if not [p for p in pending if p[0] is r]:
            s.check(isinstance(raised(gw.getRequest, r.id), LookupError), 'found though not pending')


def t_remove_by(s):
    """a request removed by its service and arguments is the first one of exactly these"""
    gw = service(s, lambda r: respond(0, []))
    a = gw.getService('a', auto_execute=False)
    targets = [a, a.m]
    x = s.int('x', 1000000, 1001000)
    lists = s.quick and [(), (1,), (1, x)] or [(), (1,), (x,), (1, 2), (1, x), (x, 1)]
    reqs, known = [], []
    for i in range(2):
        t = s.choice('t%d' % i, 2)
        args = s.choice('args%d' % i, lists)
        reqs.append((gw.addRequest(targets[t], *args), t, args))
    t = s.choice('t', 2)
    args = s.choice('args', lists)
    left = [r[0] for r in reqs]
    for r in reqs:
        if r[1] == t and r[2] == args:
            left = [q for q in left if q is not r[0]]
            break
    e = raised(gw.removeRequest, targets[t], *args)
    if len(left) == 2:
        s.check(isinstance(e, LookupError), 'not pending')
    else:
        s.check(e is None, 'pending')
    s.check(same_list(gw.requests, left), 'pending requests')


def t_matching(s):
    """responses in any order reach the requests of the same ids"""
    version = s.choice('version', [0, 3])
    n = s.choice('n', [1, 2, 3])
    order = s.choice('order', [[(0,)], [(0, 1), (1, 0)], [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]][n - 1])
    x = s.int('x', 1000000, 1001000)
    status = [s.choice('status%d' % i, s.quick and i and [0] or [remoting.STATUS_OK, remoting.STATUS_ERROR, remoting.STATUS_DEBUG])
              for i in range(n)]
    extra = s.bool('extra')

    def answer(request):
        got = list(remoting.decode(request.data))
        s.check(len(got) == n, 'all sent')
        pairs = [(got[i][0], remoting.Response([got[i][1].body[0], i], status[i])) for i in order if i < n]
        if extra:
            pairs.insert(1, (u'/99', remoting.Response(None)))
        return respond(version, pairs)
    gw = service(s, answer, version)
    svc = gw.getService('svc', auto_execute=False)
    reqs = [svc.m(x + i) for i in range(n)]
    env = gw.execute()
    s.check(env.amfVersion == version, 'version')
    for i in range(n):
        r = env[reqs[i].id]
        s.check(r.status == status[i] and hx.equal(s, [x + i, i], r.body), 'response of another request')
        reqs[i].setResponse(r)
        s.check(reqs[i].result is r.body and reqs[i].response is r, 'result')
    s.check(len(env) == n + (extra and 1 or 0), 'responses')


def t_single(s):
    """a call returns what was answered under its own id, whatever else is answered or pending"""
    version = s.choice('version', [0, 3])
    x = s.int('x', 1000000, 1001000)
    kind = s.choice('kind', ['own', 'first', 'last', 'missing', 'none', 'similar'])
    status = s.choice('status', [remoting.STATUS_OK, remoting.STATUS_DEBUG, remoting.STATUS_ERROR])

    def answer(request):
        (k, q), = list(remoting.decode(request.data))
        own, other = (k, remoting.Response(q.body[0] + 1, status)), (u'/1', remoting.Response(0))
        pairs = {'own': [own], 'first': [own, other], 'last': [other, own], 'missing': [other], 'none': [],
                 'similar': [(k + u'0', remoting.Response(0)), (k[1:], remoting.Response(0))]}[kind]
        return respond(version, pairs)
    gw = service(s, answer, version)
    svc = gw.getService(s.choice('unicode', ['svc', u'svc']))
    before = gw.addRequest(svc.other, 1)
    try:
        got = svc.m(x)
    except remoting.RemotingError:
        s.check(kind in ('missing', 'none', 'similar') or status == remoting.STATUS_ERROR, 'refused')
    else:
        s.check(kind in ('own', 'first', 'last') and status != remoting.STATUS_ERROR, 'failure not reported')
        s.check(hx.equal(s, x + 1, got), 'result')
    s.check(same_list(gw.requests, [before]), 'the other request is still pending')
    sent = list(remoting.decode(SENT[0].data))
    s.check(len(sent) == 1 and sent[0][1].target == u'svc.m' and sent[0][0] == u'/2', 'sent')


class Mine(Exception):
    pass


def t_faults(s):
    """a fault is raised as the exception its code stands for, with its description"""
    version = s.choice('version', [0, 3])
    pyamf.add_error_class(Mine, 'Mine')
    try:
        if s.bool('known'):
            code = s.choice('code', ['TypeError', 'LookupError', 'KeyError', 'IndexError', 'NameError', 'ValueError', 'Mine',
                                     'Server.Call.Failed'])
        else:
            code = s.uni_upto('text', s.quick and 1 or 3)
        desc = s.uni_upto('desc', s.quick and 1 or 2)
        want = {'TypeError': TypeError, 'LookupError': LookupError, 'KeyError': KeyError, 'IndexError': IndexError,
                'NameError': NameError, 'ValueError': ValueError, 'Mine': Mine, 'Server.Call.Failed': remoting.RemotingCallFailed}.get(code, remoting.RemotingError)
        fault = remoting.ErrorFault(code=code, type=code, description=desc, details=u'')
        body = s.choice('body', s.quick and [fault, {'code': code, 'description': desc}] or [fault, {'code': code, 'description': desc}, {'level': u'error', 'code': code, 'description': desc}])
        gw = service(s, lambda r: respond(version, [(u'/1', remoting.Response(body, remoting.STATUS_ERROR))]), version)
        if s.bool('proxy'):
            e = raised(gw.getService('svc').m)
        else:
            r = gw.getService('svc', auto_execute=False).m()
            e = raised(r.setResponse, gw.execute()[r.id])
            s.check(e is None or r.response.body is r.result, 'kept')
        s.check(e is not None and type(e) is want, 'mapped exception')
        if type(e) is want:
            s.check(len(e.args) == 1 and hx.equal(s, desc, e.args[0]), 'description')
    finally:
        pyamf.remove_error_class('Mine')


def t_other_errors(s):
    """an error status with anything as its body is raised as a remoting error; the same body with another status is returned"""
    version = s.choice('version', [0, 3])
    body = s.choice('body', [None, False, 0, '', [], [1], u'x', 5, 1.5])
    status = s.choice('status', [remoting.STATUS_OK, remoting.STATUS_ERROR, remoting.STATUS_DEBUG])
    gw = service(s, lambda r: respond(version, [(u'/1', remoting.Response(body, status))]), version)
    svc = gw.getService('svc')
    if status == remoting.STATUS_ERROR:
        s.check(type(raised(svc.m)) is remoting.RemotingError, 'error')
    else:
        s.check(hx.equal(s, body, svc.m()), 'result')


def t_envelope(s):
    """what is sent: version, targets, arguments and headers as asked"""
    version = s.choice('version', [0, 3])
    strict = s.choice('strict', s.quick and [version == 3] or [False, True])
    gw = service(s, lambda r: respond(version, []), version, strict=strict)
    name, value = s.uni_upto('name', s.quick and 1 or 2, s.quick and 0x7ff or 0x10ffff, least=1), hx.scalar(s, 'value', s.quick and ['uni1'] or ['none', 'float', 'uni1'])
    required = s.choice('required', [False, True])
    gw.addHeader(u'first', 1, True)
    gw.addHeader(name, value, required)
    again = s.choice('again', s.quick and [None, False] or [None, False, True])
    if again is not None:
        gw.addHeader(u'first', 2, again)
    svc = gw.getService('svc', auto_execute=False)
    arg = hx.scalar(s, 'arg', s.quick and ['none', 'float'] or ['none', 'float', 'uni1'])
    svc.m(arg, [arg])
    svc()
    gw.execute()
    env = remoting.decode(SENT[0].data, strict=strict)
    s.check(env.amfVersion == version, 'version')
    s.check(len(env.headers) == 2, 'headers')
    s.check(hx.equal(s, again is None and 1 or 2, env.headers[u'first']), 'header')
    s.check(env.headers.is_required(u'first') == (again is not False), 'required flag')
    s.check(hx.equal(s, value, env.headers[name]), 'header value')
    s.check(env.headers.is_required(name) == required, 'required flag')
    got = list(env)
    s.check(len(got) == 2 and got[0][1].target == u'svc.m' and got[1][1].target == u'svc', 'targets')
    s.check(hx.equal(s, [arg, [arg]], got[0][1].body) and got[1][1].body == [], 'arguments')


def t_http(s):
    """HTTP headers, address and proxy of every request"""
    kw = {}
    agent, referer = s.choice('agent', [None, 'me']), s.choice('referer', [None, 'http://x'])
    if agent:
        kw['user_agent'] = agent
    if referer:
        kw['referer'] = referer
    if s.bool('log'):
        kw['logger'] = Log()
    gw = service(s, lambda r: respond(0, [(u'/1', remoting.Response(1))]), **kw)
    name, value = s.choice('name', ['ETag', 'Content-Type', 'User-Agent', 'Referer']), s.bytes_upto('value', 2)
    gw.addHTTPHeader('X-Gone', '1')
    gw.addHTTPHeader(name, value)
    gw.removeHTTPHeader('X-Gone')
    s.check(isinstance(raised(gw.removeHTTPHeader, 'X-Gone'), KeyError), 'removed once')
    if s.bool('proxy'):
        gw.setProxy('host:1', 'https')
    if s.bool('single'):
        s.check(gw.getService('svc').m() == 1, 'result')
    else:
        gw.addRequest(gw.getService('svc').m)
        s.check(gw.execute()[u'/1'].body == 1, 'result')
    r, = SENT
    s.check(r.url == 'http://localhost/gateway', 'address')
    want = {name: value, 'Content-Type': 'application/x-amf', 'User-Agent': agent or 'PyAMF/%s' % (pyamf.version,)}
    if referer:
        want['Referer'] = referer
    s.check(len(r.headers) == len(want), 'HTTP headers')
    for k in want:
        s.check(s.same(r.headers[k], want[k]), 'HTTP header')
    s.check(r.proxy == (gw.proxy_args and ('host:1', 'https') or None), 'proxy')
    s.check(gw.http_headers.keys() == [name], 'HTTP headers changed')


def t_content_type(s):
    """every reply of another content type is refused with a remoting error, unread"""
    right = 'application/x-amf'
    n = s.choice('prefix', len(right) + 1)
    if s.bool('absent'):
        ct = None
    else:
        ct = right[:n] + s.bytes_upto('rest', s.quick and 1 or 3)
    kw = {}
    if s.bool('log'):
        kw['logger'] = Log()
    gw = service(s, lambda r: Reply('\x00\x00\x00\x00\x00\x01\x00\x0b/1/onResult\x00\x04null\x00\x00\x00\x00\x05', ct), **kw)
    ok = ct is not None and ct.split(';')[0].strip() == right
    if s.bool('single'):
        f = gw.getService('svc').m
    else:
        gw.addRequest(gw.getService('svc').m)
        f = gw.execute
    e = raised(f)
    if ok:
        s.check(e is None, 'refused')
    else:
        s.check(type(e) is remoting.RemotingError, 'accepted')
    s.check(gw.requests == [], 'pending')


def t_connection(s):
    """a failure to connect or an HTTP error is a remoting error"""
    e = s.choice('error', [URLError('x'), URLError(5), HTTPError('404', 'Not found')])

    def answer(r):
        raise e
    kw = {}
    if s.bool('log'):
        kw['logger'] = Log()
    gw = service(s, answer, **kw)
    gw.addRequest(gw.getService('svc').m)
    s.check(type(raised(gw.execute)) is remoting.RemotingError, 'execute')
    s.check(type(raised(gw.getService('svc').m)) is remoting.RemotingError, 'call')


DECODING = (pyamf.DecodeError, pyamf.ReferenceError, pyamf.UnknownClassAlias, IOError, pyamf.EOStream, UnicodeDecodeError)


def t_any_reply(s):
    """any bytes as reply: an envelope, or a documented error"""
    gw = service(s, lambda r: Reply(data), strict=not s.quick and s.bool('strict'))
    data = s.bytes_upto('data', s.quick and 7 or 9)
    e = raised(gw.getService('svc').m)
    s.check(e is not None, 'no answer, no error')
    s.check(type(e) is remoting.RemotingError or isinstance(e, DECODING), 'error')


def t_any_result(s):
    """any bytes as body of the reply: the value they encode, or a documented error"""
    n = s.quick and 4 or 5
    content = s.bytes_upto('content', n, least=n - 1)
    gw = service(s, lambda r: Reply('\x00\x00\x00\x00\x00\x01\x00\x0b/1/onResult\x00\x04null\x00\x00\x00\x00' + content))
    try:
        got = gw.getService('svc').m()
    except DECODING:
        return
    want = pyamf.get_decoder(0, content).readElement()
    s.check(type(got) is type(want), 'result')
    if not hasattr(want, '__dict__'):
        s.check(hx.equal(s, want, got), 'result')


def t_reply_length(s):
    """as many bytes are read as declared, all of them if nothing is declared; gzip is undone"""
    data = remoting.encode(remoting.Envelope(0)).getvalue()
    kind = s.choice('length', ['absent', 'empty', 'exact', 'less'])
    headers = {}
    packed = s.choice('encoding', [None, 'gzip', ' GZip ', 'identity', ''])
    gz = packed in ('gzip', ' GZip ')
    sent = gz and 'gz' + data or data
    if packed is not None:
        headers['Content_Encoding'] = packed
    if kind == 'empty':
        headers['Content_Length'] = ''
    elif kind == 'exact':
        headers['Content_Length'] = str(len(sent))
    elif kind == 'less':
        headers['Content_Length'] = str(s.choice('n', len(sent)))
    more = kind == 'exact' and 'next reply' or ''
    reply = Reply(sent + more, **headers)
    gw = service(s, lambda r: reply)
    e = raised(gw.execute)
    if kind == 'less':
        s.check(isinstance(e, DECODING), 'truncated reply accepted')
    else:
        s.check(e is None, 'refused')
        s.check(reply.data == more, 'read')


def t_bad_gzip(s):
    gw = service(s, lambda r: Reply(s.bytes_upto('data', 3), Content_Encoding='gzip'))
    s.check(isinstance(raised(gw.execute), DECODING), 'accepted')


def t_gateway_url(s):
    """a server moves its clients: the next request goes to the new address"""
    first = 'http://localhost/gateway'
    how = s.choice('how', ['append', 'replace', 'both', 'none', 'scheme'])
    text = s.uni_upto('text', 2, 127)
    headers = {}
    if how in ('append', 'both'):
        headers['AppendToGatewayUrl'] = text
    if how in ('replace', 'both'):
        headers['ReplaceGatewayUrl'] = u'https://other/' + text
    if how == 'scheme':
        headers['ReplaceGatewayUrl'] = u'ftp://other/'
    gw = service(s, lambda r: respond(0, [], len(SENT) == 1 and headers or {}), url=first)
    if how == 'scheme':
        s.check(isinstance(raised(gw.execute), ValueError), 'scheme')
        return
    gw.execute()
    gw.execute()
    want = {'append': first + text, 'both': first + text, 'replace': u'https://other/' + text, 'none': first}[how]
    s.check(SENT[0].url == first and SENT[1].url == want, 'address')
    s.check(gw.url[0] == how == 'replace' and 'https' or 'http', 'scheme')


def t_persistent(s):
    """headers the server asks to keep are sent with every following request"""
    version = s.choice('version', [0, 3])
    k, v = s.uni_upto('k', 1, least=1), hx.scalar(s, 'v', s.quick and ['uni1', 'bool'] or ['none', 'bool', 'float', 'uni1'])
    gw = service(s, lambda r: respond(version, [], len(SENT) == 1 and {'RequestPersistentHeader': {k: v}} or {}), version)
    gw.addHeader(u'mine', 1, True)
    gw.execute()
    gw.execute()
    h = remoting.decode(SENT[0].data).headers
    s.check(len(h) == 1, 'first')
    h = remoting.decode(SENT[1].data).headers
    s.check(len(h) == 2 and h[u'mine'] == 1 and h.is_required(u'mine'), 'own header')
    s.check(hx.equal(s, v, h[k]), 'persistent header')
    s.check(not h.is_required(k), 'not required')


def t_persistent_again(s):
    """what the server asks to keep replaces a header of the same name"""
    version = s.choice('version', [0, 3])
    a, b, v = s.int('a', 1000000, 1001000), s.int('b', 2000000, 2001000), s.int('v', 3000000, 3001000)
    own = s.choice('own', ['none', 'plain', 'required'])
    replies = [{u'k': a}, s.choice('second', [{u'k': b}, {}, {u'other': b}]), {}]

    def answer(r):
        h = replies[len(SENT) - 1]
        return respond(version, [], h and {'RequestPersistentHeader': h} or {})
    gw = service(s, answer, version)
    if own != 'none':
        gw.addHeader(u'k', v, own == 'required')
    for i in range(3):
        gw.execute()
    h = [remoting.decode(r.data).headers for r in SENT]
    if own == 'none':
        s.check(len(h[0]) == 0, 'first')
    else:
        s.check(len(h[0]) == 1 and h[0][u'k'] == v and h[0].is_required(u'k') == (own == 'required'), 'first')
    s.check(len(h[1]) == 1 and h[1][u'k'] == a, 'second')
    want = {u'k': a}
    want.update(replies[1])
    s.check(len(h[2]) == len(want), 'third')
    for k in want:
        s.check(h[2][k] == want[k], 'third')


def t_credentials(s):
    """credentials are sent as a required header, as text"""
    version = s.choice('version', [0, 3])
    gw = service(s, lambda r: respond(version, []), version)
    u, p = s.uni_upto('u', s.quick and 1 or 2), s.uni_upto('p', 1)
    a, b = u, p
    if s.bool('bytes'):
        a, b = u.encode('utf-8'), p.encode('utf-8')
    gw.setCredentials('someone', 'else')
    gw.setCredentials(a, b)
    gw.execute()
    h = remoting.decode(SENT[0].data).headers
    s.check(len(h) == 1 and h.is_required(u'Credentials'), 'required header')
    s.check(hx.equal(s, {'userid': u, 'password': p}, h[u'Credentials']), 'credentials')


def t_creation(s):
    """addresses of other schemes, unknown options and services without a name are refused"""
    scheme = s.choice('prefix', ['', 'http', 'htt', 'ftp']) + s.bytes_upto('scheme', s.quick and 1 or 2)
    kw = s.choice('kw', [{}, {'strict': True}, {'unknown': 1}])
    known = scheme.split(':')[0].lower() in ('http', 'https')
    try:
        gw = service(s, None, url=scheme + '://host', **kw)
    except TypeError:
        s.check('unknown' in kw, 'option refused')
        return
    except ValueError:
        s.check(not known, 'scheme refused')
        return
    s.check('unknown' not in kw and known, 'accepted')
    s.check(isinstance(raised(gw.getService, s.choice('name', [None, 1, []])), TypeError), 'name of no string type')
    s.check(gw.requests == [] and len(gw.headers) == 0, 'nothing pending')
