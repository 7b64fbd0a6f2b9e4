# C12: remoting envelopes survive encoding and decoding, with exact lengths
import pyamf
from pyamf import remoting, util
import hx

BOUNDS = ('envelopes of up to 2 headers and 3 bodies; names, targets and ids of up to 2 (thorough: 3) characters, any Unicode; values: every '
          'scalar kind with symbolic content, shared containers and objects of a registered class; AMF0 and AMF3; malformed envelopes: every '
          'truncation, every wrong declared length, every replacement of one byte (thorough: two) and every string of up to 7 '
          '(thorough: 9) bytes')
ASSUMPTIONS = ['header order is that of a dictionary: headers are compared by name',
               'a request whose target ends in a status suffix cannot be told from a response and is outside the claim',
               'response ids within one envelope are distinct (an envelope is a mapping)',
               'text that is not UTF-8 may be refused with UnicodeDecodeError',
               'without strict, lengths are written as 0 (unknown), as PyAMF documents by its tests']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree', 'pyamf.remoting']
REFUSED = (pyamf.DecodeError, pyamf.ReferenceError, pyamf.UnknownClassAlias, IOError, pyamf.EOStream, UnicodeDecodeError)
SUFFIX = [u'/onResult', u'/onStatus', u'/onDebugEvents']


def setup():
    pyamf.register_class(hx.Thing, 'T')


def teardown():
    pyamf.unregister_class(hx.Thing)


def refused(s, data, strict=True, label='accepted'):
    try:
        remoting.decode(data, strict=strict)
    except REFUSED:
        return
    s.fail(label)


def walk(s, data, env, strict):
    """the layout of the encoding; lengths as declared"""
    st = util.BufferedByteStream(data)
    s.check(st.read_ushort() == env.amfVersion, 'version')
    s.check(st.read_ushort() == len(env.headers), 'number of headers')
    for name in env.headers:
        s.check(s.same(st.read(st.read_ushort()), hx.key_bytes(s, name)), 'header name')
        s.check(st.read_uchar() == (env.headers.is_required(name) and 1 or 0), 'required flag')
        n = st.read_ulong()
        if not strict:
            s.check(n == 0, 'unknown header length')
            return
        d = pyamf.get_decoder(0, st.read(n))
        d.use_amf3 = env.amfVersion == 3
        s.check(hx.equal(s, env.headers[name], d.readElement()), 'header value within its length')
        s.check(d.stream.at_eof(), 'header length too large')
    s.check(st.read_ushort() == len(env), 'number of bodies')
    for name, m in env:
        target = st.read(st.read_ushort())
        response = st.read(st.read_ushort())
        if type(m) is remoting.Request:
            s.check(s.same(target, hx.key_bytes(s, m.target)), 'target')
            s.check(s.same(response, hx.key_bytes(s, name)), 'response id')
        else:
            s.check(s.same(target, hx.key_bytes(s, name) + SUFFIX[m.status].encode('ascii')), 'target of a response')
            s.check(response == 'null', 'response id of a response')
        n = st.read_ulong()
        if not strict:
            s.check(n == 0, 'unknown body length')
            return
        body = st.read(n)
        if type(m) is remoting.Request:
            s.check(body[0] == '\x0a', 'arguments are an array')
            d = pyamf.get_decoder(0, body[5:])
            out = []
            for i in range(len(m.body)):
                out.append(d.readElement())
            s.check(s.same(body[1:5], '\x00\x00\x00' + chr(len(m.body))), 'number of arguments')
            s.check(hx.equal(s, m.body, out), 'arguments within their length')
        else:
            d = pyamf.get_decoder(0, body)
            s.check(hx.equal(s, m.body, d.readElement()), 'body within its length')
        s.check(d.stream.at_eof(), 'body length too large')
    s.check(st.at_eof(), 'bytes after the last body')


def compare(s, a, b):
    """envelope b is what decoding a must give"""
    s.check(b.amfVersion == a.amfVersion, 'version')
    s.check(len(b.headers) == len(a.headers), 'number of headers')
    for k in a.headers:
        x = k
        if s.is_(k, str):
            x = k.decode('utf-8')
        s.check(x in b.headers, 'header missing')
        s.check(hx.equal(s, a.headers[k], b.headers[x]), 'header value')
        s.check(b.headers.is_required(x) == a.headers.is_required(k), 'required flag')
    p, q = list(a), list(b)
    s.check(len(p) == len(q), 'number of bodies')
    for i in range(len(p)):
        n, m = p[i]
        x, y = q[i]
        s.check(type(x) is unicode and s.same(x, hx.key_bytes(s, n).decode('utf-8')), 'id')
        s.check(type(y) is type(m), 'request or response')
        s.check(y.envelope is b, 'envelope of the message')
        if type(m) is remoting.Request:
            s.check(s.same(y.target, hx.key_bytes(s, m.target).decode('utf-8')), 'target')
        else:
            s.check(y.status == m.status, 'status')
        s.check(hx.equal(s, m.body, y.body), 'body')


def through(s, env, reencode=True):
    strict = s.choice('strict', [True, False])
    data = remoting.encode(env, strict=strict).getvalue()
    walk(s, data, env, strict)
    back = remoting.decode(data, strict=strict)
    compare(s, env, back)
    if reencode:
        s.check(s.same(remoting.encode(back, strict=strict).getvalue(), data), 'same bytes again')
    return data


def name(s, n, kinds=('u0', 'u1', 'u2', 'ascii', 'bytes')):
    k = s.choice(n + '.k', kinds)
    if k == 'u0':
        return u''
    if k == 'u1':
        return s.uni(n, 1)
    if k == 'u2':
        return s.uni(n, s.quick and 2 or 3)
    if k == 'ascii':
        return s.uni(n, 2, 127).encode('ascii')
    return s.uni(n, 1).encode('utf-8')


def envelope(s):
    return remoting.Envelope(s.choice('version', [0, 3]))


SMALL = ['none', 'bool', 'mid', 'float', 'asc2', 'str1', 'uni1', 'list0', 'dict0']


def value(s, n):
    k = s.choice(n + '.v', ['scalar', 'list', 'object', 'shared'])
    if k == 'scalar':
        return hx.scalar(s, n, SMALL)
    if k == 'list':
        return [s.int(n, 0, 255), None, [u'x']]
    if k == 'object':
        t = hx.Thing()
        t.x = s.uni(n, 1)
        return t
    l = [s.int(n, 0, 255)]
    return [l, l]


def t_header(s):
    """a header: name, required flag, value"""
    setup()
    try:
        e = envelope(s)
        if s.quick and s.choice('focus', ['name', 'value']) == 'value':
            k, v = u'nm', value(s, 'value')
        else:
            k = name(s, 'name')
            v = s.quick and 1 or value(s, 'value')
        e.headers[k] = v
        e.headers.set_required(k, s.choice('required', [True, False]))
        through(s, e)
    finally:
        teardown()


def t_headers(s):
    """several headers, values sharing a container"""
    e = envelope(s)
    l = [s.int('a', 0, 100)]
    e.headers[u'one'] = l
    e.headers[u'two'] = [l, s.uni('b', 1, 0x7ff)]
    e.headers[u'two!'] = l
    for k in list(e.headers):
        e.headers.set_required(k, s.choice('r' + k, [True, False]))
    e.headers.set_required(u'two', s.choice('again', [True, False]))
    through(s, e, False)


def t_request(s):
    """a request: id, target, arguments"""
    setup()
    try:
        e = envelope(s)
        k = s.quick and s.choice('focus', ['target', 'args'])
        t, n = u't.m', u'/1'
        if k != 'args':
            t = name(s, 'target', ('u0', 'u1', 'u2', 'ascii'))
        if k != 'target':
            args = [value(s, 'arg%d' % i) for i in range(s.choice('n', 2))]
            if s.choice('tuple', [False, True]):
                args = tuple(args)
        else:
            args = [None]
        if not s.quick:
            n = name(s, 'id', ('u1', 'ascii'))
        e[n] = remoting.Request(t, args)
        through(s, e)
    finally:
        teardown()


def t_request_id(s):
    """a request: any id"""
    e = envelope(s)
    e[name(s, 'id')] = remoting.Request(u'a.b', [s.int('x', 0, 400), u'x'])
    through(s, e)


def t_response(s):
    """a response: id, status, body"""
    setup()
    try:
        e = envelope(s)
        k = s.quick and s.choice('focus', ['id', 'body'])
        n, v = u'/1', u'x'
        if k != 'body':
            n = name(s, 'id', ('u0', 'u1', 'u2', 'ascii'))
        if k != 'id':
            v = value(s, 'body')
        # an error whose body is an object is decoded as a fault, see t_fault
        e[n] = remoting.Response(v, s.choice('status', isinstance(v, dict) and [0, 2] or [0, 1, 2]))
        through(s, e, True)
    finally:
        teardown()


def t_response_suffix(s):
    """a response id that itself ends in a status suffix"""
    e = envelope(s)
    n = s.uni('id', 1) + s.choice('suffix', SUFFIX)
    e[n] = remoting.Response(s.int('x', 0, 9), s.choice('status', [0, 1, 2]))
    through(s, e)


def t_batch(s):
    """requests and responses in one envelope, sharing values: order and references"""
    setup()
    try:
        e = envelope(s)
        if s.choice('header', [False, True]):
            e.headers[u'h'] = [u'shared', s.int('h', 0, 200)]
        t = hx.Thing()
        t.x = u'shared'
        t.y = s.int('y', 1000, 1060)
        l = [t, u'shared']
        for i, k in enumerate(s.choice('order', [(u'/3', u'/1'), (u'a', u'b')] if s.quick else [(u'/1', u'/2', u'/3'), (u'/3', u'/1', u'/2'), (u'b', u'a')])):
            if s.choice('kind%d' % i, ['request', 'response']) == 'request':
                e[k] = remoting.Request(u'svc.m%d' % i, [l, t, [t, t]])
            else:
                e[k] = remoting.Response([t, l, u'shared'], s.choice('status%d' % i, [0, 2]))
        through(s, e)
    finally:
        teardown()


def t_mapping(s):
    """an envelope is an ordered mapping of ids to messages"""
    e = remoting.Envelope(0)
    s.check(not e, 'empty')
    a, b, c = remoting.Request(u'a', [1]), remoting.Response(s.int('x', 0, 9)), remoting.Request(u'c', [3])
    x, y = s.uni('k1', 1), s.uni('k2', 1)
    e[x] = a
    e[y] = b
    s.check(bool(e), 'not empty')
    s.check(a.envelope is e and b.envelope is e, 'envelope of the messages')
    if x == y:
        s.check(len(e) == 1 and e[x] is b, 'replaced')
    else:
        s.check(len(e) == 2 and e[x] is a and e[y] is b, 'both')
        s.check(x in e and y in e, 'contained')
        s.check(e.keys() == [x, y], 'keys in order')
        e[x] = c
        s.check(e.keys() == [x, y], 'replacing keeps the order')
        s.check(e[x] is c and e[y] is b, 'replaced only one')
        s.check([v for k, v in e.items()] == [c, b] and [v for k, v in e.iteritems()] == [c, b], 'items')
    s.check(u'xyz' not in e, 'not contained')
    try:
        e[u'xyz']
        s.fail('unknown id found')
    except KeyError:
        pass
    try:
        e[x] = u'text'
        s.fail('not a message')
    except TypeError:
        pass
    h = remoting.HeaderCollection([(u'n', True, 1), (u'm', False, 2)])
    s.check(h.is_required(u'n') and not h.is_required(u'm') and len(h) == 2 and h[u'm'] == 2, 'headers from a list')
    for v in (s.choice('first', [True, False]), s.choice('second', [True, False])):
        k = s.choice('which', [u'n', u'm'])
        other = {u'n': u'm', u'm': u'n'}[k]
        was = h.is_required(other)
        h.set_required(k, v)
        s.check(h.is_required(k) == v and h.is_required(other) == was, 'required as set')
    for f in (h.is_required, h.set_required):
        try:
            f(u'xyz')
            s.fail('unknown header')
        except KeyError:
            pass


def t_fault(s):
    """a fault is decoded as a fault with the same fields"""
    e = envelope(s)
    code, desc = s.uni('code', s.quick and 1 or 2), s.uni('desc', 1, s.quick and 0x7ff or 0x10ffff)
    det = s.choice('details', ['', [u'x', 1]])
    e[u'/1'] = remoting.Response(remoting.ErrorFault(code=code, type=u'T', description=desc, details=det), remoting.STATUS_ERROR)
    strict = s.choice('strict', [True, False])
    data = remoting.encode(e, strict=strict).getvalue()
    back = remoting.decode(data, strict=strict)
    m = back[u'/1']
    s.check(m.status == remoting.STATUS_ERROR, 'status')
    s.check(type(m.body) is remoting.ErrorFault, 'fault')
    f = m.body
    s.check(s.same(f.code, code) and s.same(f.description, desc) and f.type == u'T', 'fields')
    s.check(f.details == det and f.level == 'error', 'details and level')
    s.check(s.same(remoting.encode(back, strict=strict).getvalue(), data), 'same bytes again')


def t_fault_any(s):
    """whatever an error response contains, it is decoded"""
    e = envelope(s)
    body = pyamf.ASObject()
    k = s.choice('key', ['any', 'self', 'level', 'code', 'args', 'kwargs'])
    if k == 'any':
        k = s.uni('k', 1)
    body[k] = s.choice('value', [u'error', u'status', None, 5, []])
    e[u'/1'] = remoting.Response(body, 1)
    back = remoting.decode(remoting.encode(e).getvalue())
    m = back[u'/1']
    s.check(isinstance(m.body, remoting.BaseFault), 'fault')
    if k == 'code':
        s.check(m.body.code == body[k], 'code')
    if k not in ('level', u'level') or body[k] == u'error':
        s.check(type(m.body) is remoting.ErrorFault, 'error by default')


def example(s):
    e = envelope(s)
    e.headers[u'h'] = [1, u'x']
    e[u'/1'] = remoting.Request(u's.m', [u'ab', 2.5, None])
    e[u'/2'] = remoting.Response({u'k': True}, 0)
    return e


def t_lengths(s):
    """a strict decoder refuses every wrong length, a lenient one ignores it"""
    e = example(s)
    good = remoting.encode(e, strict=True).getvalue()
    st = util.BufferedByteStream(good)
    spots = []
    st.seek(4)
    st.read(st.read_ushort() + 1)
    spots.append(st.tell())
    st.read(st.read_ulong() + 2)
    for i in range(2):
        st.read(st.read_ushort())
        st.read(st.read_ushort())
        spots.append(st.tell())
        st.read(st.read_ulong())
    s.check(st.at_eof(), 'declared lengths do not add up')
    at = s.choice('which', spots)
    n = s.bytes('length', 4)
    data = good[:at] + n + good[at + 4:]
    back = remoting.decode(data)
    compare(s, e, back)
    try:
        remoting.decode(data, strict=True)
    except pyamf.DecodeError:
        s.check(s.Not(s.same(n, good[at:at + 4])), 'right length refused')
        return
    s.check(s.same(n, good[at:at + 4]), 'wrong length accepted')


def t_truncated(s):
    """every proper prefix of an envelope is refused as incomplete"""
    good = remoting.encode(example(s), strict=s.choice('s', [True, False])).getvalue()
    n = s.choice('n', len(good))
    try:
        remoting.decode(good[:n], strict=s.choice('strict', [True, False]))
    except (IOError, pyamf.EOStream):
        return
    except pyamf.DecodeError:
        return
    s.fail('truncated envelope accepted')


def t_trailing(s):
    """a strict decoder refuses bytes after the envelope"""
    good = remoting.encode(example(s), strict=True).getvalue()
    extra = s.bytes_upto('extra', 2, 1)
    remoting.decode(good + extra)
    refused(s, good + extra)


def t_version(s):
    """versions above 9 are refused, and only 3 means AMF3"""
    v = s.bytes('version', 2)
    n = ord(v[0]) * 256 + ord(v[1])
    data = v + '\0\0\0\1\0\1a\0\1b\0\0\0\0\x0a\0\0\0\1'
    amf3 = s.choice('arg', [False, True])
    data += amf3 and '\x11\x04\x05' or '\0\x40\x14\0\0\0\0\0\0'
    try:
        e = remoting.decode(data)
    except pyamf.DecodeError:
        s.check(n > 9, 'version refused')
        return
    s.check(n <= 9, 'version accepted')
    s.check(e.amfVersion == n, 'version')
    s.check(e[u'b'].body == [5] and e[u'b'].target == u'a', 'body')


def t_counts(s):
    """as many headers and bodies as announced"""
    n = s.bytes('n', 2)
    what = s.choice('what', ['headers', 'bodies'])
    if what == 'headers':
        data = '\0\0' + n + '\0\1a\0\0\0\0\0\5\0\0'
    else:
        data = '\0\0\0\0' + n + '\0\1a\0\1b\0\0\0\0\x0a\0\0\0\0'
    try:
        e = remoting.decode(data)
    except (IOError, pyamf.EOStream):
        s.check(s.Not(s.same(n, '\0\1')), 'complete envelope refused')
        return
    if what == 'headers':
        s.check(s.Or(s.same(n, '\0\1'), s.same(n, '\0\0')), 'more headers announced than there are')
        s.check(len(e.headers) == ord(n[1]) or len(e), 'number of headers')
    else:
        s.check(s.Or(s.same(n, '\0\1'), s.same(n, '\0\0')), 'more bodies announced than there are')
        s.check(len(e) == ord(n[1]), 'number of bodies')


def t_arguments(s):
    """arguments of a request must be an array"""
    v = s.choice('version', [0, 3])
    data = '\0' + chr(v) + '\0\0\0\1\0\1a\0\1b\0\0\0\0' + s.choice('head', ['', '\x11', '\x0a', '\x0a\xff\xff\xff\xff\5'])
    data += s.bytes_upto('rest', s.quick and 3 or 4)
    try:
        e = remoting.decode(data)
    except REFUSED:
        return
    s.check(isinstance(e[u'b'].body, list), 'arguments are not a list')


def t_arguments_type(s):
    """what is sent as arguments says that it is an array, or AMF3 in an AMF3 envelope"""
    v = s.choice('version', [0, 3])
    k = s.bytes('k', 1)
    s.assume(k != '\x0a' and not (v == 3 and k == '\x11'))
    data = '\0' + chr(v) + '\0\0\0\1\0\1a\0\1b\0\0\0\0' + k
    # what would be no, one or two arguments, or a complete value of another type
    data += s.choice('rest', ['\0\0\0\0', '\0\0\0\1\5', '\0\0\0\2\5\5', '', '\0\0\x09', '\0\0', '\1', '\1\1', '\0' * 8])
    try:
        remoting.decode(data)
    except REFUSED:
        return
    s.fail('accepted')


def t_malformed(s):
    """arbitrary bytes: an envelope or a documented error"""
    data = s.bytes_upto('data', s.quick and 7 or 9)
    try:
        remoting.decode(data, strict=s.choice('strict', [True, False]))
    except REFUSED:
        pass


def t_changed(s):
    """a valid envelope with any byte replaced: an envelope or a documented error"""
    strict = s.choice('strict', [True, False])
    good = remoting.encode(example(s), strict=strict).getvalue()
    at = s.choice('at', len(good))
    data = good[:at] + s.bytes('new', 1) + good[at + 1:]
    if not s.quick:
        at = s.choice('at2', len(good))
        data = data[:at] + s.bytes('new2', 1) + data[at + 1:]
    try:
        remoting.decode(data, strict=strict)
    except REFUSED:
        pass


def t_refused(s):
    """what an envelope cannot carry is refused"""
    e = remoting.Envelope(0)
    k = s.choice('what', ['status', 'target', 'header', 'id', 'message'])
    if k == 'status':
        n = s.int('n', -5, 300)
        s.assume(s.Or(n < 0, n > 2))
        e[u'/1'] = remoting.Response(1, n)
    elif k == 'target':
        e[u'/1'] = remoting.Request(u'\xe9' * 32768, [])
    elif k == 'header':
        e.headers[u'\xe9' * 32768] = 1
    elif k == 'id':
        e[u'\xe9' * 32768] = remoting.Request(u'x', [])
    else:
        e.bodies.append((u'/1', remoting.Message(e, 1)))
    try:
        remoting.encode(e, strict=s.choice('strict', [True, False]))
    except (ValueError, OverflowError, TypeError, pyamf.EncodeError):
        return
    s.fail('accepted')
