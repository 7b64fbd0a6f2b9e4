# C27: one codec, whichever way it is driven
import pyamf
from pyamf import util, codec
import hx

BOUNDS = ('3 values (thorough: 4) out of numbers, text, containers and objects sharing parts, with symbolic leaves, in AMF0 and AMF3; every history of 4 (6) '
          'calls of send and next on an encoder, and of 5 (7) of send, next and readElement on a decoder fed value by value; up to 3 post-processors that keep, '
          'replace or note the value, or fail, over 3 values; any number up to 99 and 6 other things as encoding; every name of an unknown option')
ASSUMPTIONS = ['values in AMF3 within AMF0 may be post-processed by themselves as well as within the value they are part of']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3']


def pool(s, enc):
    a = s.int('a', 1000000, 1001000)
    lst = [a, u'ab']
    thing = hx.Thing()
    thing.ab = lst
    return {'num': a, 'text': s.uni('t', 1, 0x7ff), 'list': lst, 'thing': thing, 'dict': {u'ab': lst}, 'none': None, 'bytes': 'ab', 'true': True}


NAMES = ['list', 'thing', 'text', 'dict', 'num', 'none']


def some(s, enc, n):
    p = pool(s, enc)
    return [p[s.choice('v%d' % i, NAMES[:i and 4 or 6])] for i in range(n)]


def stepwise(enc, values):
    """what each value adds to the stream"""
    e = pyamf.get_encoder(enc)
    out = []
    for v in values:
        k = e.stream.tell()
        e.writeElement(v)
        out.append(e.stream.getvalue()[k:])
    return out


def t_encode(s):
    """encode() writes its arguments one after the other and returns the stream at its start"""
    pyamf.register_class(hx.Thing, 'T')
    enc = s.choice('enc', [0, 3, None])
    n = s.choice('n', s.quick and 3 or 4)
    values = some(s, enc, n)
    kw = enc is not None and {'encoding': enc} or {}
    if enc is None:
        enc = 3
    st = pyamf.encode(*values, **kw)
    s.check(isinstance(st, util.BufferedByteStream), 'a stream')
    s.check(st.tell() == 0, 'position')
    data = st.getvalue()
    s.check(data == ''.join(stepwise(enc, values)), 'bytes')
    form = s.choice('form', ['stream', 'bytes', 'other stream'])
    if form == 'bytes':
        st = data
    elif form == 'other stream':
        st = util.BufferedByteStream(data)
    r = list(pyamf.decode(st, **kw))
    s.check(len(r) == n, 'number of values')
    for i in range(n):
        if not hx.is_container(values[i]):
            s.check(hx.equal(s, values[i], r[i]), 'value')
    s.check(hx.iso(s, [v for v in values if hx.is_container(v)], [r[i] for i in range(n) if hx.is_container(values[i])], []), 'shape')


def t_encoder(s):
    """an encoder given values hands out the bytes of one value after the other"""
    pyamf.register_class(hx.Thing, 'T')
    enc = s.choice('enc', [0, 3])
    e = pyamf.get_encoder(enc)
    s.check(iter(e) is e, 'its own iterator')
    p = pool(s, enc)
    names = ['list', 'thing', 'text']
    sent, got = [], []
    for i in range(s.quick and 4 or 6):
        op = s.choice('op%d' % i, names + ['next'])
        if op != 'next':
            e.send(p[op])
            sent.append(p[op])
            continue
        try:
            got.append(e.next())
        except StopIteration:
            s.check(len(got) == len(sent), 'stopped before the end')
        else:
            s.check(len(got) <= len(sent), 'a value too many')
    got += list(e)
    want = stepwise(enc, sent)
    s.check(len(got) == len(want), 'number of values')
    for i in range(len(want)):
        s.check(got[i] == want[i], 'bytes of a value')
    s.check(e.stream.getvalue() == ''.join(want), 'stream')


def t_decoder(s):
    """a decoder given data hands out the values that are complete, and goes on later"""
    pyamf.register_class(hx.Thing, 'T')
    enc = s.choice('enc', [0, 3])
    p = pool(s, enc)
    values = [p[k] for k in ('list', 'thing', 'text', 'list')]
    chunks = stepwise(enc, values)
    cut = s.choice('cut', [1, 2, 3])
    chunks = [chunks[0], chunks[1][:cut], chunks[1][cut:] + chunks[2][:1], chunks[2][1:] + chunks[3]]
    ready = [0, 1, 1, 2, 4]
    d = pyamf.get_decoder(enc)
    s.check(iter(d) is d, 'its own iterator')
    sent = 0
    got = []
    for i in range(s.quick and 5 or 7):
        op = s.choice('op%d' % i, ['send', 'next', 'read'])
        if op == 'send':
            if sent < len(chunks):
                d.send(chunks[sent])
                sent += 1
            continue
        pos = d.stream.tell()
        try:
            got.append(op == 'next' and d.next() or d.readElement())
        except (StopIteration, pyamf.EOStream, IOError) as e:
            s.check(len(got) == ready[sent], 'a complete value was not given')
            s.check(d.stream.tell() == pos, 'position')
            s.check(op == 'next' or type(e) is not StopIteration, 'end of iteration')
        else:
            s.check(len(got) <= ready[sent], 'a value that is not complete')
    while sent < len(chunks):
        d.send(chunks[sent])
        sent += 1
    while True:
        try:
            got.append(d.readElement())
        except pyamf.EOStream:
            break
    s.check(len(got) == 4, 'number of values')
    s.check(hx.iso(s, [values[0], values[1], values[3]], [got[0], got[1], got[3]], []), 'shape')
    s.check(hx.equal(s, values[2], got[2]), 'text')


class Failed(Exception):
    pass


def t_post(s):
    """post-processors get each value once, complete, in the order they were added, and have the last word"""
    pyamf.register_class(hx.Thing, 'T')
    del pyamf.POST_DECODE_PROCESSORS[:]
    enc = s.choice('enc', [0, 3])
    log = []

    def make(i, kind):
        def f(payload, extra):
            log.append((i, payload))
            s.check(type(extra) is dict, 'extra data')
            extra[i] = extra.get(i, 0) + 1
            if kind == 'replace':
                return ('new', i, payload)
            if kind == 'none':
                return None
            if kind == 'fail':
                raise Failed
            if kind == 'complete':
                s.check(type(payload) is not list or len(payload) == 3, 'complete')
            return payload
        return f
    kinds = [s.choice('kind%d' % i, ['same', 'replace', 'none', 'fail', 'complete']) for i in range(s.choice('n', s.quick and 3 or 4))]
    for i in range(len(kinds)):
        pyamf.add_post_decode_processor(make(i, kinds[i]))
    p = pool(s, enc)
    values = [[p['list'], p['thing'], p['text']], p['num'], p['thing']]
    d = pyamf.get_decoder(enc, pyamf.encode(*values, encoding=enc))
    for v in values:
        del log[:]
        fails = False
        try:
            r = d.readElement()
        except Failed:
            fails = True
        want = [len(log) and log[0][1]]
        n = 0
        for k in kinds:
            s.check(n < len(log) and log[n][0] == n, 'called in order')
            s.check(log[n][1] is want[-1] or log[n][1] == want[-1], 'given what the one before returned')
            n += 1
            if k == 'fail':
                break
            if k == 'replace':
                want.append(('new', n - 1, want[-1]))
            elif k == 'none':
                want.append(None)
            else:
                want.append(want[-1])
        s.check(len(log) == n, 'called once')
        s.check(fails == (n > 0 and kinds[n - 1] == 'fail'), 'failure')
        if kinds:
            first = log[0][1]
            s.check(type(first) is type(v) or not hx.is_container(v), 'decoded value')
            if not fails:
                s.check(r is want[-1] or r == want[-1], 'result')
        else:
            s.check(hx.iso(s, [v], [r], []) if hx.is_container(v) else hx.equal(s, v, r), 'decoded value')
    del pyamf.POST_DECODE_PROCESSORS[:]


def t_post_refused(s):
    """only what can be called is a post-processor"""
    bad = s.choice('bad', [None, 1, 'x', object(), [], {}])
    before = pyamf.POST_DECODE_PROCESSORS[:]
    try:
        pyamf.add_post_decode_processor(bad)
    except TypeError:
        s.check(pyamf.POST_DECODE_PROCESSORS == before, 'unchanged')
        return
    s.fail('accepted')


def t_encodings(s):
    """encodings that do not exist are refused"""
    enc = s.choice('kind', ['n', None, 'amf0', '3', u'0', object()])
    if enc == 'n':
        enc = s.int('n', -99, 99)
        s.assume(s.And(enc != 0, enc != 3))
    for f in (pyamf.get_encoder, pyamf.get_decoder):
        try:
            f(enc)
        except ValueError:
            continue
        s.fail('accepted')
    for f in (pyamf.encode, lambda **k: pyamf.decode('\5', **k)):
        try:
            f(encoding=enc)
        except ValueError:
            continue
        s.fail('accepted')


def t_context(s):
    """a context given to several codecs carries the references from one to the next; a context of one's own does not"""
    pyamf.register_class(hx.Thing, 'T')
    from pyamf import amf0, amf3
    enc = s.choice('enc', [0, 3])
    shared = s.bool('shared')
    mk = {0: amf0.Context, 3: amf3.Context}[enc]
    p = pool(s, enc)
    values = [p[s.choice('v%d' % i, ['list', 'thing', 'text'])] for i in range(3)]
    ce, cd = mk(), mk()
    r, alone = [], []
    for v in values:
        kw = shared and {'context': ce} or {}
        e = pyamf.get_encoder(enc, **kw)
        e.writeElement(v)
        kw = shared and {'context': cd} or {}
        d = pyamf.get_decoder(enc, e.stream.getvalue(), **kw)
        r.append(d.readElement())
        s.check(d.stream.at_eof(), 'left over')
        alone.append(e.stream.getvalue())
    for i in range(3):
        v = values[i]
        s.check(hx.iso(s, [v], [r[i]], []) if hx.is_container(v) else hx.equal(s, v, r[i]), 'value')
        if not shared:
            s.check(alone[i] == hx.encode(v, enc), 'bytes of a codec of its own')
    if shared:
        s.check(alone == stepwise(enc, values), 'bytes of codecs that share a context')
        cs = [v for v in values if hx.is_container(v)]
        s.check(hx.iso(s, cs, [r[i] for i in range(3) if hx.is_container(values[i])], []), 'shape')
        ce.clear()
        e = pyamf.get_encoder(enc, context=ce)
        e.writeElement(values[0])
        s.check(e.stream.getvalue() == alone[0], 'a cleared context')
