# C22: XML restrictions asked for are applied to every XML value decoded
import pyamf
from pyamf import amf0, amf3, codec, remoting, sol, util, xml
from pyamf.flex import ArrayCollection
import hx

BOUNDS = ('documents of any content of up to 2 (thorough: 4) bytes, with or without a document type declaration and entities; each restriction '
          'left out, on or off; every route an XML value takes into a decoder, the values nested up to two levels deep; two documents in one '
          'stream or message; histories of 3 calls of set_default_etree')
ASSUMPTIONS = ['the XML library honours the restrictions it is given: it is asked for them on every call (calls are recorded), what it does '
               'with them is checked on six documents only',
               'a XML library set by set_default_etree takes the restrictions as keyword arguments, as the ones of defusedxml do']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree', 'pyamf.flex', 'pyamf.remoting', 'pyamf.sol']


class Forbidden(ValueError):
    pass


class Lib(object):
    """a XML library that keeps what it is asked"""

    def __init__(self, s):
        self.s = s
        self.calls = []
        self.made = []
        self.refused = 0

        class Element(object):
            pass

        self.Element = Element

    def fromstring(self, text, forbid_dtd=False, forbid_entities=True, forbid_external=True):
        e = self.Element()
        e.text = text
        if text == '<foo/>' and not self.calls:
            return e
        n = len(self.calls)
        self.calls.append((text, forbid_dtd, forbid_entities, forbid_external))
        if forbid_dtd and self.s.bool('dtd%d' % n):
            self.refused += 1
            raise Forbidden('DTD')
        if forbid_entities and self.s.bool('entities%d' % n):
            self.refused += 1
            raise Forbidden('entities')
        self.made.append(e)
        return e

    def tostring(self, e):
        return e.text


def flags(s):
    """(dtd, entities) wanted, keyword arguments for them"""
    kw, want = {}, []
    for n in ('forbid_dtd', 'forbid_entities'):
        v = s.choice(n, ['default', True, False])
        if v != 'default':
            kw[n] = v
        want.append(v != False)
    return want, kw


def asked(s, lib, docs, want):
    """the documents, in this order, with these restrictions; the rest not after the first refused"""
    n = len(lib.calls)
    s.check(n <= len(docs), 'asked once for each')
    s.check(n == len(docs) or lib.refused, 'asked')
    for i in range(n):
        text, dtd, entities, external = lib.calls[i]
        s.check(text == docs[i], 'document')
        s.check(type(dtd) is bool and dtd == want[0], 'forbid_dtd')
        s.check(type(entities) is bool and entities == want[1], 'forbid_entities')
        s.check(external is True, 'external references')


def doc(s, n, every=False):
    if s.quick and not every:
        return s.bytes('doc%d' % n, 1)
    return s.bytes_upto('doc%d' % n, s.quick and 2 or 4)


def xml0(d):
    return '\x0f\x00\x00\x00' + chr(len(d)) + d


def xml3(s, d, n=''):
    return s.choice('marker' + n, s.quick and n and ['\x0b'] or ['\x07', '\x0b']) + chr(len(d) * 2 + 1) + d


def nested0(s, x):
    """(data, what gets at the value)"""
    k = s.choice('in0', ['alone', 'object', 'typed', 'unknown', 'array', 'mixed', 'two levels'])
    return {'alone': (x, lambda v: v),
            'object': ('\x03\x00\x01k' + x + '\x00\x00\x09', lambda v: v['k']),
            'typed': ('\x10\x00\x05thing\x00\x01k' + x + '\x00\x00\x09', lambda v: v.k),
            'unknown': ('\x10\x00\x07unknown\x00\x01k' + x + '\x00\x00\x09', lambda v: v['k']),
            'array': ('\x0a\x00\x00\x00\x02\x05' + x, lambda v: v[1]),
            'mixed': ('\x08\x00\x00\x00\x01\x00\x01k' + x + '\x00\x00\x09', lambda v: v['k']),
            'two levels': ('\x0a\x00\x00\x00\x01\x03\x00\x01k' + x + '\x00\x00\x09', lambda v: v[0]['k'])}[k]


class Ext(object):
    class __amf__:
        external = True

    def __readamf__(self, input):
        self.k = input.readObject()

    def __writeamf__(self, output):
        output.writeObject(self.k)


def nested3(s, x):
    k = s.choice('in3', ['alone', 'dynamic', 'static', 'typed', 'unknown', 'array', 'mixed', 'external', 'collection', 'proxy', 'two levels'])
    if k in ('external',):
        pyamf.register_class(Ext, 'ext')
    return {'alone': (x, lambda v: v),
            'dynamic': ('\x0a\x0b\x01\x03k' + x + '\x01', lambda v: v['k']),
            'static': ('\x0a\x13\x01\x03k' + x, lambda v: v['k']),
            'typed': ('\x0a\x0b\x0bthing\x03k' + x + '\x01', lambda v: v.k),
            'unknown': ('\x0a\x13\x0funknown\x03k' + x, lambda v: v['k']),
            'array': ('\x09\x05\x01\x01' + x, lambda v: v[1]),
            'mixed': ('\x09\x03\x03k' + x + '\x01\x01', lambda v: v['k']),
            'external': ('\x0a\x07\x07ext' + x, lambda v: v.k),
            'collection': ('\x0a\x07\x43flex.messaging.io.ArrayCollection\x09\x03\x01' + x, lambda v: v[0]),
            'proxy': ('\x0a\x07\x3bflex.messaging.io.ObjectProxy\x0a\x0b\x01\x03k' + x + '\x01', lambda v: v.k),
            'two levels': ('\x09\x03\x01\x0a\x0b\x01\x03k' + x + '\x01', lambda v: v[0]['k'])}[k]


def library(s):
    lib = Lib(s)
    pyamf.set_default_etree(lib)
    pyamf.register_class(hx.Thing, 'thing')
    return lib


def finish(s, lib, docs, want, read, get):
    """reads the value, which is the document unless it was refused"""
    try:
        v = read()
    except Forbidden:
        s.check(lib.refused == 1, 'refused')
    else:
        s.check(lib.refused == 0, 'not refused')
        v = get(v)
        s.check(len(lib.made) == len(docs) and v is lib.made[0], 'the document')
        s.check(xml.is_xml(v) and v.text == docs[0], 'the document')
    asked(s, lib, docs, want)


def t_amf0(s):
    """XML in AMF0"""
    lib, d = library(s), doc(s, 0, True)
    want, kw = flags(s)
    data, get = nested0(s, xml0(d))
    finish(s, lib, [d], want, lambda: list(pyamf.decode(data, encoding=0, **kw))[0], get)


def t_amf3(s):
    """XML in AMF3"""
    lib, d = library(s), doc(s, 0, True)
    want, kw = flags(s)
    data, get = nested3(s, xml3(s, d))
    finish(s, lib, [d], want, lambda: list(pyamf.decode(data, encoding=3, **kw))[0], get)


def t_amf3_in_amf0(s):
    """XML in AMF3 in AMF0"""
    lib, d = library(s), doc(s, 0)
    want, kw = flags(s)
    data, get3 = nested3(s, xml3(s, d))
    data, get0 = nested0(s, '\x11' + data)
    finish(s, lib, [d], want, lambda: list(pyamf.decode(data, encoding=0, **kw))[0], lambda v: get3(get0(v)))


def t_made(s):
    """every way to make a decoder"""
    lib, d = library(s), doc(s, 0)
    enc = s.choice('enc', [0, 3])
    want, kw = flags(s)
    data = enc and xml3(s, d) or s.choice('avm+', ['', '\x11']) and '\x11' + xml3(s, d) or xml0(d)
    how = s.choice('how', ['get_decoder', 'class', 'positional', 'context', 'send', 'strict', 'stream'])
    mod = enc and amf3 or amf0
    if how == 'get_decoder':
        dec = pyamf.get_decoder(enc, data, **kw)
    elif how == 'class':
        dec = mod.Decoder(data, **kw)
    elif how == 'positional':
        dec = mod.Decoder(data, None, False, None, want[0], want[1])
    elif how == 'context':
        dec = mod.Decoder(data, mod.Context(**kw))
    elif how == 'send':
        dec = pyamf.get_decoder(enc, **kw)
        dec.send(data)
    elif how == 'strict':
        dec = pyamf.get_decoder(enc, data, strict=True, **kw)
    else:
        dec = pyamf.get_decoder(enc, util.BufferedByteStream(data), timezone_offset=None, **kw)
    read = s.choice('read', ['readElement', 'next'])
    finish(s, lib, [d], want, getattr(dec, read), lambda v: v)


def t_two(s):
    """two documents, and what is left of the restrictions after the first"""
    lib, d, e = library(s), doc(s, 0), s.bytes('doc1', 1)
    want, kw = flags(s)
    form = s.choice('form', ['amf0', 'amf3', 'avm+', 'avm+ and amf0', 'amf0 and avm+'])
    a = form in ('amf0', 'amf0 and avm+') and xml0(d) or (form != 'amf3' and '\x11' or '') + xml3(s, d)
    b = form in ('amf0', 'avm+ and amf0') and xml0(e) or (form != 'amf3' and '\x11' or '') + xml3(s, e, '1')
    dec = pyamf.get_decoder(form == 'amf3' and 3 or 0, a + b, **kw)
    between = s.choice('between', ['nothing', 'clear', 'finalise'])

    def read():
        v = dec.readElement()
        if between == 'clear':
            dec.context.clear()
        elif between == 'finalise':
            rest = dec.stream.read()
            dec.stream.truncate()
            dec.context.clear()
            dec.send(rest)
        w = dec.readElement()
        s.check(w is lib.made[1], 'second')
        return v

    finish(s, lib, [d, e], want, read, lambda v: v)


def t_reference(s):
    """a reference to a document is the document, not parsed again"""
    lib, d = library(s), doc(s, 0)
    want, kw = flags(s)
    if s.bool('amf3'):
        data = '\x09\x05\x01' + xml3(s, d) + s.choice('ref', ['\x07', '\x0b']) + '\x02'
        enc = 3
    else:
        data = '\x0a\x00\x00\x00\x02' + xml0(d) + '\x07\x00\x01'
        enc = 0

    def get(v):
        s.check(v[1] is v[0], 'reference')
        return v[0]

    finish(s, lib, [d], want, lambda: list(pyamf.decode(data, encoding=enc, **kw))[0], get)


def t_remoting(s):
    """XML in headers and bodies of messages"""
    lib, d, e = library(s), doc(s, 0), s.bytes('doc1', 1)
    want, kw = flags(s)
    version = s.choice('version', ['\x00', '\x03'])
    where = s.choice('where', ['header', 'body', 'both', 'bodies'])
    lengths = s.choice('lengths', s.quick and [0] or [0, 1])

    def value(x, n):
        v = s.choice('avm+%d' % n, [0, 1]) and '\x11' + '\x0b' + chr(len(x) * 2 + 1) + x or xml0(x)
        return '\x0a\x00\x00\x00\x01' + v

    def header(v):
        return '\x00\x01h\x00' + '\x00\x00\x00' + chr(len(v) * lengths) + v

    def body(target, v):
        return '\x00\x03a.b\x00\x02/' + target + '\x00\x00\x00' + chr(len(v) * lengths) + v

    v, w = value(d, 0), '\x0a\x00\x00\x00\x00'
    docs = [d]
    if where in ('both', 'bodies'):
        w = value(e, 1)
        docs.append(e)
    if where == 'header':
        data = '\x00\x01' + header(v) + '\x00\x01' + body('1', w)
        get = lambda m: m.headers['h'][0]
    elif where == 'body':
        data = '\x00\x00\x00\x01' + body('1', v)
        get = lambda m: m['/1'].body[0]
    elif where == 'both':
        data = '\x00\x01' + header(v) + '\x00\x01' + body('1', w)
        get = lambda m: m.headers['h'][0]
    else:
        data = '\x00\x00\x00\x02' + body('1', v) + body('2', w)
        get = lambda m: m['/1'].body[0]
    finish(s, lib, docs, want, lambda: remoting.decode('\x00' + version + data, **kw), get)


def t_shared_objects(s):
    """XML in shared objects: no way to lift the restrictions"""
    lib, d = library(s), doc(s, 0)
    enc = s.choice('enc', [0, 3])
    x = enc and '\x03k' + xml3(s, d) or '\x00\x01k' + xml0(d)
    rest = 'TCSO\x00\x04\x00\x00\x00\x00\x00\x01n\x00\x00\x00' + chr(enc) + x + '\x00'
    data = '\x00\xbf\x00\x00\x00' + chr(len(rest)) + rest
    finish(s, lib, [d], (True, True), lambda: sol.decode(data), lambda v: v[1]['k'])


def t_byte_arrays(s):
    """XML in byte arrays, on their own or received"""
    lib, d = library(s), doc(s, 0)
    want, kw = flags(s)
    x = xml3(s, d)
    if s.bool('received'):
        b = list(pyamf.decode('\x0c' + chr(len(x) * 2 + 1) + x, encoding=3, **kw))[0]
    else:
        b = amf3.ByteArray(x)
    s.check(len(lib.calls) == 0, 'not asked for')
    finish(s, lib, [d], (True, True), b.readObject, lambda v: v)


def t_direct(s):
    """pyamf.xml.fromstring: restricted unless told otherwise"""
    lib, d = library(s), doc(s, 0)
    want, kw = flags(s)
    finish(s, lib, [d], want, lambda: xml.fromstring(d, **kw), lambda v: v)


def t_libraries(s):
    """several libraries: the one set last parses, elements are written by the one they come from"""
    libs = [Lib(s), Lib(s), Lib(s)]
    was = pyamf.set_default_etree(libs[0])
    seen, now = [libs[0]], libs[0]
    for i in range(3):
        lib = libs[s.choice('lib%d' % i, 3)]
        s.check(pyamf.set_default_etree(lib) is now, 'the one before')
        now = lib
        if lib not in seen:
            seen.append(lib)
    s.check(xml.ET is now, 'set')
    elements = []
    for i in range(3):
        if libs[i] in seen:
            e = libs[i].Element()
            e.text = '<e%d/>' % i
            elements.append(e)
            s.check(xml.is_xml(e), 'an element')
            s.check(xml.tostring(e) == e.text, 'written by its own')
    s.check(not xml.is_xml('<a/>') and not xml.is_xml(None) and not xml.is_xml(object()), 'no element')
    enc = s.choice('enc', [0, 3])
    data = pyamf.encode(elements, encoding=enc).getvalue()
    v = list(pyamf.decode(data, encoding=enc, forbid_dtd=False, forbid_entities=False))[0]
    s.check(len(v) == len(elements), 'all')
    for i in range(len(v)):
        s.check(v[i].__class__ is now.Element, 'read by the one set last')
        s.check(v[i].text == elements[i].text, 'same text')


DOCS = {'plain': ('<a>b</a>', False, False),
        'dtd': ('<!DOCTYPE a><a>b</a>', True, False),
        'entity': ('<!DOCTYPE a [<!ENTITY e "c">]><a>b</a>', True, True),
        'used': ('<!DOCTYPE a [<!ENTITY e "c">]><a>&e;</a>', True, True),
        'external': ('<!DOCTYPE a [<!ENTITY e SYSTEM "file:///nonexistent/e">]><a>&e;</a>', True, True),
        'bomb': ('<!DOCTYPE a [<!ENTITY e "c"><!ENTITY f "&e;&e;">]><a>&f;</a>', True, True)}


def t_library(s):
    """the library found by default"""
    name = s.choice('doc', ['plain', 'dtd', 'entity', 'used', 'external', 'bomb'])
    text, dtd, entities = DOCS[name]
    want, kw = flags(s)
    refused = (dtd and want[0]) or (entities and want[1])
    if not refused and name in ('used', 'external', 'bomb'):
        # what the library makes of these is its own affair
        s.stop()
    route = s.choice('route', ['amf0', 'amf3', 'avm+', 'direct'])
    x = '\x0b\x81\x00'
    n = len(text) * 2 + 1
    n3 = n < 128 and chr(n) or chr(0x80 | (n >> 7)) + chr(n & 127)
    try:
        if route == 'amf0':
            v = list(pyamf.decode(xml0(text), encoding=0, **kw))[0]
        elif route == 'amf3':
            v = list(pyamf.decode('\x0b' + n3 + text, encoding=3, **kw))[0]
        elif route == 'avm+':
            v = list(pyamf.decode('\x11\x07' + n3 + text, encoding=0, **kw))[0]
        else:
            v = xml.fromstring(text, **kw)
    except (ValueError, pyamf.DecodeError):
        s.check(refused, 'refused')
    else:
        s.check(not refused, 'not refused')
        s.check(xml.is_xml(v), 'document')
