# C09: the AMF3 decoder on arbitrary bytes
import datetime
import pyamf
from pyamf import amf3, util, xml
import hx

BOUNDS = ('every input of up to 4 bytes (thorough: 8); every input of a container, reference, typed object or date head '
          'followed by up to 3 (thorough: 6) arbitrary bytes; strict and lenient decoders; class names denoting registered, '
          'importable, unsuitable and unknown classes')
ASSUMPTIONS = ['XML parsing ends in any of the ways the library has: a document, malformed, forbidden',
               'converting a timestamp to a date ends in a date, ValueError or OverflowError',
               'module names in the input that are not modules known to the check cannot be imported',
               'text that is not UTF-8 may be refused with UnicodeDecodeError, forbidden XML with the error of the XML library',
               'stack and memory exhaustion by deep nesting or huge lengths that are really present are outside the claim']
PRELOAD = ['pyamf.amf3', 'pyamf.flex', 'pyamf.flex.messaging', 'pyamf.flex.data', 'pyamf.xml', 'defusedxml.ElementTree']
A3 = 3


class Malformed(SyntaxError):
    pass


class Forbidden(ValueError):
    pass


def environment(s):
    """parsers of dates and XML end in any possible way"""
    def fromstring(data, **kw):
        k = s.choice('xml', 3)
        if k == 0:
            return object()
        raise [Malformed, Forbidden][k - 1]('x')

    def get_datetime(secs):
        k = s.choice('date', 4)
        if k == 0:
            return datetime.datetime(2001, 2, 3)
        if k == 1:
            return datetime.datetime(9999, 12, 31, 23)
        raise [ValueError, OverflowError][k - 2]('x')
    s.stub('pyamf.xml', {'fromstring': fromstring})
    s.stub('pyamf.util', {'get_datetime': get_datetime})


def attempt(s, data, strict=False, **kw):
    """decode every value; only documented refusals"""
    environment(s)
    d = pyamf.get_decoder(A3, data, strict=strict, **kw)
    out = []
    while not d.stream.at_eof():
        before = d.stream.tell()
        try:
            v = d.readElement()
        except (pyamf.DecodeError, pyamf.ReferenceError):
            return 'refused'
        except UnicodeDecodeError:
            return 'not text'
        except (IOError, pyamf.EOStream):
            s.check(d.stream.tell() == before, 'position not restored at the end of the data')
            return 'eof'
        except pyamf.UnknownClassAlias:
            s.check(strict, 'unknown class refused by a lenient decoder')
            return 'unknown class'
        except Forbidden:
            return 'forbidden XML'
        out.append(v)
        s.check(d.stream.tell() > before, 'a value of no bytes')
        s.check(d.stream.tell() <= len(data), 'read beyond the input')
    s.check(len(out) <= len(data), 'more values than bytes')
    return out


def summary(s, r):
    if s.is_(r, str):
        return r
    return [type(x).__name__ for x in r]


def t_any(s):
    """arbitrary bytes"""
    n = s.choice('n', s.quick and 5 or 9)
    data = s.bytes('data', n)
    s.observe('outcome', summary(s, attempt(s, data)))


def t_strict(s):
    """arbitrary bytes, strict decoder"""
    n = s.choice('n', s.quick and 5 or 7)
    data = s.bytes('data', n)
    s.observe('outcome', summary(s, attempt(s, data, True)))


HEADS = ['\x09\x05\x01', '\x09\x01', '\x09\x03', '\x09\x03\x03a', '\x0a\x0b\x01', '\x0a\x13\x01\x03a', '\x0a\x23\x03T\x03a\x03b', '\x0a\x07\x03T',
         '\x0a\x0b\x03U\x03a', '\x0a\x07\x03U', '\x0a\x0f\x01', '\x0a', '\x09\x05\x01\x06\x03a', '\x09\x05\x01\x0a\x0b\x01\x01', '\x09\x07\x01\x0c\x03',
         '\x0c', '\x0c\x05x\x9c', '\x08', '\x08\x01\x40\x00\x00\x00\x00', '\x07', '\x0b', '\x04', '\x05\x40\x00\x00\x00', '\x06',
         '\x09\x05\x01\x0b\x03a', '\x09\x05\x01\x08\x01\x40\x00\x00\x00\x00\x00\x00\x00', '\x09\x05\x01\x09\x01\x01']


def t_heads(s):
    """values begun in every way, arbitrary bytes after that"""
    pyamf.register_class(hx.Thing, 'T')
    try:
        head = s.choice('head', HEADS)
        n = s.choice('n', s.quick and 4 or 7)
        data = head + s.bytes('data', n)
        s.observe('outcome', summary(s, attempt(s, data, not s.quick and s.choice('strict', [False, True]))))
    finally:
        pyamf.unregister_class(hx.Thing)


def varint(n):
    # unsigned: the same bytes as those of the signed integer of the same 29 bits
    if n >= 2 ** 28:
        n -= 2 ** 29
    return amf3.encode_int(n)


def t_ref_object(s):
    """object references, seen and not seen, from every type that has them"""
    n = s.choice('n', 3)
    el = s.choice('el', ['\x09\x01\x01', '\x0a\x0b\x01\x01', '\x0c\x03a', '\x08\x01' + '\0' * 8, '\x0b\x01', '\x06\x03q'])
    tag = s.choice('tag', '\x07\x08\x09\x0a\x0b\x0c')
    r = s.int('ref', 0, 2 ** 28 - 1)
    counted = el[0] != '\x06' and n or 0
    data = '\x09' + chr(2 * n + 3) + '\x01' + el * n + tag + varint(r * 2)
    environment(s)
    d = pyamf.get_decoder(A3, data)
    try:
        v = d.readElement()
    except pyamf.ReferenceError:
        s.check(r > counted, 'known reference refused')
        return
    except (Forbidden, pyamf.DecodeError):
        s.check(el[0] == '\x0b' or el[0] == '\x08', 'refused')
        return
    s.check(r <= counted, 'reference to an object not seen')
    if r == 0:
        s.check(v[n] is v, 'reference to the array itself')
    else:
        s.check(v[n] is v[s.concrete(r) - 1], 'another object')


def t_ref_string(s):
    """string references, seen and not seen, wherever a string may be"""
    n = s.choice('n', 3)
    strs = ['p', 'qq', 'r'][:n]
    r = s.int('ref', 0, 2 ** 28 - 1)
    ref = varint(r * 2)
    where = s.choice('where', ['value', 'key', 'mixed', 'class', 'attr'])
    tail = {'value': '\x06' + ref, 'key': '\x0a\x0b\x01' + ref + '\x01\x01', 'mixed': '\x09\x01' + ref + '\x01\x01',
            'class': '\x0a\x03' + ref, 'attr': '\x0a\x13\x01' + ref + '\x01'}[where]
    data = '\x09' + chr(2 * n + 3) + '\x01' + ''.join(['\x06' + chr(2 * len(x) + 1) + x for x in strs]) + tail
    environment(s)
    d = pyamf.get_decoder(A3, data)
    try:
        v = d.readElement()
    except pyamf.ReferenceError:
        s.check(r >= n, 'known string refused')
        return
    s.check(r < n, 'reference to a string not seen')
    want = strs[s.concrete(r)]
    got = v[n]
    if where == 'value':
        s.check(got == want, 'another string')
    elif where == 'class':
        s.check(type(got) is pyamf.TypedObject and got.alias == want, 'another class')
    else:
        s.check(got.keys() == [want], 'another key')
    s.check(d.stream.at_eof(), 'bytes left')


def t_ref_class(s):
    """class references, seen and not seen"""
    n = s.choice('n', 3)
    pyamf.register_class(hx.Thing, 'T')
    try:
        r = s.int('ref', 0, 2 ** 27 - 1)
        defs = ['\x0a\x0b\x01\x01', '\x0a\x03\x03T', '\x0a\x13\x03U\x03a\x01'][:n]
        data = '\x09' + chr(2 * n + 3) + '\x01' + ''.join(defs) + '\x0a' + varint(r * 4 + 1) + '\x01\x01\x01'
        environment(s)
        d = pyamf.get_decoder(A3, data)
        try:
            v = d.readElement()
        except pyamf.ReferenceError:
            s.check(r >= n, 'known class refused')
            return
        s.check(r < n, 'reference to a class not seen')
        s.check(type(v[n]) is [pyamf.ASObject, hx.Thing, pyamf.TypedObject][s.concrete(r)], 'another class')
    finally:
        pyamf.unregister_class(hx.Thing)


class Slots(object):
    __slots__ = ['a']


class ReadOnly(object):
    @property
    def a(self):
        return 1


class NeedsArgs(object):
    def __init__(self, x):
        self.x = x


class OldNeedsArgs:
    def __init__(self, x):
        self.x = x


class OldOk:
    def __init__(self, x=1):
        self.x = x


class NewArgs(object):
    def __new__(cls, x):
        return object.__new__(cls)


class AnInt(int):
    pass


class AList(list):
    pass


class ADict(dict):
    pass


class AnError(Exception):
    pass


class Frozen(object):
    def __setattr__(self, k, v):
        raise TypeError('frozen')


class Items(object):
    def __setitem__(self, k, v):
        self.__dict__['got'] = (k, v)


def func():
    pass


NAMES = ['Slots', 'ReadOnly', 'NeedsArgs', 'OldNeedsArgs', 'OldOk', 'NewArgs', 'AnInt', 'AList', 'ADict', 'AnError', 'Frozen', 'Items',
         'func', 'missing', '', 'CONST']


def provide(s):
    s.provide('guestmod', {'Slots': Slots, 'ReadOnly': ReadOnly, 'NeedsArgs': NeedsArgs, 'OldNeedsArgs': OldNeedsArgs, 'OldOk': OldOk,
                           'NewArgs': NewArgs, 'AnInt': AnInt, 'AList': AList, 'ADict': ADict, 'AnError': AnError, 'Frozen': Frozen,
                           'Items': Items, 'func': func, 'CONST': 3})


def forget():
    for k in list(pyamf.CLASS_CACHE):
        if isinstance(k, (str, unicode)):
            if k.startswith('guestmod'):
                del pyamf.CLASS_CACHE[k]
        elif k.__module__ == Slots.__module__:
            del pyamf.CLASS_CACHE[k]


def pack(x):
    return chr(2 * len(x) + 1) + x


def t_class_names(s):
    """class names denoting importable things of every kind, with any attribute name"""
    provide(s)
    try:
        name = 'guestmod.' + s.choice('name', NAMES)
        key = s.choice('key', ['a', 'x', '__class__', '__dict__', '\xff'])
        val = s.choice('val', ['\x01', '\x06\x03q', '\x09\x01\x01', '\x0a\x0b\x01\x01'])
        enc = s.choice('encoding', 4)
        data = '\x0a' + {0: '\x13', 1: '\x07', 2: '\x0b', 3: '\x0f'}[enc] + pack(name)
        data += {0: pack(key) + val, 1: val, 2: pack(key) + val + '\x01', 3: val}[enc]
        strict = s.choice('strict', [False, True])
        s.observe('outcome', summary(s, attempt(s, data, strict)))
    finally:
        forget()


def t_module_names(s):
    """class names denoting modules, packages, nothing, and oddities"""
    name = s.choice('name', ['.', '..', '.a', 'a.', 'guestmod', 'guestmod.', 'guestmod..Slots', 'guestmod.Slots.a', '/', 'no.such', 'pyamf.', 'pyamf.zzz',
                             'pyamf.amf0.Decoder', 'pyamf.ASObject', 'pyamf.Undefined', '\xff', '\xc3\xa9.\xc3\xa9', 'flex.', 'flex.x',
                             'flex.messaging.io.Nope', 'flex.messaging.messages.Nope', 'flex.data.messages.X', ' ', '\x00', 'a\x00.b'])
    provide(s)
    try:
        data = '\x0a' + s.choice('flags', '\x03\x07\x0b') + pack(name) + '\x01\x01'
        s.observe('outcome', summary(s, attempt(s, data, s.choice('strict', [False, True]))))
    finally:
        forget()


def t_static(s):
    """a class with static attributes, which the input gives or does not give"""
    a = pyamf.ClassAlias(hx.Thing, 'T', static_attrs=['a'], dynamic=s.choice('dynamic', [False, True]))
    pyamf.CLASS_CACHE['T'] = pyamf.CLASS_CACHE[hx.Thing] = a
    try:
        n = s.choice('n', 2)
        key = s.bytes('key', 1)
        data = '\x0a\x0b\x03T' + ('\x03' + key + '\x01') * n + '\x01'
        r = attempt(s, data)
        s.check(r != 'refused' or n == 0 or key != 'a', 'complete object refused')
        s.observe('outcome', summary(s, r))
    finally:
        pyamf.unregister_class('T')


FLEX = ['flex.messaging.io.ArrayCollection', 'flex.messaging.io.ObjectProxy', 'DSK', 'DSC', 'flex.messaging.messages.AcknowledgeMessage',
        'flex.messaging.messages.ErrorMessage', 'flex.data.messages.DataMessage']


def t_flex(s):
    """Flex classes with arbitrary content, in every object encoding"""
    name = s.choice('name', FLEX)
    enc = s.choice('encoding', '\x07\x0b\x03\x0f')
    n = s.choice('n', s.quick and 3 or 5)
    data = '\x0a' + enc + pack(name) + s.bytes('data', n)
    s.observe('outcome', summary(s, attempt(s, data)))


def t_flex_values(s):
    """collections and messages holding a value of any type, or any flag bytes"""
    name = s.choice('name', FLEX)
    val = s.choice('val', ['\x01', '\x02', '\x04\x05', '\x06\x03q', '\x06\x01', '\x09\x01\x01', '\x09\x01\x03a\x01\x01', '\x0a\x0b\x01\x01', '\x0a\x0b\x01\x0dsource\x01\x01',
                           '\x0c\x03a', '\x0a\x00', '\x05' + '\0' * 8, '\x08\x01' + '\0' * 8])
    if name.startswith('flex.messaging.io'):
        data = '\x0a\x07' + pack(name) + val
    else:
        n = s.choice('flags', s.quick and 2 or 4)
        data = '\x0a\x07' + pack(name) + s.bytes('flag', n) + val * s.choice('vals', s.quick and 2 or 4)
    s.observe('outcome', summary(s, attempt(s, data)))


def t_timezone(s):
    """dates near the limits with a timezone offset"""
    data = '\x08\x01' + s.bytes('d', 8)
    r = attempt(s, data, timezone_offset=datetime.timedelta(hours=s.choice('h', [-3, 0, 3])))
    s.observe('outcome', summary(s, r))
