# C08: the AMF0 decoder on arbitrary bytes
import datetime
import pyamf
from pyamf import amf0, util, xml
import hx

BOUNDS = ('every input of up to 5 bytes (thorough: 8); every input of a container, reference, typed object or date head '
          'followed by up to 3 (thorough: 7) arbitrary bytes; strict and lenient decoders; class names denoting registered, '
          'importable, unsuitable and unknown classes')
ASSUMPTIONS = ['XML parsing ends in any of the ways the library has: a document, malformed, forbidden',
               'converting a timestamp to a date ends in a date, ValueError or OverflowError',
               'module names in the input that are not modules known to the check cannot be imported',
               'text that is not UTF-8 may be refused with UnicodeDecodeError, forbidden XML with the error of the XML library',
               'stack and memory exhaustion by deep nesting or huge lengths that are really present are outside the claim']
PRELOAD = ['pyamf.amf3', 'pyamf.xml', 'defusedxml.ElementTree']
A0 = 0


class Malformed(SyntaxError):
    pass


class Forbidden(ValueError):
    pass


def environment(s):
    """parsers of dates and XML end in any possible way"""
    def fromstring(data, **kw):
        k = s.choice('xml', 3)
        if k == 0:
            return object()
        raise [Malformed, Forbidden][k - 1]('x')

    def get_datetime(secs):
        k = s.choice('date', 4)
        if k == 0:
            return datetime.datetime(2001, 2, 3)
        if k == 1:
            return datetime.datetime(9999, 12, 31, 23)
        raise [ValueError, OverflowError][k - 2]('x')
    s.stub('pyamf.xml', {'fromstring': fromstring})
    s.stub('pyamf.util', {'get_datetime': get_datetime})


def attempt(s, data, strict=False, **kw):
    """decode every value; only documented refusals"""
    environment(s)
    d = pyamf.get_decoder(A0, data, strict=strict, **kw)
    out = []
    while not d.stream.at_eof():
        before = d.stream.tell()
        try:
            v = d.readElement()
        except (pyamf.DecodeError, pyamf.ReferenceError):
            return 'refused'
        except UnicodeDecodeError:
            return 'not text'
        except (IOError, pyamf.EOStream):
            s.check(d.stream.tell() == before, 'position not restored at the end of the data')
            return 'eof'
        except pyamf.UnknownClassAlias:
            s.check(strict, 'unknown class refused by a lenient decoder')
            return 'unknown class'
        except Forbidden:
            return 'forbidden XML'
        out.append(v)
        s.check(d.stream.tell() > before, 'a value of no bytes')
        s.check(d.stream.tell() <= len(data), 'read beyond the input')
    s.check(len(out) <= len(data), 'more values than bytes')
    return out


def summary(s, r):
    if s.is_(r, str):
        return r
    return [type(x).__name__ for x in r]


def t_any(s):
    """arbitrary bytes"""
    n = s.choice('n', s.quick and 6 or 9)
    data = s.bytes('data', n)
    s.observe('outcome', summary(s, attempt(s, data)))


def t_strict(s):
    """arbitrary bytes, strict decoder"""
    n = s.choice('n', s.quick and 5 or 7)
    data = s.bytes('data', n)
    s.observe('outcome', summary(s, attempt(s, data, True)))


HEADS = ['\x0a\x00\x00\x00\x02', '\x0a\x00\x00\x00\x01\x0a\x00\x00\x00\x01', '\x03\x00\x01a', '\x08\x00\x00\x00\x01\x00\x01b',
         '\x10\x00\x01T\x00\x01a', '\x10\x00\x01U\x00\x01a', '\x0c\x00\x00\x00', '\x0a\x00\x00\x00\x02\x07', '\x03\x00\x01a\x03\x00\x01b',
         '\x11', '\x11\x09\x05\x01', '\x11\x0a\x0b\x01', '\x0a\x00\x00\x00\x02\x11\x0a', '\x00\x40\x00\x00', '\x0b' + '\0' * 5,
         '\x0b' + '\x7f' + '\xf0' + '\0' * 5, '\x0f\x00\x00\x00']


def t_heads(s):
    """values begun in every way, arbitrary bytes after that"""
    pyamf.register_class(hx.Thing, 'T')
    try:
        head = s.choice('head', HEADS)
        n = s.choice('n', s.quick and 4 or 8)
        data = head + s.bytes('data', n)
        s.observe('outcome', summary(s, attempt(s, data, s.choice('strict', [False, True]))))
    finally:
        pyamf.unregister_class(hx.Thing)


def t_reference(s):
    """references to values seen and not seen"""
    if s.choice('bare', 2):
        data = s.choice('before', ['', '\x05', '\x02\x00\x01a', '\x02\x00\x00']) + '\x07' + s.bytes('ref', 2)
        d = pyamf.get_decoder(A0, data)
        while d.stream.tell() < len(data) - 3:
            d.readElement()
        try:
            v = d.readElement()
        except pyamf.ReferenceError:
            return
        s.fail('reference to a value not seen')
    n = s.choice('n', 3)
    data = '\x0a\x00\x00\x00' + chr(n + 1) + ('\x0a\x00\x00\x00\x00', '\x03\x00\x00\x09')[s.choice('kind', 2)] * n + '\x07' + s.bytes('ref', 2)
    d = pyamf.get_decoder(A0, data)
    ref = d.stream.getvalue()[-2:]
    idx = (ord(ref[0]) << 8) + ord(ref[1])
    try:
        v = d.readElement()
    except pyamf.ReferenceError:
        s.check(idx > n, 'known reference refused')
        return
    s.check(idx <= n, 'reference to a value not seen')
    if idx == 0:
        s.check(v[n] is v, 'reference to the list itself')
    else:
        s.check(v[n] is v[s.concrete(idx) - 1], 'another value')


class Slots(object):
    __slots__ = ['a']


class ReadOnly(object):
    @property
    def a(self):
        return 1


class NeedsArgs(object):
    def __init__(self, x):
        self.x = x


class OldNeedsArgs:
    def __init__(self, x):
        self.x = x


class OldOk:
    def __init__(self, x=1):
        self.x = x


class NewArgs(object):
    def __new__(cls, x):
        return object.__new__(cls)


class AnInt(int):
    pass


class AList(list):
    pass


class ADict(dict):
    pass


class AnError(Exception):
    pass


class Frozen(object):
    def __setattr__(self, k, v):
        raise TypeError('frozen')


class Items(object):
    def __setitem__(self, k, v):
        self.__dict__['got'] = (k, v)


def func():
    pass


NAMES = ['Slots', 'ReadOnly', 'NeedsArgs', 'OldNeedsArgs', 'OldOk', 'NewArgs', 'AnInt', 'AList', 'ADict', 'AnError', 'Frozen', 'Items',
         'func', 'missing', '', 'CONST']


def provide(s):
    s.provide('guestmod', {'Slots': Slots, 'ReadOnly': ReadOnly, 'NeedsArgs': NeedsArgs, 'OldNeedsArgs': OldNeedsArgs, 'OldOk': OldOk,
                           'NewArgs': NewArgs, 'AnInt': AnInt, 'AList': AList, 'ADict': ADict, 'AnError': AnError, 'Frozen': Frozen,
                           'Items': Items, 'func': func, 'CONST': 3})


def forget():
    for k in list(pyamf.CLASS_CACHE):
        if isinstance(k, (str, unicode)):
            if k.startswith('guestmod'):
                del pyamf.CLASS_CACHE[k]
        elif k.__module__ == Slots.__module__:
            del pyamf.CLASS_CACHE[k]


def t_class_names(s):
    """class names denoting importable things of every kind, with any attribute name"""
    provide(s)
    try:
        name = 'guestmod.' + s.choice('name', NAMES)
        key = s.choice('key', ['a', '', 'x', '__class__', '__dict__', '\xff'])
        val = s.choice('val', ['\x05', '\x02\x00\x01a', '\x0a\x00\x00\x00\x00', '\x03\x00\x00\x09'])
        data = '\x10' + chr(0) + chr(len(name)) + name + chr(0) + chr(len(key)) + key + val + '\x00\x00\x09'
        strict = s.choice('strict', [False, True])
        s.observe('outcome', summary(s, attempt(s, data, strict)))
    finally:
        forget()


def t_module_names(s):
    """class names denoting modules, packages, nothing, and oddities"""
    name = s.choice('name', ['.', '..', '.a', 'a.', 'guestmod', 'guestmod.', 'guestmod..Slots', 'guestmod.Slots.a', '/', 'no.such', 'pyamf.', 'pyamf.zzz',
                             'pyamf.amf0.Decoder', 'pyamf.ASObject', 'pyamf.Undefined', '\xff', '\xc3\xa9.\xc3\xa9', 'flex.', 'flex.x',
                             'flex.messaging.io.Nope', 'flex.messaging.messages.Nope', 'flex.data.messages.X', ' ', '\x00', 'a\x00.b'])
    provide(s)
    try:
        data = '\x10' + chr(0) + chr(len(name)) + name + '\x00\x00\x09'
        s.observe('outcome', summary(s, attempt(s, data, s.choice('strict', [False, True]))))
    finally:
        forget()


def t_static(s):
    """a class with static attributes, which the input gives or does not give"""
    a = pyamf.ClassAlias(hx.Thing, 'T', static_attrs=['a'], dynamic=s.choice('dynamic', [False, True]))
    pyamf.CLASS_CACHE['T'] = pyamf.CLASS_CACHE[hx.Thing] = a
    try:
        n = s.choice('n', 2)
        key = s.bytes('key', 1)
        data = '\x10\x00\x01T' + ('\x00\x01' + key + '\x05') * n + '\x00\x00\x09'
        r = attempt(s, data)
        s.check(r != 'refused' or n == 0 or key != 'a', 'complete object refused')
        s.observe('outcome', summary(s, r))
    finally:
        pyamf.unregister_class('T')


def t_timezone(s):
    """dates near the limits with a timezone offset"""
    data = '\x0b' + s.bytes('d', 8) + s.bytes('tz', 2)
    r = attempt(s, data, timezone_offset=datetime.timedelta(hours=s.choice('h', [-3, 0, 3])))
    s.observe('outcome', summary(s, r))
