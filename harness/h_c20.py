# C20: local shared object files survive saving and loading and bad ones are refused
import datetime
import struct
import pyamf
from pyamf import sol, util
import hx

BOUNDS = ('object names of up to 2 characters as text or bytes; up to 2 values with names of up to 1 character (quick; 2 thorough), of every '
          'scalar kind (numbers in the double range, text of up to 2 characters), lists, dictionaries, objects and shared references; all '
          'values of all header bytes at once, every truncation, every value of every terminator; AMF0 and AMF3')
ASSUMPTIONS = ['running out of data within a value may raise EOStream', 'an unknown AMF version raises ValueError',
               'opening a file for writing empties it']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3']
KINDS = ['none', 'undef', 'bool', 'small', 'int', 'float', 'uni0', 'uni1', 'uni2', 'str1']


def header(n, name, enc):
    size = 10 + 2 + len(name) + 4 + n
    return '\x00\xbf' + chr(size >> 24) + chr(size >> 16 & 255) + chr(size >> 8 & 255) + chr(size & 255) + \
        'TCSO\x00\x04\x00\x00\x00\x00' + chr(len(name) >> 8) + chr(len(name) & 255) + name + '\x00\x00\x00' + chr(enc)


def check_same(s, want, got):
    s.check(len(want) == len(got), 'number of values')
    for k in want:
        s.check(k in got and hx.equal(s, want[k], got[k]), 'value')


def t_names(s):
    """any name of the object, any name of a value: loaded back equal, the header as the format has it"""
    enc = s.choice('enc', [0, 3])
    name = s.uni_upto('name', s.quick and 1 or 2)
    k1 = s.uni_upto('k1', s.quick and 1 or 2)
    given = name
    if s.bool('bytes'):
        given, k1 = name.encode('utf-8'), k1.encode('utf-8')
    values = {k1: s.int('v', 1000000, 1001000)}
    k2 = s.choice('k2', [None, 'zz'])
    if k2:
        values[k2] = True
    data = sol.encode(given, values, encoding=enc).getvalue()
    n = name.encode('utf-8')
    s.check(data[:22 + len(n)] == header(len(data) - 22 - len(n), n, enc), 'header')
    s.check(data[-1] == '\x00', 'terminator')
    got, back = sol.decode(data)
    s.check(got == name, 'name')
    check_same(s, dict([(s.is_(k, str) and k.decode('utf-8') or k, values[k]) for k in values]), back)


def t_scalars(s):
    """any two values: loaded back equal"""
    enc = s.choice('enc', [0, 3])
    values = {'a': hx.scalar(s, 'v1', KINDS), u'b': hx.scalar(s, 'v2', s.quick and ['none', 'small', 'uni1'] or KINDS)}
    strict = s.bool('strict')
    data = sol.encode(u'n', values, strict=strict, encoding=enc).getvalue()
    s.check(data[:23] == header(strict and len(data) - 23 or -17, 'n', enc), 'header')
    name, back = sol.decode(data, strict=strict)
    s.check(name == u'n', 'name')
    check_same(s, values, back)


def t_values(s):
    """containers, objects, and things shared between values"""
    enc = s.choice('enc', [0, 3])
    pyamf.register_class(hx.Thing, 'thing')
    x = s.int('x', 1000000, 1001000)
    t = s.uni('t', 1)
    o = hx.Thing()
    o.x, o.t = x, t
    shared = [x, {'k': t}]
    values = {'list': [x, t, None], 'dict': {'x': x, 'l': [t]}, 'object': o, 'shared': shared, 'shared2': [shared, o],
              't': t, 'text': u'text', 'name': u'list', 'date': datetime.datetime(2010, 1, 2, 3, 4, 5), 'empty': {}, 'none': []}
    which = s.choice('which', [('list', 'name', 't'), ('dict', 'text', 'none'), ('object', 'shared', 'shared2'),
                               ('date', 'empty', 't', 'none'), ('shared', 'shared2', 'object', 'name', 'list')])
    for k in values.keys():
        if k not in which:
            del values[k]
    name, back = sol.decode(sol.encode(u'n', values, encoding=enc))
    check_same(s, values, back)
    if 'shared2' in back:
        s.check(back['shared2'][0] is back['shared'] and back['shared2'][1] is back['object'], 'identity')


def t_header(s):
    """all header bytes at once: accepted only if they are exactly those of the format"""
    enc = s.choice('enc', [0, 3])
    strict = s.bool('strict')
    body = s.choice('values', s.quick and [''] or ['', enc and '\x03a\x04\x05\x00' or '\x00\x01a\x01\x01\x00'])
    head = s.bytes('head', 22)
    try:
        got, values = sol.decode(head + body, strict=strict)
    except (pyamf.BaseError, UnicodeDecodeError):
        s.stop()
    except ValueError:
        s.stop()
    s.check(head[:2] == '\x00\xbf', 'version')
    if strict:
        n = 16 + len(body)
        s.check(head[2:6] == '\x00\x00\x00' + chr(n), 'length')
    s.check(head[6:16] == 'TCSO\x00\x04\x00\x00\x00\x00', 'signature')
    n = ord(head[16]) * 256 + ord(head[17])
    s.check(n <= 4 + len(body), 'name length')
    for i in range(3):
        s.check((head + body)[18 + n + i] == '\x00', 'padding')
    s.reached('accepted')


def t_one_byte(s):
    """any one byte of the header changed: refused, or exactly the name or version it says"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    data = sol.encode(u'nm', {'a': x}, encoding=enc).getvalue()
    i = s.choice('position', 24)
    b = s.int('b', 0, 255)
    s.assume(chr(b) != data[i])
    bad = data[:i] + chr(b) + data[i + 1:]
    try:
        name, values = sol.decode(bad)
    except (pyamf.BaseError, UnicodeDecodeError):
        s.check(i not in (18, 19) or b > 127, 'refused')
        s.stop()
    except ValueError:
        s.check(i in (16, 17) or i == 23 and b != 0 and b != 3, 'unknown version')
        s.stop()
    s.check(i in (18, 19, 23), 'accepted')
    if i != 23:
        s.check(name[i - 18] == unichr(b) and name[19 - i] == u'nm'[19 - i], 'name')
        check_same(s, {'a': x}, values)


def t_truncated(s):
    """every truncation is refused, and so is anything that follows"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    data = sol.encode(u'n', {'a': x, 'b': u'text'}, encoding=enc).getvalue()
    n = s.choice('cut', len(data))
    strict = s.bool('strict')
    try:
        name, values = sol.decode(data[:n], strict=strict)
    except (pyamf.DecodeError, pyamf.EOStream):
        pass
    else:
        s.check(not strict and n >= 23, 'accepted')
        s.check(len(values) < 2, 'values')
        for k in values:
            s.check(hx.equal(s, {'a': x, 'b': u'text'}[k], values[k]), 'value')
    extra = s.bytes_upto('extra', 2, least=1)
    try:
        sol.decode(data + extra)
    except pyamf.DecodeError:
        pass
    else:
        s.fail('data after the end accepted')


def t_rest(s):
    """an entry cut short, or bytes after the last one, in a file whose header says that length: refused"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    strict = s.bool('strict')
    data = sol.encode(u'n', {'a': x}, encoding=enc).getvalue()
    empty = len(sol.encode(u'n', {}, encoding=enc).getvalue())
    if s.bool('cut'):
        n = s.choice('at', range(empty + 1, len(data)))
        bad = data[:n]
    else:
        # no entry is as short as that (or its name is longer than the file)
        n = s.choice('more', enc == 0 and [1, 2, 3, 4] or [1, 2])
        rest = s.bytes('rest', n)
        if n == 4:
            s.assume(rest[0] != '\0')
        bad = data + rest
    bad = bad[:2] + struct.pack('>L', len(bad) - 6) + bad[6:]
    try:
        sol.decode(bad, strict=strict)
    except (pyamf.BaseError, UnicodeDecodeError):
        pass
    else:
        s.fail('accepted')
    s.reached('refused')


def t_terminator(s):
    """every value has its terminator"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    n = s.choice('values', [1, 2, 3])
    data = sol.encode(u'n', {'a': x}, encoding=enc).getvalue()
    entry = data[23:-1]
    bad = s.choice('bad', n)
    b = s.int('b', 1, 255)
    body = ''
    for i in range(n):
        body += entry[:enc == 3 and 1 or 2] + 'abc'[i] + entry[enc == 3 and 2 or 3:] + (i == bad and chr(b) or '\x00')
    strict = s.bool('strict')
    try:
        sol.decode(header(len(body), 'n', enc) + body, strict=strict)
    except pyamf.DecodeError:
        s.reached('refused')
    else:
        s.fail('accepted')


class File(object):
    def __init__(self, data=''):
        self.data, self.closed, self.pos = data, False, 0

    def read(self, *n):
        assert not self.closed
        return self.data

    def write(self, d):
        assert not self.closed
        self.data += d

    def flush(self):
        assert not self.closed

    def __enter__(self):
        assert not self.closed
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True


def t_files(s):
    """saved and loaded by path or open file; files opened are closed, others are not"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    name = s.uni_upto('name', 1)
    disk, opened = {'/old': File('old')}, []

    def fake_open(path, mode='r'):
        if 'w' in mode:
            disk[path] = File()
        elif path not in disk:
            raise IOError(path)
        else:
            disk[path] = File(disk[path].data)
        s.check('b' in mode, 'binary')
        opened.append(disk[path])
        return disk[path]
    s.stub('pyamf.sol', {'open': fake_open, 'file': fake_open})
    o = s.choice('class', [sol.SOL, sol.LSO])(name)
    o['v'], o[u'w'] = x, [x, u'text']
    path = s.choice('path', ['/old', u'/new', None])
    f = path or File()
    how = s.choice('how', ['method', 'function'])
    if how == 'method':
        o.save(f, encoding=enc)
    else:
        sol.save(o, f, encoding=enc)
    s.check(len(opened) == (path and 1 or 0), 'opened')
    if path:
        s.check(opened[0].closed, 'closed')
        back = sol.load(path)
        s.check(len(opened) == 2 and opened[1].closed, 'closed')
    else:
        s.check(not f.closed, 'not closed')
        back = sol.load(f)
        s.check(not f.closed, 'not closed')
    s.check(type(back) is sol.SOL and back.name == name, 'name')
    check_same(s, o, back)


class Bad(object):
    def __init__(self):
        pass

    __amf__ = {'external': True}


def t_failures(s):
    """a save that fails leaves the file as it was, and no file is left open"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    good = sol.encode(u'n', {'a': x}, encoding=enc).getvalue()
    disk, opened = {'/f': File(good)}, []

    def fake_open(path, mode='r'):
        if 'w' in mode:
            disk[path] = File()
        else:
            disk[path] = File(disk[path].data)
        opened.append(disk[path])
        return disk[path]
    s.stub('pyamf.sol', {'open': fake_open, 'file': fake_open})
    o = sol.SOL(u'n')
    what = s.choice('what', ['function', 'name', 'long name', 'load'])
    o['a'] = x
    if what == 'function':
        o['b'] = fake_open
    elif what == 'name':
        o.name = None
    elif what == 'long name':
        o.name = u'n' * 65536
    else:
        disk['/f'].data = good[:-1]
    try:
        if what == 'load':
            sol.load('/f')
        else:
            sol.save(o, '/f', encoding=enc)
    except Exception:
        pass
    else:
        s.fail('no error')
    for f in opened:
        s.check(f.closed, 'left open')
    if what != 'load':
        name, values = sol.decode(disk['/f'].data)
        s.check(name == u'n' and hx.equal(s, x, values['a']), 'file destroyed')


def t_streams(s):
    """decoding from text of bytes, a stream, or a file object; a stream is taken from where it is"""
    enc = s.choice('enc', [0, 3])
    x = s.int('x', 1000000, 1001000)
    strict = s.bool('strict')
    out = sol.encode(u'n', {'a': x}, strict=strict, encoding=enc)
    s.check(out.tell() == 0, 'position')
    data = out.getvalue()
    s.check(strict or data[2:6] == '\x00\x00\x00\x00', 'length not given')
    form = s.choice('form', ['bytes', 'stream', 'position'])
    if form == 'stream':
        data = util.BufferedByteStream(data)
    elif form == 'position':
        data = util.BufferedByteStream('skip' + data)
        data.seek(4)
    name, values = sol.decode(data, strict=strict)
    s.check(name == u'n', 'name')
    check_same(s, {'a': x}, values)
    for f in (5, None, object()):
        for g in (lambda: sol.load(f), lambda: sol.save(sol.SOL(u'n'), f)):
            try:
                g()
            except ValueError:
                continue
            s.fail('not a file')
