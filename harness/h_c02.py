# C02: typed stream reads and writes
import struct
from pyamf import util

BOUNDS = ('integers: every value within twice the range of each width; doubles: all 2^64 patterns; floats: all 2^32 '
          'patterns; strings: every text of up to 3 code points; the four byte order settings; streams of up to 2 bytes '
          'before and after the datum; short reads at every length below the width')
ASSUMPTIONS = ['native byte order is big endian, as under Jython',
               'struct.pack/unpack behave as modelled in engine/stubs.py (no range check, NaNs made canonical)']

INTS = [('uchar', 1, False), ('char', 1, True), ('ushort', 2, False), ('short', 2, True), ('24bit_uint', 3, False),
        ('24bit_int', 3, True), ('ulong', 4, False), ('long', 4, True)]
ORDERS = ['!', '>', '<', '@']
KINDS = INTS + [('double', 8, None), ('float', 4, None)]


def mk(s, pre, order):
    st = util.BufferedByteStream(pre)
    st.endian = order
    st.seek(0, 2)
    return st


def t_int(s):
    """every integer: on the wire in the right order and size, read back equal; refused without effect otherwise"""
    name, size, signed = s.choice('kind', INTS)
    order = s.choice('order', ORDERS)
    bits = 8 * size
    lo, hi = 0, (1 << bits) - 1
    if signed:
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    n = s.int('n', 2 * lo - 3, 2 * hi + 3)
    if signed is False:
        n = n - s.choice('neg', [0, 5])
    pre = s.bytes_upto('pre', 2)
    st = mk(s, pre, order)
    try:
        getattr(st, 'write_' + name)(n)
    except OverflowError:
        s.check(s.Or(n < lo, n > hi), 'value in range refused')
        s.check(st.getvalue() == pre, 'refused value changed the stream')
        s.check(st.tell() == len(pre), 'refused value moved the position')
        return
    s.check(s.And(n >= lo, n <= hi), 'value out of range accepted')
    out = st.getvalue()
    s.check(len(out) == len(pre) + size, 'wrong size')
    s.check(st.tell() == len(out), 'position after write')
    s.check(out[:len(pre)] == pre, 'earlier bytes changed')
    w = out[len(pre):]
    if order == '<':
        w = w[::-1]
    v = 0
    for c in w:
        v = (v << 8) | ord(c)
    s.check(s.Or(v == n, v == n + (1 << bits)), 'wrong bytes on the wire')
    st.write('\x5a')
    st.seek(len(pre))
    r = getattr(st, 'read_' + name)()
    s.check(r == n, 'read back differs')
    s.check(st.tell() == len(pre) + size, 'position after read')
    s.check(st.read() == '\x5a', 'following byte lost')
    s.observe('wire', out)


def t_read(s):
    """every pattern of bytes reads as the number it denotes"""
    name, size, signed = s.choice('kind', INTS)
    order = s.choice('order', ORDERS)
    b = s.bytes('b', size)
    st = util.BufferedByteStream('x' + b + 'y')
    st.endian = order
    st.seek(1)
    v = getattr(st, 'read_' + name)()
    w = b
    if order == '<':
        w = b[::-1]
    n = 0
    for c in w:
        n = (n << 8) | ord(c)
    if signed:
        n = s.If(n >= 1 << (8 * size - 1), n - (1 << (8 * size)), n)
    s.check(v == n, 'wrong number')
    s.check(st.tell() == 1 + size, 'position')
    s.observe('v', v)


def t_order_stays(s):
    """the byte order is a setting of one stream, and can be changed between operations"""
    name, size, signed = s.choice('kind', INTS)
    o1 = s.choice('o1', ORDERS)
    o2 = s.choice('o2', ORDERS)
    n = s.int('n', 0, (1 << (8 * size - 1)) - 1)
    a = util.BufferedByteStream()
    b = util.BufferedByteStream()
    a.endian = o1
    getattr(a, 'write_' + name)(n)
    getattr(b, 'write_' + name)(n)
    a.endian = o2
    getattr(a, 'write_' + name)(n)
    a.seek(0)
    b.seek(0)
    a.endian = o1
    s.check(getattr(a, 'read_' + name)() == n, 'first order')
    a.endian = o2
    s.check(getattr(a, 'read_' + name)() == n, 'second order')
    s.check(getattr(b, 'read_' + name)() == n, 'default order')
    x, y = a.getvalue()[:size], a.getvalue()[size:]
    if (o1 == '<') == (o2 == '<'):
        s.check(x == y, 'same order, same bytes')
    else:
        s.check(x == y[::-1], 'other order, reversed bytes')
    s.check(b.getvalue() == (x[::-1] if o1 == '<' else x), 'the default is network order')


def t_double(s):
    """every double bit pattern"""
    order = s.choice('order', ORDERS)
    f = s.float('f')
    pre = s.bytes_upto('pre', 1)
    st = mk(s, pre, order)
    st.write_double(f)
    o = order
    if o == '@':
        o = '>'
    out = st.getvalue()
    s.check(out == pre + struct.pack(o + 'd', f), 'wire')
    st.write('z')
    st.seek(len(pre))
    s.check(s.same(st.read_double(), f), 'double differs')
    s.check(st.tell() == len(pre) + 8, 'position')
    s.observe('out', out)


def t_float(s):
    """every single precision pattern (not NaN) is read and written back unchanged"""
    order = s.choice('order', ORDERS)
    b = s.bytes('b', 4)
    w = b
    if order == '<':
        w = b[::-1]
    s.assume(s.Not(s.And((ord(w[0]) & 0x7f) == 0x7f, ord(w[1]) >= 0x80)))
    st = util.BufferedByteStream(b)
    st.endian = order
    f = st.read_float()
    s.check(st.tell() == 4, 'position')
    o = util.BufferedByteStream()
    o.endian = order
    o.write_float(f)
    s.check(o.getvalue() == b, 'bytes differ')


def t_short(s):
    """a read of more than is left raises IOError and moves nothing"""
    name, size, signed = s.choice('kind', KINDS)
    order = s.choice('order', ['!', '<'])
    pos = s.choice('pos', 3)
    k = s.choice('k', size)
    b = s.bytes('b', pos + k)
    st = util.BufferedByteStream(b)
    st.endian = order
    st.seek(pos)
    try:
        getattr(st, 'read_' + name)()
    except IOError:
        s.check(st.tell() == pos, 'position moved')
        s.check(st.getvalue() == b, 'content changed')
        return
    s.fail('read beyond the end')


def t_short_string(s):
    """reading more text than is left raises IOError and moves nothing"""
    pos = s.choice('pos', 2)
    k = s.choice('k', 3)
    n = s.choice('n', [1, 2, 3, 40])
    b = s.bytes('b', pos + k)
    s.assume(n > k)
    st = util.BufferedByteStream(b)
    st.seek(pos)
    for f in (st.read_utf8_string, st.read):
        try:
            f(n)
        except IOError:
            s.check(st.tell() == pos, 'position moved')
            continue
        s.fail('read beyond the end')


def t_types(s):
    """values of another type are refused with TypeError and leave the stream unchanged"""
    name, size, signed = s.choice('kind', KINDS)
    if signed is None:
        v = s.choice('v', [1, 2 ** 40, None, '\x00\x00\x00\x00', u'1', True, [], object()])
    else:
        v = s.choice('v', [1.0, None, '\x00\x00\x00\x00', u'1', True, [], object()])
    pre = s.bytes('pre', 1)
    st = mk(s, pre, '!')
    try:
        getattr(st, 'write_' + name)(v)
    except TypeError:
        s.check(st.getvalue() == pre, 'content changed')
        s.check(st.tell() == 1, 'position moved')
        return
    s.fail('accepted')


def t_string_types(s):
    """text of another type is refused with TypeError"""
    v = s.choice('v', [1.0, None, 3, True, [], object(), ('a',)])
    st = mk(s, 'a', '!')
    try:
        st.write_utf8_string(v)
    except TypeError:
        s.check(st.getvalue() == 'a', 'content changed')
        return
    s.fail('accepted')


def t_utf8(s):
    """text is written as UTF-8 and read back equal"""
    order = s.choice('order', ['!', '<'])
    u = s.uni_upto('u', 3)
    pre = s.bytes_upto('pre', 1)
    st = mk(s, pre, order)
    st.write_utf8_string(u)
    e = u.encode('utf-8')
    s.check(st.getvalue() == pre + e, 'wire')
    s.check(st.tell() == len(pre) + len(e), 'position after write')
    st.write('q')
    st.seek(len(pre))
    r = st.read_utf8_string(len(e))
    s.check(s.same(r, u), 'text differs')
    s.check(st.tell() == len(pre) + len(e), 'position after read')
    s.observe('e', e)


def t_utf8_bytes(s):
    """byte strings are written as they are"""
    b = s.bytes_upto('b', 3)
    st = mk(s, 'k', '!')
    st.write_utf8_string(b)
    s.check(st.getvalue() == 'k' + b, 'wire')
    st.seek(1)
    try:
        r = st.read_utf8_string(len(b))
    except UnicodeDecodeError:
        try:
            b.decode('utf-8')
        except UnicodeDecodeError:
            return
        s.fail('valid text refused')
    s.check(s.same(r, b.decode('utf-8')), 'text differs')


def t_sequence(s):
    """three data of any kinds one after another"""
    order = s.choice('order', ['!', '<'])
    st = util.BufferedByteStream()
    st.endian = order
    vals = []
    for i in range(3):
        name, size, signed = s.choice('kind%d' % i, INTS)
        lo, hi = 0, (1 << 8 * size) - 1
        if signed:
            lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
        n = s.int('n%d' % i, lo, hi)
        getattr(st, 'write_' + name)(n)
        vals.append((name, n))
    st.seek(0)
    for name, n in vals:
        s.check(getattr(st, 'read_' + name)() == n, 'differs')
    s.check(st.at_eof(), 'bytes left')
