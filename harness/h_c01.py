# C01: AMF3 variable-length integers
from pyamf import amf3, util
import pyamf

BOUNDS = ('one value: every integer in [-2^33, 2^33]; two calls: every pair in [-2^29, 2^30]; decoding: every 4-byte '
          'input; through Encoder/Decoder: every integer in [-2^40, 2^40]')
ASSUMPTIONS = ['StringIO, struct and chr/ord behave as modelled in engine/stubs.py (Jython semantics)']
LO = -0x10000000
HI = 0x0fffffff


def expected_len(n):
    """shortest form of the 29-bit pattern"""
    if n < 0:
        return 4
    if n < 0x80:
        return 1
    if n < 0x4000:
        return 2
    if n < 0x200000:
        return 3
    return 4


def roundtrip(s, n, tag):
    try:
        b = amf3.encode_int(n)
    except OverflowError:
        s.check(s.Or(n < LO, n > HI), tag + 'in-range integer refused')
        return None
    s.check(s.And(n >= LO, n <= HI), tag + 'out-of-range integer accepted')
    s.check(len(b) == expected_len(n), tag + 'not the shortest form')
    st = util.BufferedByteStream(b + '\x01')
    s.check(amf3.decode_int(st, True) == n, tag + 'decoded value differs')
    s.check(st.tell() == len(b), tag + 'decoder consumed other bytes')
    return b


def t_single(s):
    """encode_int then decode_int(signed) for one integer"""
    n = s.int('n', -2 ** 33, 2 ** 33)
    s.observe('b', roundtrip(s, n, ''))


def t_pair(s):
    """the second call is not affected by the first"""
    a = s.int('a', -2 ** 29, 2 ** 30)
    b = s.int('b', -2 ** 29, 2 ** 30)
    try:
        amf3.encode_int(a)
    except OverflowError:
        pass
    s.observe('b', roundtrip(s, b, 'after another call: '))


def t_thrice(s):
    """the same value encoded again, with another one between"""
    a = s.int('a', -2 ** 29, 2 ** 29)
    b = s.int('b', LO, HI)
    r1 = roundtrip(s, b, '')
    try:
        amf3.encode_int(a)
    except OverflowError:
        pass
    s.check(amf3.encode_int(b) == r1, 'second answer differs')


def t_unsigned(s):
    """lengths, references and flags (unsigned, all 29 bits)"""
    n = s.int('n', 0, 2 ** 29 - 1)
    if n > HI:
        st = util.BufferedByteStream(amf3.encode_int(n - 2 ** 29))
    else:
        st = util.BufferedByteStream(amf3.encode_int(n))
    s.check(amf3.decode_int(st) == n, 'unsigned value differs')
    s.check(st.remaining() == 0, 'bytes left')


def t_decode(s):
    """decode_int on any bytes: at most four are read, and the value is that of the specification"""
    b = s.bytes('b', 5)
    st = util.BufferedByteStream(b)
    v = amf3.decode_int(st, True)
    n = 0
    r = 0
    while n < 3:
        c = ord(b[n])
        r = (r << 7) | (c & 0x7f)
        n += 1
        if c < 0x80:
            break
    else:
        r = (r << 8) | ord(b[3])
        n = 4
    if r >= 0x10000000:
        r = r - 0x20000000
    s.check(st.tell() == n, 'wrong number of bytes consumed')
    s.check(v == r, 'wrong value')
    s.observe('v', v)


def t_short(s):
    """truncated integers raise IOError"""
    n = s.int('n', LO, HI)
    b = amf3.encode_int(n)
    k = s.choice('k', 4)
    s.assume(k < len(b))
    st = util.BufferedByteStream(b[:k])
    try:
        amf3.decode_int(st, True)
    except IOError:
        return
    s.fail('truncated integer decoded')


def t_codec(s):
    """integers through the AMF3 encoder and decoder keep their value, whatever their size"""
    n = s.int('n', -2 ** 40, 2 ** 40)
    data = pyamf.encode(n, encoding=pyamf.AMF3).getvalue()
    inside = s.And(n >= LO, n <= HI)
    if inside:
        s.check(data[0] == '\x04', 'integer marker')
    else:
        s.check(data[0] == '\x05', 'number marker')
    st = pyamf.decode(data, encoding=pyamf.AMF3)
    v = st.next()
    s.check(v == n, 'value differs')
    s.observe('v', v)
