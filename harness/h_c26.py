# C26: what an externalised object or a byte array writes is what it reads
import pyamf
from pyamf import amf3, util
import hx

BOUNDS = ('sequences of 2 (thorough: 3) writes of any of 12 kinds with every value a kind accepts or refuses (integers within twice the range, all '
          'doubles and floats, text of up to 2 characters, any Unicode, three character sets), on a byte array, on an encoder and within an '
          'externalised object; objects of externalised classes nested, shared, cyclic, in AMF0 and AMF3, with 2 values around them')
ASSUMPTIONS = ['a byte that is neither 0 nor 1 is refused as boolean or taken for true (the documentation says both)',
               'native byte order is not used by byte arrays']
PRELOAD = ['pyamf.amf3']
INTS = {'Byte': (1, True), 'UnsignedByte': (1, False), 'Short': (2, True), 'UnsignedShort': (2, False), 'Int': (4, True), 'UnsignedInt': (4, False)}
CHARSETS = ['utf-8', 'iso-8859-1', 'ascii']


def bounds(size, signed):
    if signed:
        return -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
    return 0, (1 << (8 * size)) - 1


def number(w):
    n = 0
    for c in w:
        n = (n << 8) | ord(c)
    return n


def t_int(s):
    """integers: big endian, of the documented size, refused without effect when out of range"""
    kind = s.choice('kind', sorted(INTS))
    size, signed = INTS[kind]
    lo, hi = bounds(size, signed)
    n = s.int('n', 2 * lo - 3, 2 * hi + 3)
    if not signed:
        n = n - s.choice('neg', [0, 5])
    pre = s.bytes_upto('pre', 1)
    ba = amf3.ByteArray(pre)
    ba.seek(0, 2)
    try:
        getattr(ba, 'write' + kind)(n)
    except OverflowError:
        s.check(s.Or(n < lo, n > hi), 'value in range refused')
        s.check(ba.getvalue() == pre and ba.tell() == len(pre), 'refused value had an effect')
        return
    s.check(s.And(n >= lo, n <= hi), 'value out of range accepted')
    out = ba.getvalue()
    s.check(len(out) == len(pre) + size, 'size')
    s.check(out[:len(pre)] == pre, 'earlier bytes')
    v = number(out[len(pre):])
    s.check(s.Or(v == n, v == n + (1 << 8 * size)), 'bytes')
    ba.seek(len(pre))
    s.check(getattr(ba, 'read' + kind)() == n, 'read back')
    s.check(ba.at_eof(), 'position')


def t_read(s):
    """every pattern of bytes is the number it denotes; too few are refused and nothing is consumed"""
    kind = s.choice('kind', sorted(INTS) + ['Boolean'])
    size, signed = INTS.get(kind, (1, False))
    b = s.bytes('b', s.choice('short', 2) and s.choice('n', size) or size)
    ba = amf3.ByteArray('x' + b)
    ba.seek(1)
    try:
        v = getattr(ba, 'read' + kind)()
    except IOError:
        s.check(len(b) < size, 'complete number refused')
        s.check(ba.tell() == 1, 'position')
        return
    except ValueError:
        s.check(kind == 'Boolean' and b != '\0' and b != '\1', 'refused')
        return
    s.check(len(b) == size, 'number of too few bytes')
    n = number(b)
    if kind == 'Boolean':
        s.check(v is (n != 0), 'boolean')
        return
    if signed and n >= 1 << (8 * size - 1):
        n = n - (1 << 8 * size)
    s.check(v == n, 'number')
    s.check(ba.at_eof(), 'position')


def t_floats(s):
    """numbers with a fraction"""
    kind = s.choice('kind', ['Double', 'Float'])
    x = s.float('x')
    ba = amf3.ByteArray()
    getattr(ba, 'write' + kind)(x)
    s.check(len(ba) == (kind == 'Double' and 8 or 4), 'size')
    ref = util.BufferedByteStream()
    getattr(ref, 'write_' + kind.lower())(x)
    s.check(ba.getvalue() == ref.getvalue(), 'bytes')
    ba.seek(0)
    y = getattr(ba, 'read' + kind)()
    if kind == 'Double':
        s.check(hx.num_same(s, x, y), 'read back')
    else:
        again = amf3.ByteArray()
        again.writeFloat(y)
        s.check(again.getvalue() == ba.getvalue(), 'read back')
    s.check(ba.at_eof(), 'position')


def t_text(s):
    """text with a length, without, and in other character sets"""
    x = s.uni_upto('x', s.quick and 2 or 3)
    how = s.choice('how', ['UTF', 'UTFBytes', 'bytes UTF', 'bytes UTFBytes', 'MultiByte', 'bytes MultiByte'])
    u = x.encode('utf-8')
    ba = amf3.ByteArray()
    ba.write('>')
    if how.endswith('MultiByte'):
        c = s.choice('charset', how == 'MultiByte' and CHARSETS or CHARSETS[:2])
        try:
            u = x.encode(c)
        except UnicodeError:
            try:
                ba.writeMultiByte(x, c)
            except UnicodeError:
                s.check(ba.getvalue() == '>', 'refused text had an effect')
                return
            s.fail('text outside the character set accepted')
        ba.writeMultiByte(how == 'MultiByte' and x or u, c)
    elif how[:5] == 'bytes':
        getattr(ba, 'write' + how[6:])(u)
    else:
        getattr(ba, 'write' + how)(x)
    ba.write('<')
    out = ba.getvalue()
    if how.endswith('UTF'):
        s.check(out == '>' + chr(0) + chr(len(u)) + u + '<', 'bytes')
    else:
        s.check(out == '>' + u + '<', 'bytes')
    ba.seek(1)
    if how.endswith('UTF'):
        y = ba.readUTF()
    elif how.endswith('UTFBytes'):
        y = ba.readUTFBytes(len(u))
    else:
        y = ba.readMultiByte(len(u), c)
    s.check(s.is_(y, unicode) and s.same(x, y), 'read back')
    s.check(ba.read() == '<', 'position')


def t_long_text(s):
    """texts as long as a length can say, and longer ones"""
    n = s.choice('n', [254, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001])
    c = s.uni('c', 1)
    k = len(c.encode('utf-8'))
    x = u'a' * (n - k) + c
    ba = amf3.ByteArray()
    try:
        ba.writeUTF(x)
    except OverflowError:
        s.check(n > 0xffff, 'refused')
        s.check(len(ba) == 0, 'refused text had an effect')
        return
    s.check(n <= 0xffff, 'accepted')
    s.check(len(ba) == n + 2, 'size')
    ba.seek(0)
    s.check(s.same(ba.readUTF(), x), 'read back')
    s.check(ba.at_eof(), 'position')


def t_boolean(s):
    """truth values, nothing else"""
    ba = amf3.ByteArray()
    v = s.choice('v', [True, False, 0, 1, None, 'x', 2.0])
    try:
        ba.writeBoolean(v)
    except ValueError:
        s.check(type(v) is not bool, 'refused')
        s.check(len(ba) == 0, 'refused value had an effect')
        return
    s.check(type(v) is bool and ba.getvalue() == (v and '\1' or '\0'), 'byte')
    ba.seek(0)
    s.check(ba.readBoolean() is v, 'read back')


KINDS = ['Boolean', 'Byte', 'UnsignedShort', 'Int', 'Double', 'UTF', 'UTFBytes', 'MultiByte', 'Object', 'Shared', 'Self', 'raw']


class Ext(object):
    """writes what it is told to, and reads the same"""

    class __amf__:
        external = True
        alias = 'c26.Ext'

    def __writeamf__(self, out):
        for k, v in self.plan:
            put(out, k, v, self)

    def __readamf__(self, inp):
        self.got = [get(inp, k, v) for k, v in PLAN]


PLAN = []


def put(out, k, v, me):
    if k == 'MultiByte':
        out.writeMultiByte(v, 'iso-8859-1')
    elif k == 'raw':
        out.stream.write(v)
    elif k == 'Shared':
        out.writeObject(v)
    elif k == 'Self':
        out.writeObject(me)
    else:
        getattr(out, 'write' + k)(v)


def get(inp, k, v):
    if k == 'MultiByte':
        return inp.readMultiByte(len(v), 'iso-8859-1')
    if k == 'UTFBytes':
        return inp.readUTFBytes(len(v.encode('utf-8')))
    if k == 'raw':
        return inp.stream.read(len(v))
    if k in ('Shared', 'Self'):
        return inp.readObject()
    return getattr(inp, 'read' + k)()


def value(s, name, kind, shared):
    if kind == 'Boolean':
        return s.bool(name)
    if kind == 'Double':
        return s.choice(name, [0.5, -1e300, 0.0])
    if kind in INTS:
        return s.int(name, *bounds(*INTS[kind]))
    if kind == 'raw':
        return s.bytes(name, 1)
    if kind == 'MultiByte':
        return s.uni(name, 1, 0xff)
    if kind in ('UTF', 'UTFBytes'):
        return s.uni(name, 1, 0x7ff)
    if kind == 'Object':
        return [s.int(name, 1000000, 1001000), u'txt']
    return shared


def verify(s, plan, got, o, shared):
    s.check(len(got) == len(plan), 'number of values')
    for i in range(len(plan)):
        k, v = plan[i]
        if k == 'Self':
            s.check(got[i] is o, 'the object itself')
        elif k == 'Shared':
            s.check(got[i] is shared, 'shared object')
        elif k == 'Object':
            s.check(hx.equal(s, v, got[i]), 'object')
        else:
            s.check(type(got[i]) is type(v) and s.same(got[i], v) or s.is_(v, (int, long)) and got[i] == v, 'value of kind ' + k)


def t_external(s):
    """externalised objects among other values"""
    pyamf.register_class(Ext)
    try:
        shared = [u'txt', s.int('sh', 1000000, 1001000)]
        del PLAN[:]
        for i in range(s.quick and 2 or 3):
            k = s.choice('k%d' % i, KINDS)
            PLAN.append((k, value(s, 'v%d' % i, k, shared)))
        o = Ext()
        o.plan = PLAN
        amf0 = s.choice('amf0', 2)
        v = [shared, o, u'txt', o, shared, u'after']
        if amf0:
            v = [[o, shared, u'txt'], o, u'after']
        e = pyamf.get_encoder([3, 0][amf0], **(amf0 and {'use_amf3': True} or {}))
        for x in v:
            e.writeElement(x)
        r = hx.decode_all(e.stream.getvalue(), [3, 0][amf0])
        s.check(len(r) == len(v), 'number of values')
        if amf0:
            a, sh = r[0][0], r[0][1]
            s.check(hx.equal(s, shared, sh) and r[0][2] == u'txt', 'values around')
        else:
            a, sh = r[1], r[0]
            s.check(hx.equal(s, shared, sh) and r[2] == u'txt' and r[3] is a and r[4] is sh, 'values around')
        s.check(r[-1] == u'after', 'value after')
        s.check(type(a) is Ext, 'class')
        verify(s, PLAN, a.got, a, sh)
    finally:
        pyamf.unregister_class(Ext)


def t_bytearray(s):
    """byte arrays read what was written to them, with a place for each value"""
    shared = [u'txt']
    del PLAN[:]
    for i in range(s.quick and 2 or 3):
        k = s.choice('k%d' % i, [x for x in KINDS if x not in ('Self', 'Shared', 'raw')])
        PLAN.append((k, value(s, 'v%d' % i, k, shared)))
    ba = amf3.ByteArray()
    for k, v in PLAN:
        put(ba, k, v, None)
    way = s.choice('way', ['same', 'copy', 'wire'])
    if way == 'same':
        ba.seek(0)
    elif way == 'copy':
        ba = amf3.ByteArray(ba.getvalue())
        if ba.compressed:
            s.stop()
    else:
        b = ba.getvalue()
        if b[:2] == '\x78\x9c':
            s.stop()
        ba = hx.decode_one(s, hx.encode(ba, 3), 3)
        s.check(ba.getvalue() == b, 'content')
    verify(s, PLAN, [get(ba, k, v) for k, v in PLAN], None, None)
    s.check(ba.at_eof(), 'position')


def t_relay(s):
    """a byte array of any content that is read and sent on is the same on the wire, and may be read and sent on again"""
    content = s.choice('start', ['', '\x78\x9c', '\x78\x9c\x03\x00', '\x78\xda', '\x78'])
    if content[:2] == '\x78\x9c':
        content += s.choice('rest', ['', '\0', 'junk!', '\xff' * 9])
    else:
        content += s.bytes_upto('rest', 3)
        s.assume(content[:2] != '\x78\x9c')
    data = chr(0x0c) + chr(len(content) * 2 + 1) + content
    for i in range(2):
        ba = hx.decode_one(s, data, 3)
        s.check(type(ba) is amf3.ByteArray and ba.getvalue() == content and len(ba) == len(content), 'content')
        s.check(hx.encode(ba, 3) == data, 'sent on')
    s.check(hx.encode([ba, ba], 3) == '\x09\x05\x01' + data + '\x0c\x02', 'twice')


class Pair(object):
    class __amf__:
        external = True
        alias = 'c26.Pair'

    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def __writeamf__(self, out):
        out.writeObject(self.a)
        out.writeByte(7)
        out.writeObject(self.b)

    def __readamf__(self, inp):
        self.a = inp.readObject()
        s7 = inp.readByte()
        self.b = inp.readObject()
        self.seven = s7


def t_graph(s):
    """externalised objects within each other and within themselves"""
    pyamf.register_class(Pair)
    try:
        n = s.quick and 2 or 3
        ps = [Pair() for i in range(n)]
        lst = [s.int('l', 1000000, 1001000)]
        for i in range(n):
            for f in 'ab':
                c = s.choice('%s%d' % (f, i), (s.quick and f == 'b' and ['int'] or ['int', 'list', 'box']) + range(n))
                if c == 'int':
                    v = s.int('%s%dv' % (f, i), 1000000, 1001000)
                elif c == 'list':
                    v = lst
                elif c == 'box':
                    v = [ps[0]]
                else:
                    v = ps[c]
                setattr(ps[i], f, v)
        r = hx.decode_one(s, hx.encode([ps, lst, ps[-1]], 3), 3)
        s.check(len(r) == 3 and len(r[0]) == n, 'shape')
        s.check(r[2] is r[0][-1], 'identity')
        s.check(hx.equal(s, lst, r[1]), 'list')
        for i in range(n):
            q = r[0][i]
            s.check(type(q) is Pair and q.seven == 7, 'pair')
            for f in 'ab':
                v, w = getattr(ps[i], f), getattr(q, f)
                if type(v) is Pair:
                    s.check(w is r[0][ps.index(v)], 'pair within')
                elif v is lst:
                    s.check(w is r[1], 'list within')
                elif type(v) is list:
                    s.check(type(w) is list and len(w) == 1 and w[0] is r[0][0], 'box within')
                else:
                    s.check(w == v, 'value within')
    finally:
        pyamf.unregister_class(Pair)
