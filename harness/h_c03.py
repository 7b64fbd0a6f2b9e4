# C03: a byte stream behaves as an in-memory file
from pyamf import util

BOUNDS = ('every sequence of 2 (thorough: 3) operations out of 12 kinds on every initial content of up to 2 bytes at every '
          'position, every argument within 3 of the length, every byte value')
ASSUMPTIONS = ['cStringIO behaves as modelled in engine/stubs.py (Jython semantics)',
               'positions stay inside the stream, except in t_beyond']


class Model(object):
    """an in-memory file"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def write(self, b):
        self.data = self.data[:self.pos] + b + self.data[self.pos + len(b):]
        self.pos += len(b)

    def left(self):
        return len(self.data) - self.pos


def same(s, st, m, what):
    s.check(st.tell() == m.pos, what + ': position')
    s.check(st.getvalue() == m.data, what + ': content')
    s.check(len(st) == len(m.data), what + ': length')
    s.check(st.remaining() == m.left(), what + ': remaining')
    s.check(bool(st.at_eof()) == (m.left() == 0), what + ': at_eof')
    s.check(st.tell() == m.pos, what + ': queries moved the position')


OPS = ['write', 'read', 'read_all', 'seek', 'seek_cur', 'seek_end', 'peek', 'peek_all', 'truncate', 'append', 'consume', 'add']


def step(s, st, m, i):
    op = s.choice('op%d' % i, OPS)
    n = len(m.data)
    if op == 'write':
        b = s.bytes_upto('w%d' % i, 2)
        st.write(b)
        m.write(b)
    elif op == 'read':
        k = s.choice('r%d' % i, m.left() + 2)
        try:
            r = st.read(k)
        except IOError:
            s.check(k > m.left(), 'read refused')
        else:
            s.check(k <= m.left(), 'read past the end')
            s.check(r == m.data[m.pos:m.pos + k], 'read: bytes')
            m.pos += k
    elif op == 'read_all':
        try:
            r = st.read()
        except IOError:
            s.check(m.left() == 0, 'read refused')
        else:
            s.check(m.left() > 0, 'read at the end')
            s.check(r == m.data[m.pos:], 'read all: bytes')
            m.pos = n
    elif op == 'seek':
        k = s.choice('s%d' % i, n + 1)
        st.seek(k)
        m.pos = k
    elif op == 'seek_cur':
        k = s.choice('s%d' % i, n + 1)
        st.seek(k - m.pos, 1)
        m.pos = k
    elif op == 'seek_end':
        k = s.choice('s%d' % i, n + 1)
        st.seek(-k, 2)
        m.pos = n - k
    elif op == 'peek':
        k = s.choice('p%d' % i, m.left() + 2)
        s.check(st.peek(k) == m.data[m.pos:m.pos + k], 'peek: bytes')
    elif op == 'peek_all':
        s.check(st.peek(-1) == m.data[m.pos:], 'peek all: bytes')
    elif op == 'truncate':
        k = s.choice('t%d' % i, n + 1)
        if k < m.pos and k:
            s.stop()
        if k == 0:
            st.truncate()
            m.pos = 0
        else:
            st.truncate(k)
        m.data = m.data[:k]
    elif op == 'append':
        kind = s.choice('k%d' % i, 3)
        if kind == 0:
            b = s.bytes_upto('a%d' % i, 2)
            st.append(b)
        elif kind == 1:
            u = s.uni('a%d' % i, 1)
            b = u.encode('utf-8')
            st.append(u)
        else:
            b = s.bytes('a%d' % i, 1)
            o = util.BufferedByteStream(b)
            o.seek(0, 2)
            st.append(o)
            s.check(o.getvalue() == b, 'append changed its argument')
        m.data = m.data + b
    elif op == 'consume':
        st.consume()
        m.data = m.data[m.pos:]
        m.pos = 0
    elif op == 'add':
        b = s.bytes_upto('b%d' % i, 1)
        o = util.BufferedByteStream(b)
        o.seek(len(b))
        r = st + o
        s.check(r.getvalue() == m.data + b, 'concatenation')
        s.check(r.tell() == 0, 'position of the concatenation')
        s.check(len(r) == n + len(b), 'length of the concatenation')
        s.check(o.tell() == len(b), 'concatenation moved its right operand')
        s.check(o.getvalue() == b, 'concatenation changed its right operand')
        r.write('!')
    same(s, st, m, op)


def t_ops(s):
    """sequences of operations against the model"""
    b = s.bytes_upto('init', 2)
    st = util.BufferedByteStream(b)
    m = Model(b)
    same(s, st, m, 'new')
    k = s.choice('start', len(b) + 1)
    st.seek(k)
    m.pos = k
    for i in range(s.quick and 2 or 3):
        step(s, st, m, i)
    s.observe('end', (st.getvalue(), st.tell()))


def t_after_write(s):
    """the length is right after each of several writes, overwriting and extending"""
    st = util.BufferedByteStream()
    m = Model('')
    for i in range(3):
        b = s.bytes_upto('w%d' % i, 2)
        st.write(b)
        m.write(b)
        same(s, st, m, 'write')
        k = s.choice('s%d' % i, len(m.data) + 1)
        st.seek(k)
        m.pos = k
        same(s, st, m, 'seek')


def t_backwards(s):
    """negative lengths are refused without effect"""
    b = s.bytes_upto('b', 2)
    k = s.choice('k', len(b) + 1)
    n = s.int('n', -300, -2)
    st = util.BufferedByteStream(b)
    st.seek(k)
    m = Model(b)
    m.pos = k
    for f, e in ((st.read, IOError), (st.peek, ValueError)):
        try:
            f(n)
        except e:
            same(s, st, m, 'refused')
            continue
        s.fail('accepted')


def t_beyond(s):
    """with the position beyond the end, by seeking or by cutting what came before it, nothing is left to read"""
    n = s.choice('n', [1, 2, 5])
    if s.bool('cut'):
        b = s.bytes('b', 6)
        st = util.BufferedByteStream(b)
        k = s.choice('to', 6 - n) + 1
        st.seek(k + n)
        st.truncate(k)
        b = b[:k]
        s.check(st.tell() == k + n, 'cutting moved the position')
        s.check(st.getvalue() == b, 'cut: content')
        s.check(len(st) == k, 'cut: length')
    else:
        b = s.bytes_upto('b', 2)
        st = util.BufferedByteStream(b)
        st.seek(len(b) + n)
    s.check(st.at_eof(), 'not at the end')
    s.check(st.remaining() == 0, 'left to read')
    s.check(st.peek(-1) == '', 'peek at everything')
    s.check(st.tell() == len(b) + n, 'position moved')
    for k in (1, 2, -1):
        try:
            st.read(k)
        except IOError:
            s.check(st.tell() == len(b) + n, 'position moved')
            continue
        s.fail('read beyond the end')
    s.check(st.peek(2) == '', 'peek')
    s.check(st.tell() == len(b) + n, 'position moved')


def t_make(s):
    """a stream made from text, from a stream or from a file-like object has its content, from the start"""
    b = s.bytes_upto('b', 3)
    kind = s.choice('kind', ['bytes', 'stream', 'proxy', 'filelike'])
    k = s.choice('pos', len(b) + 1)
    src = None
    if kind == 'bytes':
        st = util.BufferedByteStream(b)
    else:
        src = util.BufferedByteStream(b)
        src.seek(k)
        if kind == 'filelike':
            real = src

            class File(object):
                def read(self, n=-1):
                    if real.at_eof():
                        return ''
                    return real.read(n)

                def seek(self, p, mode=0):
                    real.seek(p, mode)

                def tell(self):
                    return real.tell()
            st = util.BufferedByteStream(File())
        else:
            st = util.BufferedByteStream(src)
    m = Model(b)
    same(s, st, m, kind)
    if src is not None:
        s.check(src.tell() == k, 'position of the source')
        s.check(src.getvalue() == b, 'content of the source')
        st.seek(0, 2)
        st.write('x')
        s.check(src.getvalue() == b, 'writing changed the source')


def t_make_bad(s):
    """anything else is refused with TypeError"""
    class Part(object):
        """a file that lacks something"""
    has = s.choice('has', [(), ('read',), ('seek',), ('tell',), ('read', 'seek'), ('read', 'tell'), ('seek', 'tell')])
    part = Part()
    for k in has:
        setattr(part, k, lambda *args: '')
    v = has and part or s.choice('v', [1, 1.5, [], {}, object(), ()])
    try:
        util.BufferedByteStream(v)
    except TypeError:
        return
    s.fail('accepted')
