import functools, itertools, operator, struct, copy, collections, binascii, array, string, re, types
# The engine's own test: check.py SELF runs these on the engine and on Jython. No property of PyAMF.
BOUNDS = 'the language and library features refactored code may use'
ASSUMPTIONS = []

def t_bytes1(s):
    d = s.bytes('d', 4)
    n = 0
    for c in bytearray(d):
        n = n << 8 | c
    s.check(n == struct.unpack('!I', d)[0], 'a')
    m = reduce(lambda a, b: a * 256 + b, map(ord, d))
    s.check(m == n, 'b')
    s.check(binascii.hexlify(d)[:1] in '0123456789abcdef', 'c')

def t_bytes2(s):
    n = s.int('n', 0, 2 ** 32 - 1)
    out = bytearray(4)
    for i in reversed(range(4)):
        out[i] = n & 255
        n >>= 8
    s.check(struct.unpack('>I', str(out))[0] >= 0, 'a')

def t_bytes3(s):
    n = s.int('n', 0, 2 ** 28 - 1)
    out = []
    while True:
        n, r = divmod(n, 128)
        out.append(chr(r))
        if not n:
            break
    x = ''.join(reversed(out))
    s.check(len(x) <= 4, 'a')
    y = ''.join(out[::-1])
    s.check(x == y, 'b')

def t_struct(s):
    d = s.bytes('d', 6)
    S = struct.Struct('!HI')
    a, b = S.unpack(d)
    a2, = struct.unpack_from('!H', d, 0)
    b2, = struct.unpack_from('!I', d, 2)
    s.check(a == a2, 'x')
    s.check(b == b2, 'x')
    s.check(S.pack(a, b) == d, 'p')
    s.check(struct.calcsize('!HI') == 6 == S.size, 'p')

def t_str(s):
    d = s.bytes('d', 2)
    i = d.find('a')
    s.check(i == -1 or d[i] == 'a', '1')
    a, b, c = d.partition('a')
    s.check(a + b + c == d, '2')
    s.check(d.startswith(('a', 'b')) == (d[0] in 'ab'), '3')
    s.check(d.replace('a', 'b').count('a') == 0, '4')
    s.check(len(d.split('a')) == d.count('a') + 1, '5')
    try:
        j = d.index('a')
    except ValueError:
        j = -1
    s.check(i == j, '6')
    s.check(d.rfind('a') >= i, '6')
    s.check(list(d) == [x for x in d], 7)
    s.check(d[1:][:2] == d[1:3], 8)
    s.check(d.rpartition('a')[2].count('a') == 0, 10)
    s.check(tuple(d) == tuple(map(str, d)), 11)

def t_fmt(s):
    n = s.int('n', 0, 300)
    s.check('{0}'.format(n) == str(n), 1)
    s.check('%d' % n == str(n), 2)
    s.check('%s-%r' % (n, n) == str(n) + '-' + repr(n), 3)
    s.check('{a}{b}'.format(a=n, b='x').endswith('x'), 4)
    s.check(int(str(n)) == n, 5)

def t_iter(s):
    n = s.int('n', 0, 5)
    l = range(n)
    s.check(sum(l) == n * (n - 1) // 2, 1)
    s.check(list(itertools.chain(l, l)) == l + l, 2)
    s.check(list(itertools.islice(l, 2)) == l[:2], 3)
    s.check(all(x < n for x in l), 4)
    s.check(not any(x >= n for x in l), 5)
    s.check(dict(enumerate(l)) == {x: x for x in l}, 6)
    s.check(dict(zip(l, l)) == dict((x, x) for x in l), 7)
    s.check(sorted(l, key=lambda x: -x) == list(reversed(l)), 8)
    s.check(max(l + [0]) >= 0 and min(l + [0]) == 0, 9)
    s.check(filter(None, l) == l[1:], 10)
    it = iter(l)
    s.check(next(it, None) == (0 if n else None), 11)
    s.check([x for x in iter(functools.partial(next, it, None), None)] == l[1:], 12)
    s.check(list(itertools.imap(operator.neg, l)) == [-x for x in l], 13)
    s.check(list(itertools.repeat(1, 2)) == [1, 1], 14)
    s.check(list(itertools.takewhile(lambda x: x < 2, l)) == l[:2], 15)
    s.check(list(itertools.izip(l, itertools.count())) == zip(l, l), 16)

def t_cls(s):
    n = s.int('n', 0, 500)
    P = collections.namedtuple('P', 'x y')
    p = P(n, y=1)
    s.check(p.x == n and p[1] == 1 and p == (n, 1), 1)
    d = collections.defaultdict(list)
    d[n].append(1)
    s.check(d[n] == [1], 2)
    o = collections.OrderedDict()
    o['b'] = n
    o['a'] = 2
    s.check(o.keys() == ['b', 'a'], 3)
    q = collections.deque([n, 2])
    q.append(3)
    s.check(q.popleft() == n, 4)
    g = operator.itemgetter('a')
    s.check(g(o) == 2, 5)
    s.check(operator.attrgetter('x')(p) == n, 6)
    c = copy.copy(o)
    s.check(c == o, 7)
    s.check(copy.deepcopy([n]) == [n], 8)

    class A(object):
        __slots__ = ('a', '_b')
        @staticmethod
        def st(x):
            return x
        @classmethod
        def cl(cls, x):
            return cls, x
        @property
        def b(self):
            return self._b
        @b.setter
        def b(self, v):
            self._b = v
    a = A()
    a.b = n
    s.check(a.b == n and A.st(n) == n and A.cl(n) == (A, n), 9)
    s.check(isinstance(a, (A, int)) and not issubclass(A, int), 10)

class CM(object):
    def __init__(self, log):
        self.log = log
    def __enter__(self):
        self.log.append(1)
        return self
    def __exit__(self, *exc):
        self.log.append(exc[0])
        return exc[0] is ValueError

def deco(f):
    @functools.wraps(f)
    def g(*a, **k):
        return f(*a, **k)
    return g

@deco
def gen(n):
    try:
        for i in xrange(n):
            x = yield i
    finally:
        pass

def t_ctl(s):
    n = s.int('n', 0, 3)
    log = []
    with CM(log) as c:
        if n == 2:
            raise ValueError('x')
    s.check(log == [1, ValueError if n == 2 else None], 1)
    s.check(list(gen(n)) == range(n), 2)
    for i in range(n):
        if i == 2:
            break
    else:
        i = -1
    s.check((i == 2) == (n == 3), 3)
    try:
        r = {0: 'a', 1: 'b'}[n]
    except KeyError as e:
        r = e.args[0]
    else:
        r += 'x'
    finally:
        log = r
    s.check(log == (n if n > 1 else ['ax', 'bx'][n]), 4)
    import contextlib
    @contextlib.contextmanager
    def cm():
        try:
            yield 5
        except KeyError:
            pass
    with cm() as v:
        raise KeyError
    s.check(v == 5, 5)
    f = lambda *a, **k: (a, k)
    s.check(f(1, *[2], **{'c': n}) == ((1, 2), {'c': n}), 6)
    assert n < 4, n
    del log

def t_set(s):
    n = s.int('n', 0, 4)
    a = set([1, 2, n])
    b = frozenset([2, 3])
    s.check((a | b) == a.union(b), 1)
    s.check(a - b == a.difference(b), 2)
    s.check((a & b) == a.intersection(b) and (a ^ b) == a.symmetric_difference(b), 3)
    a |= b
    a -= set([2])
    a.discard(77)
    a.add(5)
    s.check({2} <= b and b >= {2} and b.issuperset([2]), 4)
    s.check(a.isdisjoint([99]), 5)
    s.check({x for x in a} == a, 6)

def t_dict(s):
    n = s.int('n', 0, 4)
    d = {1: 2, n: 3}
    s.check(d.setdefault(n, 7) == 3, 1)
    s.check(d.pop(n) == 3 and d.pop(n, None) is None, 2)
    d.update({4: 1}, a=2)
    d.update([(8, 9)])
    s.check(d.get('a') == 2 and 'a' in d and d.has_key('a'), 3)
    s.check(dict.fromkeys([1, 2], n) == {1: n, 2: n}, 4)
    s.check(sorted(d.iterkeys()) == sorted(d), 5)
    k, v = dict(x=n).popitem()
    s.check(k == 'x' and v == n, 6)
    s.check(len(d.viewkeys() & set(['a'])) == 1, 7)
    s.check(dict(d, b=5)['b'] == 5, 8)
    del d['a']

def t_int(s):
    n = s.int('n', -300, 300)
    s.check(abs(n) >= 0 and -n + n == 0 and ~n == -n - 1, 1)
    s.check(n.bit_length() <= 9, 2)
    s.check(n // 7 * 7 + n % 7 == n, 3)
    s.check(pow(n, 2) == n ** 2, 4)
    s.check(cmp(n, 0) in (-1, 0, 1), 5)
    s.check(int(float(n)) == n, 6)
    s.check(round(n) == n, 7)
    s.check((-5 <= n <= 5) == (n in range(-5, 6)), 8)
    s.check(n.__class__ is int and type(n) in (int, long), 9)
    s.check(n & 0xff == n % 256, 10)
    s.check(hash(n) == hash(n), 11)
    s.check(max(0, min(n, 255)) in xrange(256), 12)
    s.check(hex(n & 15) == '0x' + '0123456789abcdef'[n & 15], 13)
    s.check(bool(n) == (n != 0), 14)
    s.check(long(n) == n, 15)
    s.check(operator.and_(n, 1) == n % 2, 16)
    s.check(n.__add__(1) == n + 1, 17)

def t_flt(s):
    import math
    f = s.float('f')
    s.check(math.isnan(f) == (f != f), 1)
    s.check(not math.isinf(f) or f in (float('inf'), -float('inf')), 2)
    s.check(struct.unpack('>d', struct.pack('>d', f))[0] == f or f != f, 3)
    s.check(struct.unpack('<d', struct.pack('>d', f)[::-1])[0] == f or f != f, 4)
    s.check(f == 0 or math.copysign(1, f) in (1.0, -1.0), 5)
    s.check(repr(1.5) == '1.5', 6)
    if abs(f) < 100:
        s.check(math.floor(f) <= f, 7)
        s.check(int(f) <= 100, 8)

def t_uni(s):
    u = s.uni('u', 3, 0x2ff)
    b = u.encode('utf-8')
    s.check(b.decode('utf-8') == u, 1)
    s.check(unicode(b, 'utf8') == u, 2)
    s.check(u[::-1][::-1] == u, 4)
    s.check(u''.join([c for c in u]) == u, 5)
    s.check((u + u).count(u) >= 1, 7)
    s.check(u.strip() in u, 8)
    s.check(u'%s' % u == u, 9)

def t_io(s):
    import cStringIO, StringIO, io
    d = s.bytes('d', 4)
    for k in (cStringIO.StringIO, StringIO.StringIO, io.BytesIO):
        f = k(d)
        f.seek(1)
        s.check(f.read(2) == d[1:3], 1)
        s.check(f.tell() == 3, 2)
        f.seek(0, 2)
        f.write('x')
        s.check(f.getvalue() == (k is not cStringIO.StringIO and d + 'x' or f.getvalue()), 3)
    m = memoryview(d)
    s.check(m[1:2].tobytes() == d[1], 4)

def t_re(s):
    d = s.bytes('d', 3)
    m = re.match('a+', d)
    s.check((m is None) == (d[0] != 'a'), 1)

def t_misc(s):
    n = s.int('n', 0, 3)
    s.check(getattr(n, 'foo', 5) == 5, 1)
    s.check(vars(type('A', (), {'x': n})())  == {}, 2)
    s.check(callable(len), 3)
    o = type('A', (), {'x': n})
    setattr(o, 'y', n)
    s.check(o.y == n and hasattr(o, 'y'), 4)
    delattr(o, 'y')
    s.check(isinstance(types.MethodType(lambda self: 1, o()), types.MethodType), 5)
    s.check([1, 2, 3, 4][n:] == [1, 2, 3, 4][-(4 - n):], 6)
    l = [3, 1, 2]
    l.sort(reverse=True)
    l.insert(n, 7)
    s.check(l[n] == 7 and l.index(7) == n, 7)
    l.remove(7)
    l.extend((n,))
    s.check(l.pop() == n and l.count(3) == 1, 8)
    l[n:n] = [5]
    s.check(l[n] == 5, 9)
    l *= 2
    s.check(len(l) == 8, 10)
    import weakref
    class W(object):
        pass
    w = W()
    r = weakref.ref(w)
    s.check(r() is w, 11)
    import inspect
    s.check(inspect.isclass(W) and not inspect.isfunction(W), 12)
    import collections
    s.check(isinstance([], collections.Iterable) and isinstance({}, collections.Mapping), 13)
    import numbers
    s.check(isinstance(n, numbers.Integral) and isinstance(n, numbers.Number), 14)
    import warnings, logging
    logging.getLogger('x').debug('a %s', n)
    s.check(id(w) == id(w), 15)
    s.check(isinstance(super(W, w), super), 16)
    print >>__import__('StringIO').StringIO(), n
    s.check(zip(*[(1, n), (2, n)]) == [(1, 2), (n, n)], 17)
    import threading
    with threading.Lock():
        pass
    s.check(string.ascii_letters[n] == 'abcd'[n], 18)
