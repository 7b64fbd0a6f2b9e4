# C24: adapted library types are encoded as plain values, custom types by the closest that fits
import array
import collections
import decimal
import sets
import weakref
import pyamf
from pyamf import adapters
import hx

BOUNDS = ('collections of up to 2 (thorough: 4) elements with any number, float, text of 1-2 characters or flag, alone, in a list, twice and as an attribute, '
          'AMF0 and AMF3; any float and any integer of 62 bits as decimal; every subset of the custom types for a hierarchy of 3 classes '
          'in every order of registration, by class, function or tuple, over histories of 3 (4) values on one encoder')
ASSUMPTIONS = ['what a collection of unordered things is sent as has the order the collection is iterated in',
               'custom types added while an encoder is at work are seen by later encoders',
               'where a class and a function both fit any of the two may be used']
PRELOAD = ['pyamf.amf0', 'pyamf.amf3', 'pyamf.adapters.util', 'pyamf.adapters._sets', 'pyamf.adapters._collections', 'pyamf.adapters._array',
           'pyamf.adapters._weakref', 'pyamf.adapters._decimal']
KINDS = ['none', 'bool', 'small', 'int', 'float', 'uni0', 'uni2', 'list0']
QUICK = ['none', 'float', 'uni1']


def items(s, n, kinds):
    """symbolic kind of one, the others of kinds that need no choice"""
    if s.quick and kinds is KINDS:
        kinds = QUICK
    out = []
    for i in range(n):
        if i == 0:
            out.append(hx.scalar(s, 'x%d' % i, kinds))
        elif i == 1:
            out.append(s.int('x%d' % i, 1000000, 1001000))
        else:
            out.append(u'kk' + s.uni('x%d' % i, 1))
    return out


def places(s, v, want, enc):
    """v wherever it may stand, followed by something else"""
    w = s.choice('place', ['alone', 'list', 'twice', 'attribute', 'stream'])
    if w == 'stream':
        e = pyamf.get_encoder(enc)
        e.writeElement(v)
        e.writeElement(5)
        got = hx.decode_all(e.stream.getvalue(), enc)
        s.check(len(got) == 2, 'values on the stream')
        s.check(got[1] == 5, 'the value after')
        s.check(hx.equal(s, want, got[0]), 'value differs')
        return
    if w == 'list':
        v, want = [u'a', v, u'b'], [u'a', want, u'b']
    elif w == 'twice':
        v, want = [v, v, {'q': v}], [want, want, {'q': want}]
    elif w == 'attribute':
        o = hx.Other()
        o.a, o.b = v, 7
        v, want = o, {'a': want, 'b': 7}
    data = hx.encode(v, enc)
    s.check(hx.equal(s, want, hx.decode_one(s, data, enc)), 'value differs')


def t_sequence(s):
    """deques and arrays are sent as lists of their elements in order"""
    n = s.choice('n', s.quick and 3 or 5)
    kind = s.choice('kind', ['deque', 'arrayd', 'arrayi'])
    if kind == 'deque':
        l = items(s, n, KINDS)
        v = collections.deque(l)
    elif kind == 'arrayd':
        l = [s.float('f%d' % i) for i in range(n)]
        v = array.array('d', l)
    else:
        l = [s.int('i%d' % i, -1000000, -999000) for i in range(n)]
        v = array.array('i', l)
    places(s, v, l, s.choice('enc', [0, 3]))


def t_bounded(s):
    """a deque that dropped elements is sent as what it holds now"""
    d = collections.deque()
    want = []
    for i in range(s.quick and 3 or 4):
        x = s.int('x%d' % i, 1000000, 1001000)
        op = s.choice('op%d' % i, ['append', 'appendleft', 'pop', 'popleft'])
        if op == 'append':
            d.append(x)
            want.append(x)
        elif op == 'appendleft':
            d.appendleft(x)
            want.insert(0, x)
        elif want and op == 'pop':
            d.pop()
            want.pop()
        elif want:
            d.popleft()
            want.pop(0)
    enc = s.choice('enc', [0, 3])
    s.check(hx.equal(s, want, hx.decode_one(s, hx.encode(d, enc), enc)), 'value differs')


def t_set(s):
    """sets are sent as lists with every element once"""
    n = s.choice('n', s.quick and 3 or 4)
    l = items(s, n, ['none', s.quick and 'uni1' or 'uni2'])
    kind = s.choice('kind', ['Set', 'ImmutableSet', 'subclass', 'WeakSet'])
    if kind == 'WeakSet':
        l = [hx.Other() for i in range(n)]
        for i in range(n):
            l[i].v = s.int('w%d' % i, 1000000, 1001000)
        v = weakref.WeakSet(l + l)
    elif kind == 'Set':
        v = sets.Set(l + l)
    elif kind == 'subclass':
        class Sub(sets.Set):
            pass
        v = Sub(l + l)
    else:
        v = sets.ImmutableSet(l + l)
    order = list(v)
    s.check(len(order) == n, 'elements of the set')
    want = []
    for x in order:
        if kind == 'WeakSet':
            x = {'v': x.v}
        want.append(x)
    places(s, v, want, s.choice('enc', [0, 3]))


def t_mapping(s):
    """the dictionaries of collections and weakref are sent as anonymous objects with the same items"""
    n = s.choice('n', s.quick and 3 or 4)
    l = items(s, n, KINDS)
    keys = ['a', u'b', 'c%', u'\u20ac'][:n]
    kind = s.choice('kind', ['defaultdict', 'OrderedDict', 'Counter', 'sub', 'WeakValueDictionary'])
    made = []
    if kind == 'defaultdict':
        v = collections.defaultdict(lambda: made.append(1))
    elif kind == 'OrderedDict':
        v = collections.OrderedDict()
    elif kind == 'Counter':
        v = collections.Counter()
    elif kind == 'sub':
        class Sub(collections.defaultdict):
            pass
        v = Sub(lambda: made.append(1))
    else:
        v = weakref.WeakValueDictionary()
        for i in range(n):
            o = hx.Other()
            o.v = l[i]
            l[i] = o
    want = {}
    for i in range(n):
        v[keys[i]] = l[i]
        want[keys[i]] = l[i]
        if kind == 'WeakValueDictionary':
            want[keys[i]] = {'v': l[i].v}
    places(s, v, want, s.choice('enc', [0, 3]))
    s.check(len(v) == n and not made, 'the dictionary changed')


def t_intkeys(s):
    """integer keys of the dictionaries are kept as they are for plain ones"""
    kind = s.choice('kind', ['defaultdict', 'OrderedDict', 'Counter'])
    plain = {}
    v = getattr(collections, kind)()
    for i in range(2):
        k = s.choice('k%d' % i, [0, 1, 7, u'n'])
        v[k] = plain[k] = s.int('v%d' % i, 1000000, 1001000)
    enc = s.choice('enc', [0, 3])
    s.check(s.same(hx.encode(v, enc), hx.encode(plain, enc)), 'not as plain dictionaries')


def t_weakref(s):
    """weak references are sent as what they refer to, null when that is gone"""
    o = hx.Other()
    o.a = hx.scalar(s, 'a', s.quick and QUICK or KINDS)
    r = weakref.ref(o)
    q = weakref.ref(o)
    enc = s.choice('enc', [0, 3])
    what = s.choice('what', ['one', 'both', 'self', 'first'])
    if what == 'one':
        places(s, r, {'a': o.a}, enc)
        return
    if what == 'self':
        o.me = r
        got = hx.decode_one(s, hx.encode(r, enc), enc)
        s.check(got['me'] is got, 'reference to itself')
        return
    v = what == 'both' and [o, r, q] or [r, o, q]
    got = hx.decode_one(s, hx.encode(v, enc), enc)
    s.check(len(got) == 3 and got[0] is got[1] and got[1] is got[2], 'the same object')
    s.check(hx.equal(s, {'a': o.a}, got[0]), 'value differs')


def t_decimal(s):
    """decimals are sent as floats, and refused when strict"""
    if s.bool('int'):
        x = s.int('x', s.quick and 2 ** 53 - 8 or -2 ** 62, 2 ** (s.quick and 55 or 62))
    else:
        x = s.float('x')
    d = decimal.Decimal(x)
    enc = s.choice('enc', [0, 3])
    w = 'alone'
    if type(x) is float:
        w = s.choice('where', ['alone', 'list', 'attribute'])
    v, want = d, float(x)
    if w == 'list':
        v, want = [d, 1], [want, 1]
    elif w == 'attribute':
        v = hx.Other()
        v.p = d
        want = {'p': want}
    strict = s.choice('strict', ['default', 'no', 'yes'])
    if strict == 'yes':
        try:
            pyamf.encode(v, encoding=enc, strict=True)
        except pyamf.EncodeError:
            return
        s.fail('a decimal was sent by a strict encoder')
    kw = {}
    if strict == 'no':
        kw['strict'] = False
    data = pyamf.encode(v, encoding=enc, **kw).getvalue()
    s.check(hx.equal(s, want, hx.decode_one(s, data, enc)), 'value differs')


# ---- custom types
class A(object):
    def __init__(self, n):
        self.n = n


class B(A):
    pass


class C(B):
    pass


class OldA:
    def __init__(self, n):
        self.n = n


class OldB(OldA):
    pass


class Unrelated(object):
    def __init__(self, n):
        self.n = n


class OldUnrelated:
    def __init__(self, n):
        self.n = n


def conv(tag):
    def f(x, encoder):
        return [tag, x.n]
    return f


def register(s, hierarchy):
    """any subset of the classes in any order"""
    left = list(hierarchy)
    regs = []
    while left:
        i = s.choice('reg%d' % len(left), len(left) + 1)
        if i == len(left):
            break
        c = left.pop(i)
        pyamf.add_type(c, conv(unicode(c.__name__)))
        regs.append(c)
    return regs


def check_values(s, values, wants, enc):
    """on one encoder and each on its own"""
    e = pyamf.get_encoder(enc)
    for v in values:
        e.writeElement(v)
    got = hx.decode_all(e.stream.getvalue(), enc)
    s.check(len(got) == len(values), 'values on the stream')
    for i in range(len(values)):
        s.check(hx.equal(s, wants[i], got[i]), 'value %d differs' % i)
        one = hx.decode_one(s, hx.encode(values[i], enc), enc)
        s.check(hx.equal(s, wants[i], one), 'value %d differs on its own' % i)


def t_classes(s):
    """every instance is converted by the closest class that was added, others as before"""
    if s.bool('old'):
        hierarchy, classes = [OldA, OldB], [OldA, OldB, OldUnrelated]
        order = {OldA: [OldA], OldB: [OldB, OldA], OldUnrelated: []}
    else:
        hierarchy, classes = [A, B, C], [A, B, C, Unrelated]
        order = {A: [A], B: [B, A], C: [C, B, A], Unrelated: []}
    regs = register(s, hierarchy)
    values, wants = [], []
    for i in range(s.quick and 2 or 3):
        c = s.choice('class%d' % i, classes)
        v = c(s.int('n%d' % i, 1000000, 1001000))
        values.append(v)
        found = [x for x in order[c] if x in regs]
        if found:
            wants.append([unicode(found[0].__name__), v.n])
        else:
            wants.append({'n': v.n})
    check_values(s, values, wants, s.choice('enc', [0, 3]))


def t_function(s):
    """a function is asked about every value, not once for each type"""
    lim = s.int('lim', 1000000, 1001000)
    asked = s.choice('how', ['alone', 'tuple', 'list'])

    def big(x):
        return isinstance(x, (A, OldA)) and x.n > lim
    if asked == 'alone':
        pyamf.add_type(big, conv(u'big'))
    elif asked == 'tuple':
        pyamf.add_type((Unrelated, big), conv(u'big'))
    else:
        pyamf.add_type([big, Unrelated], conv(u'big'))
    values, wants = [], []
    for i in range(s.quick and 2 or 3):
        c = s.choice('class%d' % i, [A, B, OldA, Unrelated])
        v = c(s.int('n%d' % i, 1000000, 1001000))
        values.append(v)
        if c is Unrelated:
            yes = asked != 'alone'
        else:
            yes = bool(v.n > lim)
        if yes:
            wants.append([u'big', v.n])
        else:
            wants.append({'n': v.n})
    check_values(s, values, wants, s.choice('enc', [0, 3]))


def t_tuple(s):
    """all classes of a tuple are converted, and no others"""
    pyamf.add_type(s.choice('how', [(A, Unrelated), [Unrelated, A], (OldA, A)]), conv(u't'))
    types = [k for k in pyamf.TYPE_MAP if isinstance(k, tuple)]
    s.check(len(types) == 1, 'one type')
    values, wants = [], []
    for i in range(2):
        c = s.choice('class%d' % i, [B, OldB, Unrelated, OldUnrelated])
        v = c(s.int('n%d' % i, 1000000, 1001000))
        values.append(v)
        if isinstance(v, types[0]):
            wants.append([u't', v.n])
        else:
            wants.append({'n': v.n})
    check_values(s, values, wants, s.choice('enc', [0, 3]))


class Str(str):
    pass


class Uni(unicode):
    pass


class Lst(list):
    pass


class Dct(dict):
    pass


class Int(int):
    pass


class Flt(float):
    pass


def t_builtin(s):
    """subclasses of the basic types can be converted, the basic types themselves are not"""
    c = s.choice('class', [Str, Uni, Lst, Dct, Int, Flt])
    mk = {Str: 'ab', Uni: u'cd', Lst: [1, 2], Dct: {'x': 1}, Int: 5, Flt: 2.5}[c]
    which = s.choice('which', ['sub', 'base'])
    n = s.int('n', 1000000, 1001000)
    base = c.__mro__[1]
    pyamf.add_type(which == 'sub' and c or base, lambda x, encoder: [u'conv', n])
    done = [u'conv', n]
    plain = mk
    if c is Dct and which == 'base':
        plain = done      # dict itself can be converted
    check_values(s, [mk, c(mk), mk], [plain, done, plain], s.choice('enc', [0, 3]))


def t_result(s):
    """whatever the converter returns is what is sent: other adapted types, none, nothing written, written by itself"""
    enc = s.choice('enc', [0, 3])
    how = s.choice('how', ['value', 'deque', 'other', 'ref', 'itself', 'none'])
    x = 5
    if how != 'none':
        x = hx.scalar(s, 'x', s.quick and ['none', 'uni1'] or KINDS)
    want = x
    o = Unrelated(5)
    o.x = x
    calls = []

    def f(v, encoder):
        calls.append(v)
        if how == 'deque':
            return collections.deque([v.n])
        if how == 'other':
            return v.n
        if how == 'ref':
            return weakref.ref(v.n)
        if how == 'itself':
            encoder.writeElement(v.n)
            return
        if how == 'none':
            return
        return v.n
    pyamf.add_type(A, f)
    if how == 'deque':
        want = [x]
    elif how == 'ref':
        want = {'n': 5, 'x': x}
        x = o
    elif how == 'other':
        x, want = A(x), x
    elif how == 'none':
        want = None
    a = A(x)
    places(s, a, want, enc)
    s.check(calls[0] is a, 'the value converted')


def t_raises(s):
    """an error of the converter comes out as it is, and the next value is not affected"""
    class Odd(Exception):
        pass

    def f(v, encoder):
        if v.n > lim:
            raise Odd
        return v.n
    lim = s.int('lim', 1000000, 1001000)
    n = s.int('n', 1000000, 1001000)
    pyamf.add_type(A, f)
    enc = s.choice('enc', [0, 3])
    e = pyamf.get_encoder(enc)
    try:
        e.writeElement(A(n))
    except Odd:
        s.check(n > lim, 'raised without reason')
    else:
        s.check(s.Not(n > lim), 'error lost')
    s.check(hx.decode_one(s, hx.encode(A(lim), enc), enc) == lim, 'the next value')


def t_registry(s):
    """types are found, refused twice, and gone when removed"""
    model = {}
    keys = [A, (A, B), Unrelated]
    for i in range(s.quick and 3 or 4):
        ops = ['add', 'remove', 'get']
        op = s.choice('op%d' % i, ops)
        k = s.choice('key%d' % i, keys)
        arg = k
        if isinstance(k, tuple) and i == 1:
            arg = list(k)
        f = conv(u'f%d' % i)
        try:
            if op == 'add':
                pyamf.add_type(arg, f)
            elif op == 'remove':
                r = pyamf.remove_type(arg)
            else:
                r = pyamf.get_type(arg)
        except KeyError:
            s.check((k in model) == (op == 'add'), 'refused')
            continue
        s.check((k in model) == (op != 'add'), 'not refused')
        if op == 'add':
            model[k] = f
        else:
            s.check(r is model[k], 'declaration')
            if op == 'remove':
                del model[k]
    n = s.int('n', 1000000, 1001000)
    v = B(n)
    got = hx.decode_one(s, hx.encode(v, 3), 3)
    if (A, B) in model:
        k = (A, B)
    elif A in model:
        k = A
    else:
        s.check(hx.equal(s, {'n': n}, got), 'value differs')
        return
    s.check(hx.equal(s, model[k](v, None), got), 'value differs')


def t_refuse_type(s):
    """what is neither class nor function is no custom type"""
    v = s.choice('what', [None, 1, 'str', (A, 'x'), [A, None], (A, (B,))])
    before = len(pyamf.TYPE_MAP)
    try:
        pyamf.add_type(v, conv(u'x'))
    except TypeError:
        s.check(len(pyamf.TYPE_MAP) == before, 'added')
        return
    s.fail('accepted')
