# helpers shared by the harnesses (not a harness itself)
import pyamf
from pyamf import util


class Thing(object):
    pass


class Other(object):
    pass


class Old:
    pass


def scalar(s, name, kinds):
    k = s.choice(name + '.kind', kinds)
    if k == 'none':
        return None
    if k == 'undef':
        return pyamf.Undefined
    if k == 'bool':
        return s.choice(name + '.b', [False, True])
    if k == 'small':
        return s.int(name, -300, 300)
    if k == 'mid':
        return s.int(name, 1000, 1060)
    if k == 'int':
        return s.int(name, -2 ** 53, 2 ** 53)
    if k == 'float':
        return s.float(name)
    if k == 'uni0':
        return u''
    if k == 'uni1':
        return s.uni(name, 1)
    if k == 'uni2':
        return s.uni(name, 2)
    if k == 'uni3':
        return s.uni(name, 3)
    if k == 'asc1':
        return s.uni(name, 1, 127)
    if k == 'asc2':
        return s.uni(name, 2, 127)
    if k == 'str0':
        return ''
    if k == 'str1' or k == 'str2' or k == 'str3':
        return s.uni(name, int(k[3:])).encode('utf-8')
    if k == 'list0':
        return []
    if k == 'dict0':
        return {}
    raise ValueError(k)


def num_same(s, a, b):
    """numeric equality, NaN being equal to itself"""
    return s.Or(a == b, s.And(a != a, b != b))


def is_num(s, v):
    return s.is_(v, (int, long, float)) and not s.is_(v, bool)


def key_bytes(s, k):
    if s.is_(k, unicode):
        return k.encode('utf-8')
    if s.is_(k, (int, long)):
        return str(k)
    return k


def equal(s, a, b):
    """is b what decoding the encoding of a must give (types included)"""
    if a is None or a is pyamf.Undefined:
        return b is a
    if s.is_(a, bool):
        return s.And(s.is_(b, bool), a == b)
    if is_num(s, a):
        if not is_num(s, b):
            return False
        return num_same(s, a, b)
    if s.is_(a, (str, unicode)):
        if len(a) == 0:
            return s.is_(b, (str, unicode)) and len(b) == 0
        if s.is_(a, str):
            a = a.decode('utf-8')
        return s.same(a, b)
    if type(a) in (list, tuple):
        if type(b) is not list or len(a) != len(b):
            return False
        r = True
        for i in xrange(len(a)):
            r = s.And(r, equal(s, a[i], b[i]))
        return r
    if type(a) is pyamf.MixedArray:
        if type(b) is not pyamf.MixedArray or len(a) != len(b):
            return False
        r = True
        for k in a:
            x = k
            if s.is_(k, unicode):
                x = k.encode('utf-8')
            if x not in b:
                return False
            r = s.And(r, equal(s, a[k], b[x]))
        return r
    if s.is_(a, dict):
        want = pyamf.ASObject
        if type(a) is pyamf.TypedObject:
            want = pyamf.TypedObject
        if type(b) is not want:
            return False
        return same_items(s, a, b)
    if type(b) is not type(a):
        return False
    if hasattr(a, '__dict__'):
        return same_items(s, a.__dict__, b.__dict__)
    return a == b


def same_items(s, a, b):
    if len(a) != len(b):
        return False
    r = True
    for k in a:
        x = key_bytes(s, k)
        if x not in b:
            return False
        r = s.And(r, equal(s, a[k], b[x]))
    return r


def encode(v, enc, **kw):
    return pyamf.encode(v, encoding=enc, **kw).getvalue()


def decode_all(data, enc, **kw):
    """all values of a stream"""
    d = pyamf.get_decoder(enc, data, **kw)
    out = []
    while not d.stream.at_eof():
        out.append(d.readElement())
    return out


def decode_one(s, data, enc, label='', **kw):
    d = pyamf.get_decoder(enc, data, **kw)
    v = d.readElement()
    s.check(d.stream.tell() == len(data), label + 'bytes left over')
    return v


def snapshot(v):
    """the containers of a value copied: encoding may not change what it is given"""
    if type(v) in (list, tuple):
        return type(v)([snapshot(x) for x in v])
    if type(v) in (dict, pyamf.MixedArray, pyamf.ASObject):
        r = type(v)()
        for k in v:
            r[k] = snapshot(v[k])
        return r
    return v


def roundtrip(s, v, enc, label=''):
    before = snapshot(v)
    data = encode(v, enc)
    r = decode_one(s, data, enc, label)
    s.check(equal(s, before, r), label + 'decoded value differs')
    return data


# ---- object graphs
def make(kind):
    if kind == 'list':
        return []
    if kind == 'dict':
        return {}
    if kind == 'mixed':
        return pyamf.MixedArray()
    if kind == 'aso':
        return pyamf.ASObject()
    if kind in ('typed', 'amf3'):
        return Thing()
    if kind == 'anon':
        return Other()
    if kind == 'old':
        return Old()
    raise ValueError(kind)


def put(o, k, v):
    if type(o) is list:
        o.append(v)
    elif isinstance(o, dict):
        o[k] = v
    else:
        setattr(o, k, v)


def slots(o):
    """names and values held by a container, by name"""
    if type(o) in (list, tuple):
        return [(i, o[i]) for i in xrange(len(o))]
    if isinstance(o, dict):
        return sorted(o.items())
    return sorted(o.__dict__.items())


def is_container(o):
    return type(o) in (list, tuple, Thing, Other, Old) or isinstance(o, dict)


DECODED = {dict: pyamf.ASObject, Other: pyamf.ASObject, tuple: list}


def iso(s, a, b, pairs):
    """b is a copy of a in which the same places hold the same object; pairs: what was matched so far"""
    for x, y in pairs:
        if x is a or y is b:
            return x is a and y is b
    pairs.append((a, b))
    if isinstance(b, type) or type(b) is not DECODED.get(type(a), type(a)):
        return False
    sa, sb = slots(a), slots(b)
    if len(sa) != len(sb):
        return False
    r = True
    for i in xrange(len(sa)):
        ka, va = sa[i]
        kb, vb = sb[i]
        if ka != kb:
            return False
        if is_container(va):
            if not iso(s, va, vb, pairs):
                return False
        else:
            r = s.And(r, equal(s, va, vb))
    return r


def graph(s, n, kinds, nslots, leaf):
    """n containers, every slot holding a leaf or any of the containers"""
    objs = []
    for i in range(n):
        objs.append(make(s.choice('kind%d' % i, kinds)))
    for i in range(n):
        for j in range(nslots[i]):
            w = s.choice('slot%d%d' % (i, j), n + 1)
            if w == n:
                v = leaf(i, j)
            else:
                v = objs[w]
            put(objs[i], 'xyz'[j], v)
    return objs
