"""The harness interface, symbolic side.  jyreplay.py has the concrete side."""
import struct
import z3
import rt
import values as V
import reals
from core import E, Cex, PathEnd, Unsupported, Inconclusive
from values import SymInt, SymFloat, SymStr, SymUni, SymBool, SymSeq, UStr


def is_canon_nan(f):
    return f != f


def canon(v, depth=0):
    """a JSON-able description of a value; symbolic parts are evaluated in the model"""
    if depth > 12:
        return '<deep>'
    t = type(v)
    if v is None or v is True or v is False:
        return v
    if t is SymBool:
        return z3.is_true(E.get_model().eval(v.e, True))
    if t is int:
        return ['i', str(v)]
    if t is SymInt:
        return ['i', str(E.get_model().eval(v.e, True).as_signed_long())]
    if t is V.BigTrunc:
        return ['i', str(int(V.float_of(E.get_model().eval(v.f.bv, True).as_long())))]
    if t is float:
        return ['f', '%016x' % (V.CANON_NAN if v != v else V.bits_of(v))]
    if t is SymFloat:
        b = E.get_model().eval(v.packed_bits() if v.ival is None else v.bv, True)
        x = V.float_of(b.as_long())
        return ['f', '%016x' % (V.CANON_NAN if x != x else V.bits_of(x))]
    if V.is_strlike(v):
        its = []
        for it in V.items_of(v):
            if isinstance(it, int):
                its.append(it)
            elif isinstance(it, str):
                its.append(ord(it))
            else:
                its.append(E.get_model().eval(it, True).as_long())
        return ['u' if V.is_uni(v) else 's', its]
    if isinstance(v, (list, tuple)):
        return ['l' if isinstance(v, list) else 't', [canon(x, depth + 1) for x in v]]
    if isinstance(v, rt.PyDict):
        ks = [[canon(k, depth + 1), canon(rt.getitem(v, k), depth + 1)] for k in list(v)]
        return ['d', sorted(ks, key=repr)]
    if isinstance(v, BaseException):
        return ['exc', t.__name__]
    if isinstance(v, type):
        return ['type', v.__name__]
    return ['o', t.__name__]


class S(object):
    """passed to every harness function as `s`"""
    symbolic = True

    def __init__(self, quick, known):
        self.quick = quick
        self._known = known

    # -- inputs
    def _name(self, n):
        k = E.input_names.get(n, 0)
        E.input_names[n] = k + 1
        return n if k == 0 else '%s~%d' % (n, k)

    def int(self, name, lo, hi):
        name = self._name(name)
        w = V.width_for(lo, hi)
        v = z3.BitVec(name, w)
        E.inputs.append((name, 'int', v))
        if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
            E.assume(z3.And(v >= lo, v <= hi))
        return V.mkint(v, lo, hi)

    def byte(self, name):
        return self.bytes(name, 1)

    def bytes(self, name, n):
        name = self._name(name)
        its = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        E.inputs.append((name, 'bytes', its))
        return SymStr.make(its) if n else ''

    def bytes_upto(self, name, n, least=0):
        return self.bytes(name, least + self.choice(name + '.len', n - least + 1))

    def uni(self, name, n, hi=0x10ffff):
        """n code points up to hi, no surrogates"""
        name = self._name(name)
        its = [z3.BitVec('%s[%d]' % (name, i), 21) for i in range(n)]
        E.inputs.append((name, 'uni', its))
        for it in its:
            E.assume(z3.ULE(it, hi))
            if hi >= 0xd800:
                E.assume(z3.Or(z3.ULT(it, 0xd800), z3.UGT(it, 0xdfff)))
        return SymUni.make(its) if n else UStr('')

    def uni_upto(self, name, n, hi=0x10ffff, least=0):
        return self.uni(name, least + self.choice(name + '.len', n - least + 1), hi)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        E.inputs.append((name, 'bool', v))
        return SymBool(v)

    def choice(self, name, n):
        """0..n-1, or one of a list: one path for each"""
        name = self._name(name)
        l = None
        if not isinstance(n, int):
            l = list(rt.iter_(n))
            n = len(l)
        i = E.choose(n)
        E.inputs.append((name, 'choice', i))
        return i if l is None else l[i]

    def instant(self, name, lo, hi):
        """a datetime, lo..hi microseconds from 1970 (needs MODELS = ['datetime', 'calendar'])"""
        name = self._name(name)
        v, r = reals.fresh_int(name, lo, hi)
        E.inputs.append((name, 'instant', v))
        return reals.datetime.of(r)

    def duration(self, name, lo, hi, unit=1):
        """a timedelta of lo..hi units of that many microseconds"""
        name = self._name(name)
        v, r = reals.fresh_int(name, lo, hi)
        E.inputs.append((name, 'instant', v))
        return reals.timedelta.of(r * unit)

    def day(self, name, lo, hi):
        """a date, lo..hi days from 1970"""
        name = self._name(name)
        v, r = reals.fresh_int(name, lo, hi)
        E.inputs.append((name, 'instant', v))
        return reals.date.of(r * reals.DAY)

    def float(self, name):
        """any double"""
        name = self._name(name)
        v = z3.BitVec(name, 64)
        E.inputs.append((name, 'float', v))
        return SymFloat(bv=v)

    # -- claims
    def assume(self, c):
        if type(c) is SymBool:
            E.assume(c.e)
            E.get_model()
        elif not rt.truth(c):
            raise PathEnd('assume')

    def check(self, c, label='check'):
        st = E.stats
        st.assertions += 1
        if type(c) is not SymBool:
            if rt.truth(c):
                st.proved_trivially += 1
                return
            raise Cex(label, self.values(E.get_model()))
        nc = z3.simplify(z3.Not(c.e))
        if z3.is_false(nc):
            st.proved_trivially += 1
            return
        if E.check(nc):
            m = E._m.model()
            E.cexes.append((label, self.values(m)))
            E.assume(c.e)
            E.get_model()

    def fail(self, label='fail'):
        E.stats.assertions += 1
        raise Cex(label, self.values(E.get_model()))

    def observe(self, label, v):
        """recorded, and compared with the real code's value when the path's witness is replayed"""
        E.observed.append((label, v))

    def known(self, kid, c=True):
        """true inside the region of a listed finding"""
        if kid not in self._known:
            return False
        if rt.truth(c):
            E.region = kid
            return True
        return False

    def budget(self, ticks, seconds):
        """let this path run longer than others"""
        E.max_ticks = ticks
        import time
        E.deadline = time.process_time() + seconds

    def stop(self):
        raise PathEnd('stop')

    def reached(self, what):
        E.reached.add(what)

    def is_(self, v, tp):
        return rt.isinstance_(v, tp)

    # logical operators that do not fork
    def And(self, *bs):
        return V.and_(*[b if type(b) is SymBool else rt.truth(b) for b in bs])

    def Or(self, *bs):
        return V.or_(*[b if type(b) is SymBool else rt.truth(b) for b in bs])

    def Not(self, b):
        return V.not_(b if type(b) is SymBool else rt.truth(b))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def If(self, c, a, b):
        """integer-valued choice without a fork"""
        if type(c) is not SymBool:
            return a if rt.truth(c) else b
        (ea, la, ha), (eb, lb, hb) = V.as_sym(a), V.as_sym(b)
        w = max(ea.size(), eb.size())
        return V.mkint(z3.If(c.e, V.fit(ea, w), V.fit(eb, w)), min(la, lb), max(ha, hb))

    def same(self, a, b):
        """same value and same type, floats bit for bit up to NaN payload"""
        return same(a, b)

    def concrete(self, v):
        """one value per path"""
        return rt.plain(v, 'harness')

    # -- environment
    def stub(self, modname, attrs):
        """replace attributes of a loaded module, as mock.patch would"""
        m = rt.WORLD.load(modname)
        for k in list(attrs):
            setattr(m, k, attrs[k])

    def provide(self, modname, attrs, path=None):
        """make a module importable for this path"""
        import types as T
        m = T.ModuleType(modname)
        for k in list(attrs):
            m.__dict__[k] = attrs[k]
        if path is not None:
            m.__path__ = path
        rt.WORLD.modules[modname] = m
        parent, _, leaf = modname.rpartition('.')
        if parent and rt.WORLD.modules._find(parent) is not None:
            setattr(rt.WORLD.modules[parent], leaf, m)
        return m

    def values(self, m):
        out = {}
        for name, kind, d in E.inputs:
            if kind == 'instant':
                out[name] = str(m.eval(d, True).as_long())
            elif kind == 'int':
                v = m.eval(d, True)
                out[name] = str(v.as_signed_long())
            elif kind in ('bytes', 'uni'):
                out[name] = [m.eval(x, True).as_long() for x in d]
            elif kind == 'bool':
                out[name] = z3.is_true(m.eval(d, True))
            elif kind == 'choice':
                out[name] = d
            elif kind == 'float':
                out[name] = '%016x' % m.eval(d, True).as_long()
        return out


def num(x):
    return type(x) in (int, SymInt)


def same(a, b, depth=0):
    if type(a) in (bool, SymBool) or type(b) in (bool, SymBool):
        if not (type(a) in (bool, SymBool) and type(b) in (bool, SymBool)):
            return False
        return rt.eq(a, b)
    if num(a) and num(b):
        return rt.eq(a, b)
    fa, fb = type(a) in (float, SymFloat), type(b) in (float, SymFloat)
    if fa and fb:
        if type(a) is float and type(b) is float:
            return canon(a) == canon(b)
        if type(a) is SymFloat and a.ival is not None and type(b) is SymFloat and b.ival is not None:
            return rt.eq(a.ival, b.ival)
        x, y = [V.SymFloat(bv=z3.BitVecVal(V.bits_of(v), 64)) if type(v) is float else v for v in (a, b)]
        return V.mkbool(z3.simplify(x.packed_bits() == y.packed_bits()))
    if V.is_strlike(a) and V.is_strlike(b):
        if V.is_uni(a) != V.is_uni(b):
            return False
        return rt.eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return V.and_(*[same(x, y, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, rt.PyDict) and isinstance(b, rt.PyDict):
        if len(a) != len(b):
            return False
        rs = []
        for k in list(a):
            if not rt.truth(rt.contains(k, b)):
                return False
            rs.append(same(rt.getitem(a, k), rt.getitem(b, k), depth + 1))
        return V.and_(*rs)
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    r = rt.eq(a, b)
    return r if type(r) is SymBool else rt.truth(r)
