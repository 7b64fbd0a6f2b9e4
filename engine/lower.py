"""Lower a Python 2 AST (JSON, produced by Jython's ast module) to a Python 3 AST
whose operations go through the runtime (rt.py)."""
import ast as A

RT = '_rt_'


def name(n, ctx=None):
    return A.Name(id=n, ctx=ctx or A.Load())


def const(v):
    return A.Constant(value=v)


def call(fn, *args, **kw):
    return A.Call(func=name(RT + fn), args=list(args),
                  keywords=[A.keyword(arg=k, value=v) for k, v in kw.items()])


class LowerError(Exception):
    pass


BIN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'Mod': 'mod',
       'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'BitOr': 'bor',
       'BitXor': 'bxor', 'BitAnd': 'band', 'FloorDiv': 'floordiv'}
CMP = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt',
       'GtE': 'ge', 'In': 'contains', 'NotIn': 'notcontains', 'Is': 'is_', 'IsNot': 'isnot'}
PY3_SOFT = ('True', 'False', 'None')


def lit(x):
    """decode a literal from the JSON dump"""
    if isinstance(x, dict):
        if '$s' in x:
            s = x['$s']
            return s if isinstance(s, str) else ''.join(map(chr, s))
        if '$i' in x:
            return int(x['$i'])
        if '$f' in x:
            return float(x['$f'])
        if '$c' in x:
            return complex(x['$c'])
        if '$u' in x:
            return x['$u']
    return x


class Lower:
    def __init__(self, modname, filename):
        self.modname = modname
        self.filename = filename
        self.uconsts = {}
        self.cls = []      # stack of class names for mangling (None in nothing)
        self.fn = []       # qualified function names
        self.ntmp = 0
        self.future_div = False
        self.future_unicode = False
        self.line = 1

    # -- helpers
    def tmp(self):
        self.ntmp += 1
        return '_rtt%d' % self.ntmp

    def uconst(self, v):
        n = self.uconsts.get(v)
        if n is None:
            n = self.uconsts[v] = '_rtu%d' % len(self.uconsts)
        return n

    def mangle(self, n):
        if n.startswith('__') and not n.endswith('__') and self.cls and self.cls[-1]:
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, n)
        return n

    def id(self, n):
        return n

    def module(self, d):
        body = self.stmts(d['body'], top=True)
        doc = None
        if d['body'] and d['body'][0]['_'] == 'Expr' and d['body'][0]['value']['_'] == 'Str':
            pass
        m = A.Module(body=body, type_ignores=[])
        A.fix_missing_locations(m)
        return m

    def stmts(self, l, top=False):
        out = []
        for s in l:
            r = self.stmt(s)
            for x in r:
                if not hasattr(x, 'lineno'):
                    A.copy_location(x, x)
                self.setline(x, s.get('L', 1))
            out.extend(r)
        return out or [A.Pass()]

    def setline(self, node, line):
        for n in A.walk(node):
            if isinstance(n, (A.expr, A.stmt, A.excepthandler, A.arg, A.keyword, A.alias)):
                if not hasattr(n, 'lineno'):
                    n.lineno = n.end_lineno = line
                    n.col_offset = n.end_col_offset = 0

    # -- statements
    def stmt(self, d):
        m = getattr(self, 's_' + d['_'], None)
        if m is None:
            raise LowerError('statement %s at %s:%s' % (d['_'], self.filename, d.get('L')))
        r = m(d)
        return r if isinstance(r, list) else [r]

    def s_Expr(self, d):
        v = d['value']
        if v['_'] == 'Str':
            s = v['s']
            if '$u' in s:
                return A.Expr(value=const('')) if False else A.Pass()
            return A.Expr(value=const(lit(s)))
        return A.Expr(value=self.expr(v))

    def s_Pass(self, d):
        return A.Pass()

    def s_Break(self, d):
        return A.Break()

    def s_Continue(self, d):
        return A.Continue()

    def s_Global(self, d):
        return A.Global(names=[lit(n) for n in d['names']])

    def s_Return(self, d):
        return A.Return(value=self.expr(d['value']) if d['value'] else None)

    def s_Assign(self, d):
        val = self.expr(d['value'])
        tg = d['targets']
        if len(tg) == 1:
            return self.assign(tg[0], val)
        t = self.tmp()
        out = [A.Assign(targets=[name(t, A.Store())], value=val)]
        for x in tg:
            out.extend(self.assign(x, name(t)))
        return out

    def has_special_target(self, t):
        k = t['_']
        if k in ('Tuple', 'List'):
            return any(self.has_special_target(e) for e in t['elts'])
        if k == 'Subscript':
            return True
        return k == 'Attribute'

    def assign(self, t, val):
        k = t['_']
        if k == 'Name':
            return [A.Assign(targets=[name(self.id(lit(t['id'])), A.Store())], value=val)]
        if k in ('Tuple', 'List'):
            tmps = [self.tmp() for _ in t['elts']]
            out = [A.Assign(targets=[A.Tuple(elts=[name(x, A.Store()) for x in tmps], ctx=A.Store())],
                            value=call('unpack', val, const(len(tmps))))]
            for x, e in zip(tmps, t['elts']):
                out.extend(self.assign(e, name(x)))
            return out
        if k == 'Attribute':
            return [A.Expr(value=call('setattr', self.expr(t['value']),
                                      const(self.mangle(lit(t['attr']))), val))]
        if k == 'Subscript':
            # value is evaluated first in Python; keep that order
            v = self.tmp()
            return [A.Assign(targets=[name(v, A.Store())], value=val),
                    A.Expr(value=call('setitem', self.expr(t['value']), self.index(t['slice']), name(v)))]
        raise LowerError('assign target %s' % k)

    def s_AugAssign(self, d):
        t = d['target']
        op = d['op']['_']
        fn = 'i' + BIN[op]
        val = self.expr(d['value'])
        k = t['_']
        if k == 'Name':
            n = self.id(lit(t['id']))
            return A.Assign(targets=[name(n, A.Store())], value=call(fn, name(n), val))
        if k == 'Attribute':
            o = self.tmp()
            at = const(self.mangle(lit(t['attr'])))
            return [A.Assign(targets=[name(o, A.Store())], value=self.expr(t['value'])),
                    A.Expr(value=call('setattr', name(o), at, call(fn, call('getattr', name(o), at), val)))]
        if k == 'Subscript':
            o, i = self.tmp(), self.tmp()
            return [A.Assign(targets=[name(o, A.Store())], value=self.expr(t['value'])),
                    A.Assign(targets=[name(i, A.Store())], value=self.index(t['slice'])),
                    A.Expr(value=call('setitem', name(o), name(i),
                                      call(fn, call('getitem', name(o), name(i)), val)))]
        raise LowerError('augassign target %s' % k)

    def s_Delete(self, d):
        out = []
        for t in d['targets']:
            out.extend(self.delete(t))
        return out

    def delete(self, t):
        k = t['_']
        if k == 'Name':
            return [A.Delete(targets=[name(lit(t['id']), A.Del())])]
        if k == 'Attribute':
            return [A.Expr(value=call('delattr', self.expr(t['value']), const(self.mangle(lit(t['attr'])))))]
        if k == 'Subscript':
            return [A.Expr(value=call('delitem', self.expr(t['value']), self.index(t['slice'])))]
        if k in ('Tuple', 'List'):
            out = []
            for e in t['elts']:
                out.extend(self.delete(e))
            return out
        raise LowerError('del target %s' % k)

    def s_Print(self, d):
        return A.Expr(value=call('print', A.List(elts=[self.expr(v) for v in d['values']], ctx=A.Load())))

    def s_Exec(self, d):
        return A.Expr(value=call('unsupported', const('exec')))

    def s_Assert(self, d):
        return A.If(test=A.UnaryOp(op=A.Not(), operand=self.expr(d['test'])),
                    body=[A.Raise(exc=A.Call(func=name('AssertionError'),
                                             args=[self.expr(d['msg'])] if d['msg'] else [], keywords=[]), cause=None)],
                    orelse=[])

    def s_Raise(self, d):
        if not d['type']:
            return A.Raise(exc=None, cause=None)
        args = [self.expr(d['type'])]
        if d['inst']:
            args.append(self.expr(d['inst']))
        return A.Raise(exc=call('mkexc', *args), cause=None)

    def s_If(self, d):
        return A.If(test=self.expr(d['test']), body=self.stmts(d['body']),
                    orelse=self.stmts(d['orelse']) if d['orelse'] else [])

    def tick(self):
        return A.Expr(value=call('tick'))

    def s_While(self, d):
        return A.While(test=self.expr(d['test']), body=[self.tick()] + self.stmts(d['body']),
                       orelse=self.stmts(d['orelse']) if d['orelse'] else [])

    def s_For(self, d):
        t = d['target']
        it = call('iter', self.expr(d['iter']))
        body = self.stmts(d['body'])
        if t['_'] == 'Name':
            tgt = name(self.id(lit(t['id'])), A.Store())
        else:
            v = self.tmp()
            tgt = name(v, A.Store())
            body = self.assign(t, name(v)) + body
        return A.For(target=tgt, iter=it, body=[self.tick()] + body,
                     orelse=self.stmts(d['orelse']) if d['orelse'] else [])

    def s_With(self, d):
        ov = d.get('optional_vars')
        if ov and ov['_'] != 'Name':
            v = self.tmp()
            return A.With(items=[A.withitem(context_expr=self.expr(d['context_expr']),
                                            optional_vars=name(v, A.Store()))],
                          body=self.assign(ov, name(v)) + self.stmts(d['body']))
        return A.With(items=[A.withitem(context_expr=self.expr(d['context_expr']),
                                        optional_vars=name(lit(ov['id']), A.Store()) if ov else None)],
                      body=self.stmts(d['body']))

    def s_TryExcept(self, d):
        hs = [A.ExceptHandler(type=name(RT + 'Ctl'), name=None, body=[A.Raise(exc=None, cause=None)])]
        for h in d['handlers']:
            body = self.stmts(h['body'])
            e = self.tmp()
            pre = [A.Expr(value=call('caught', name(e)))]
            if h['name']:
                pre += self.assign(h['name'], name(e))
            ty = call('exctype', self.expr(h['type'])) if h['type'] else name('BaseException')
            hs.append(A.ExceptHandler(type=ty, name=e, body=pre + body))
        return A.Try(body=self.stmts(d['body']), handlers=hs,
                     orelse=self.stmts(d['orelse']) if d['orelse'] else [], finalbody=[])

    def s_TryFinally(self, d):
        return A.Try(body=self.stmts(d['body']), handlers=[], orelse=[], finalbody=self.stmts(d['finalbody']))

    def s_Import(self, d):
        out = []
        for a in d['names']:
            n = lit(a['name'])
            asn = lit(a['asname'])
            v = call('import', name('__name__'), name('_rt_pkg'), const(n), const(bool(asn)))
            out.append(A.Assign(targets=[name(asn or n.split('.')[0], A.Store())], value=v))
        return out

    def s_ImportFrom(self, d):
        out = []
        mod = lit(d['module']) or ''
        level = lit(d['level']) or 0
        if mod == '__future__':
            for a in d['names']:
                if lit(a['name']) == 'division':
                    self.future_div = True
                if lit(a['name']) == 'unicode_literals':
                    self.future_unicode = True
            return [A.Pass()]
        for a in d['names']:
            n = lit(a['name'])
            if n == '*':
                out.append(A.Expr(value=call('importstar', name('__name__'), name('_rt_pkg'), const(mod), const(level),
                                             A.Call(func=name('globals'), args=[], keywords=[]))))
                continue
            v = call('importfrom', name('__name__'), name('_rt_pkg'), const(mod), const(n), const(level))
            out.append(A.Assign(targets=[name(lit(a['asname']) or n, A.Store())], value=v))
        return out

    def args(self, a):
        pre = []
        args = []
        for x in a['args']:
            if x['_'] == 'Name':
                args.append(A.arg(arg=lit(x['id'])))
            else:
                v = self.tmp()
                args.append(A.arg(arg=v))
                pre.extend(self.assign(x, name(v)))
        va = lit(a['vararg'])
        ka = lit(a['kwarg'])
        if ka:
            pre.append(A.Assign(targets=[name(ka, A.Store())], value=call('kwdict', name(ka))))
        r = A.arguments(posonlyargs=[], args=args, vararg=A.arg(arg=va) if va else None,
                        kwonlyargs=[], kw_defaults=[], kwarg=A.arg(arg=ka) if ka else None,
                        defaults=[self.expr(e) for e in a['defaults']])
        return r, pre

    def s_FunctionDef(self, d):
        n = lit(d['name'])
        decos = [self.expr(x) for x in d['decorator_list']]
        args, pre = self.args(d['args'])
        self.fn.append(n)
        qual = self.modname + '.' + '.'.join(self.fn)
        self.cls.append(self.cls[-1] if self.cls else None)
        body = d['body']
        doc = []
        if body and body[0]['_'] == 'Expr' and body[0]['value']['_'] == 'Str':
            if '$s' in body[0]['value']['s']:
                doc = [A.Expr(value=const(lit(body[0]['value']['s'])))]
            body = body[1:]
        outer, self.has_yield = getattr(self, 'has_yield', False), False
        b = self.stmts(body) if body else []
        if self.has_yield:
            # StopIteration ends a generator of Python 2
            b = [A.Try(body=b, handlers=[A.ExceptHandler(type=name('StopIteration'), name=None, body=[A.Return(value=None)])],
                       orelse=[], finalbody=[])]
        self.has_yield = outer
        b = doc + [A.Expr(value=call('enter', const(qual)))] + pre + b
        self.cls.pop()
        self.fn.pop()
        return A.FunctionDef(name=self.id(n), args=args, body=b, decorator_list=decos, returns=None,
                             type_comment=None, type_params=[])

    def s_ClassDef(self, d):
        n = lit(d['name'])
        bases = [self.expr(b) for b in d['bases']]
        decos = [self.expr(x) for x in (d.get('decorator_list') or [])]
        self.cls.append(n)
        self.fn.append(n)
        body = self.stmts(d['body'])
        self.fn.pop()
        self.cls.pop()
        return A.ClassDef(name=n, bases=bases, keywords=[], body=body, decorator_list=decos, type_params=[])

    # -- expressions
    def expr(self, d):
        m = getattr(self, 'e_' + d['_'], None)
        if m is None:
            raise LowerError('expression %s at %s:%s' % (d['_'], self.filename, d.get('L')))
        r = m(d)
        if 'L' in d:
            self.setline(r, d['L'])
        return r

    def e_Num(self, d):
        v = lit(d['n'])
        if isinstance(v, (int, float)) and (v < 0):
            return A.UnaryOp(op=A.USub(), operand=const(-v))
        if isinstance(v, float) and v != v:
            return call('nan')
        return const(v)

    def e_Str(self, d):
        s = d['s']
        if '$u' in s:
            return name(self.uconst(s['$u']))
        v = lit(s)
        if self.future_unicode:
            return name(self.uconst(v))
        return const(v)

    def e_Name(self, d):
        n = lit(d['id'])
        if n in PY3_SOFT:
            return const({'True': True, 'False': False, 'None': None}[n])
        return name(self.id(n))

    def e_Attribute(self, d):
        return call('getattr', self.expr(d['value']), const(self.mangle(lit(d['attr']))))

    def index(self, s):
        k = s['_']
        if k == 'Index':
            return self.expr(s['value'])
        if k == 'Slice':
            return call('slice', *[self.expr(s[x]) if s[x] else const(None) for x in ('lower', 'upper', 'step')])
        if k == 'ExtSlice':
            return A.Tuple(elts=[self.index(x) for x in s['dims']], ctx=A.Load())
        if k == 'Ellipsis':
            return const(Ellipsis)
        return self.expr(s)

    def e_Subscript(self, d):
        return call('getitem', self.expr(d['value']), self.index(d['slice']))

    def e_BinOp(self, d):
        op = d['op']['_']
        fn = BIN[op]
        if op == 'Div' and self.future_div:
            fn = 'truediv'
        return call(fn, self.expr(d['left']), self.expr(d['right']))

    def e_UnaryOp(self, d):
        op = d['op']['_']
        v = self.expr(d['operand'])
        if op == 'Not':
            return A.UnaryOp(op=A.Not(), operand=v)
        return A.UnaryOp(op={'USub': A.USub, 'UAdd': A.UAdd, 'Invert': A.Invert}[op](), operand=v)

    def e_BoolOp(self, d):
        return A.BoolOp(op=A.And() if d['op']['_'] == 'And' else A.Or(), values=[self.expr(v) for v in d['values']])

    def lam(self, e):
        return A.Lambda(args=A.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                                         kwarg=None, defaults=[]), body=e)

    def e_Compare(self, d):
        ops = [CMP[o['_']] for o in d['ops']]
        if len(ops) == 1:
            l = self.expr(d['left'])
            r = self.expr(d['comparators'][0])
            if ops[0] in ('is_', 'isnot') and any(isinstance(x, A.Constant) and x.value is None for x in (l, r)):
                return A.Compare(left=l, ops=[A.Is() if ops[0] == 'is_' else A.IsNot()], comparators=[r])
            return call(ops[0], l, r)
        return call('chain', self.expr(d['left']),
                    A.List(elts=[const(o) for o in ops], ctx=A.Load()),
                    *[self.lam(self.expr(c)) for c in d['comparators']])

    def e_Call(self, d):
        args = [self.expr(a) for a in d['args']]
        kws = [A.keyword(arg=lit(k['arg']), value=self.expr(k['value'])) for k in d['keywords']]
        if d.get('starargs'):
            args.append(A.Starred(value=call('starargs', self.expr(d['starargs'])), ctx=A.Load()))
        if d.get('kwargs'):
            kws.append(A.keyword(arg=None, value=call('starkw', self.expr(d['kwargs']))))
        f = d['func']
        if f['_'] == 'Name' and lit(f['id']) in ('locals', 'globals', 'super'):
            return A.Call(func=name(lit(f['id'])), args=args, keywords=kws)
        return A.Call(func=name(RT + 'call'), args=[self.expr(f)] + args, keywords=kws)

    def e_Tuple(self, d):
        return A.Tuple(elts=[self.expr(e) for e in d['elts']], ctx=A.Load())

    def e_List(self, d):
        return A.List(elts=[self.expr(e) for e in d['elts']], ctx=A.Load())

    def e_Set(self, d):
        return call('mkset', A.List(elts=[self.expr(e) for e in d['elts']], ctx=A.Load()))

    def e_Dict(self, d):
        return call('mkdict', A.List(elts=[A.Tuple(elts=[self.expr(k), self.expr(v)], ctx=A.Load())
                                           for k, v in zip(d['keys'], d['values'])], ctx=A.Load()))

    def e_IfExp(self, d):
        return A.IfExp(test=self.expr(d['test']), body=self.expr(d['body']), orelse=self.expr(d['orelse']))

    def e_Repr(self, d):
        return call('repr', self.expr(d['value']))

    def e_Yield(self, d):
        self.has_yield = True
        return A.Yield(value=self.expr(d['value']) if d['value'] else None)

    def e_Lambda(self, d):
        args, pre = self.args(d['args'])
        body = self.expr(d['body'])
        if pre:
            # tuple parameters / **kw: bind through nested lambdas
            for p in reversed(pre):
                if isinstance(p, A.Assign) and isinstance(p.targets[0], A.Name):
                    body = A.Call(func=A.Lambda(args=A.arguments(posonlyargs=[], args=[A.arg(arg=p.targets[0].id)],
                                                                 vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                                                                 defaults=[]), body=body), args=[p.value], keywords=[])
                elif isinstance(p, A.Assign) and isinstance(p.targets[0], A.Tuple):
                    body = A.Call(func=A.Lambda(args=A.arguments(posonlyargs=[], args=[A.arg(arg=x.id) for x in p.targets[0].elts],
                                                                 vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                                                                 defaults=[]), body=body),
                                  args=[A.Starred(value=p.value, ctx=A.Load())], keywords=[])
                else:
                    raise LowerError('lambda parameter')
        return A.Lambda(args=args, body=body)

    def comp_target(self, t):
        if t['_'] == 'Name':
            return name(lit(t['id']), A.Store())
        if t['_'] in ('Tuple', 'List'):
            return A.Tuple(elts=[self.comp_target(e) for e in t['elts']], ctx=A.Store())
        raise LowerError('comprehension target')

    def gens(self, l):
        return [A.comprehension(target=self.comp_target(g['target']), iter=call('iter', self.expr(g['iter'])),
                                ifs=[self.expr(i) for i in g['ifs']], is_async=0) for g in l]

    def e_ListComp(self, d):
        return A.ListComp(elt=self.expr(d['elt']), generators=self.gens(d['generators']))

    def e_GeneratorExp(self, d):
        return A.GeneratorExp(elt=self.expr(d['elt']), generators=self.gens(d['generators']))

    def e_SetComp(self, d):
        return call('mkset', A.ListComp(elt=self.expr(d['elt']), generators=self.gens(d['generators'])))

    def e_DictComp(self, d):
        return call('mkdict', A.ListComp(elt=A.Tuple(elts=[self.expr(d['key']), self.expr(d['value'])], ctx=A.Load()),
                                         generators=self.gens(d['generators'])))


def compile_module(js, modname, filename):
    """-> (code object, {unicode constant name: text})"""
    lo = Lower(modname, filename)
    m = lo.module(js)
    return compile(m, filename, 'exec'), {n: v for v, n in lo.uconsts.items()}
