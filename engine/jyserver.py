# Runs under Jython 2.7.  Two services over stdin/stdout, one JSON object per line:
#   {"op": "parse", "path": p, "name": n}      -> {"ast": ...}
#   {"op": "run", "file": f, "case": c, "values": [...]} -> outcome of a harness on the real code
import sys
import json
import ast
import os

_out = os.fdopen(os.dup(1), 'w') if hasattr(os, 'dup') and False else sys.stdout


def dump(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = dump(getattr(n, f, None))
        if hasattr(n, 'lineno') and n.lineno is not None:
            d['L'] = n.lineno
        return d
    if isinstance(n, (list, tuple)):
        return [dump(x) for x in n]
    if n is None or n is True or n is False:
        return n
    if isinstance(n, unicode):
        return {'$u': n}
    if isinstance(n, str):
        return {'$s': [ord(c) for c in n]} if any(ord(c) > 126 for c in n) else {'$s': n}
    if isinstance(n, (int, long)):
        return {'$i': str(n)}
    if isinstance(n, float):
        return {'$f': repr(n)}
    if isinstance(n, complex):
        return {'$c': repr(n)}
    if str(type(n)).endswith("DictComp'>"):
        # this node is not exposed to Python
        from java.beans import Expression
        d = {'_': 'DictComp', 'L': Expression(n, 'getLineno', []).getValue()}
        for f, g in (('key', 'getInternalKey'), ('value', 'getInternalValue'), ('generators', 'getInternalGenerators')):
            d[f] = dump(Expression(n, g, []).getValue())
        return d
    # Jython wraps some values (java.util.List etc.)
    try:
        return [dump(x) for x in n]
    except TypeError:
        return {'$s': str(n)}


def parse(path):
    f = open(path, 'rb')
    src = f.read()
    f.close()
    src = src.replace('\r\n', '\n')
    return dump(ast.parse(src + '\n', path))


def main():
    import traceback
    for line in iter(sys.stdin.readline, ''):
        try:
            req = json.loads(line)
            if req['op'] == 'parse':
                res = {'ast': parse(req['path'])}
            elif req['op'] == 'quit':
                break
            else:
                import jyreplay
                res = jyreplay.handle(req)
        except SyntaxError, e:
            res = {'error': 'SyntaxError: %s' % (e,)}
        except Exception, e:
            res = {'error': traceback.format_exc()}
        sys.__stdout__.write(json.dumps(res) + '\n')
        sys.__stdout__.flush()


if __name__ == '__main__':
    main()
