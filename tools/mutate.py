"""Systematic planting of small bugs, to find what the checks miss. Run by hand:
mutate.py gen N SEED OUT.json          picks N mutants of /repo/pyamf
mutate.py tests OUT.json JOBS          marks those that pass the stable tests
mutate.py checks OUT.json              runs the checks on them, most likely property first"""
import concurrent.futures
import io
import json
import os
import random
import re
import subprocess
import sys
import tokenize
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, ARGV = [sys.argv[0]], sys.argv
src = open(os.path.join(HERE, 'tools', 'plant.py')).read()
exec(src[:src.rindex('main()')])
PROPS = {'amf0.py': 'C04 C06 C08 C25 C22 C10 C11', 'amf3.py': 'C05 C07 C09 C01 C10 C25', 'codec.py': 'C25 C24 C06 C07 C10 C04',
         'alias.py': 'C18 C19 C04', '__init__.py': 'C19 C24 C18 C04', 'util/__init__.py': 'C11 C03 C24 C18', 'util/pure.py': 'C02 C03',
         'util/imports.py': 'C23', 'xml.py': 'C22 C05', 'sol.py': 'C20', 'python.py': 'C25 C18', 'remoting/__init__.py': 'C12 C17 C16',
         'remoting/amf0.py': 'C13 C14 C15', 'remoting/amf3.py': 'C14 C15 C13 C21', 'remoting/gateway/__init__.py': 'C13 C14 C15 C16',
         'remoting/gateway/wsgi.py': 'C16', 'remoting/gateway/django.py': 'C16', 'remoting/client/__init__.py': 'C17',
         'flex/__init__.py': 'C21 C09', 'flex/messaging.py': 'C21 C09', 'flex/data.py': 'C21 C19', 'adapters/__init__.py': 'C23 C24',
         'adapters/util.py': 'C24', 'adapters/_array.py': 'C24', 'adapters/_collections.py': 'C24', 'adapters/_decimal.py': 'C24',
         'adapters/_sets.py': 'C24', 'adapters/_weakref.py': 'C24'}
SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], 'and': ['or'], 'or': ['and'],
        'True': ['False'], 'False': ['True'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '+=': ['-='], '-=': ['+='],
        'break': ['continue'], 'continue': ['break'], 'is': ['=='], '%': [], 'not': ['']}


def mutants(f):
    text = open('/repo/pyamf/' + f).read()
    lines = text.splitlines(True)
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    # (start of statement, number of the line)
    first = {}
    prev = None
    for t in toks:
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT):
            continue
        if prev is None or prev.type == tokenize.NEWLINE:
            first[t.start[0]] = t
            start = t
        if t.type == tokenize.NEWLINE and start.start[0] == t.start[0]:
            l = lines[t.start[0] - 1]
            s = l.strip()
            if not re.match(r'(def|class|import|from|if|else|elif|try|except|finally|for|while|with|@|pass|"|\'|__all__)', s):
                out.append((t.start[0], l, l[:len(l) - len(l.lstrip())] + 'pass\n', 'delete'))
            m = re.match(r'(\s*)(if|elif|while) (.*):\n$', l)
            if m:
                for c in ('True', 'False'):
                    if m.group(2) != 'while' or c == 'False':
                        out.append((t.start[0], l, '%s%s %s:\n' % (m.group(1), m.group(2), c), 'condition'))
        prev = t
        rep = []
        if t.string in SWAP and t.type in (tokenize.OP, tokenize.NAME):
            rep = SWAP[t.string]
            if t.string == 'is':
                continue
            if t.string in '+-' and lines[t.start[0] - 1][:t.start[1]].rstrip()[-1:] in '(,=[:':
                rep = []
        elif t.type == tokenize.NUMBER and re.match(r'^(\d+|0x[0-9a-fA-F]+)$', t.string):
            rep = [str(int(t.string, 0) + 1)]
            if int(t.string, 0):
                rep.append(str(int(t.string, 0) - 1))
        for r in rep:
            l = lines[t.start[0] - 1]
            out.append((t.start[0], l, l[:t.start[1]] + r + l[t.end[1]:], t.string + ' -> ' + r))
    return [(f,) + m for m in out if m[1] != m[2]]


def gen(n, seed, path):
    pool = []
    for f in PROPS:
        pool += mutants(f)
    random.seed(seed)
    random.shuffle(pool)
    print(len(pool))
    json.dump([{'m': m} for m in pool[:n]], open(path, 'w'), indent=0)


def apply(w, m):
    f, n, old, new, what = m
    p = '%s/pyamf/%s' % (w, f)
    lines = open(p).read().splitlines(True)
    assert lines[n - 1] == old
    lines[n - 1] = new
    open(p, 'w').write(''.join(lines))


def one(i, m, base):
    w = copy('mut%d' % i)
    try:
        apply(w, m)
        try:
            return sorted(base - tests(w))[:3]
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return ['timeout']
    finally:
        sh('rm -rf %s' % w)


def run_tests(path, jobs):
    ms = json.load(open(path))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fs = [(x, ex.submit(one, i, x['m'], base)) for i, x in enumerate(ms) if 'tests' not in x]
        for k, (x, f) in enumerate(fs):
            x['tests'] = f.result()
            if k % 10 == 0:
                json.dump(ms, open(path, 'w'), indent=0)
    json.dump(ms, open(path, 'w'), indent=0)
    print('%d of %d pass the tests' % (len([x for x in ms if not x['tests']]), len(ms)))


def run_checks(path):
    ms = json.load(open(path))
    for i, x in enumerate(ms):
        if x.get('tests') != [] or 'caught' in x:
            continue
        w = copy('chk')
        try:
            apply(w, x['m'])
            x['caught'] = None
            x['rc'] = {}
            for p in PROPS[x['m'][0]].split()[:5]:
                r = sh('cd %s && timeout 900 python3-vt check.py %s' % (HERE, p), env=dict(os.environ, VERIF_REPO=w))
                x['rc'][p] = r.returncode
                if r.returncode == 1:
                    x['caught'] = p
                    break
                if r.returncode == 2:
                    x['err'] = (r.stdout + r.stderr)[-600:]
        finally:
            sh('rm -rf %s' % w)
        print('%d %s' % (i, x['caught'] or 'MISSED'), x['m'][0], x['m'][1], repr(x['m'][2].strip()), '->', repr(x['m'][3].strip()), x['rc'])
        sys.stdout.flush()
        json.dump(ms, open(path, 'w'), indent=0)


if ARGV[1] == 'gen':
    gen(int(ARGV[2]), int(ARGV[3]), ARGV[4])
elif ARGV[1] == 'tests':
    run_tests(ARGV[2], int(ARGV[3]))
else:
    run_checks(ARGV[2])
