"""Plants bugs for testing the checks. Run by hand: plant.py DEFS [NAME...]; DEFS defines SEEDS = [(name, property, [(file, old, new)...],
demo source, needs, breaks)]. Confirms each one in a scratch copy of /repo (changes lines of the original only, tests pass, demonstration
passes without and fails with it), writes seeded/<name>/ and says whether the property's quick check notices. Options: --confirm (only
confirm), --check (only run the checks of the seeds already kept)."""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '4e9f6c4'
JY = ('java -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython '
      '-Dpython.executable=/usr/share/jython/bin/jython -Dpython.cachedir.skip=true org.python.util.jython -B ')
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; run with cwd /repo after the build
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/lib/env.sh
jy "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy(name):
    w = '/tmp/plant_' + name
    sh('rm -rf %s; cp -a /repo %s' % (w, w))
    return w


def env(w):
    return dict(os.environ, LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', JYTHONPATH='%s:/opt/pyamf-deps' % w)


def tests(w):
    src = open('/opt/vp/lib/run_tests.py').read().replace('/repo', w)
    open(w + '.run.py', 'w').write(src)
    sh(JY + '%s.run.py %s.txt </dev/null' % (w, w), cwd=w, env=env(w), timeout=900)
    sh('/usr/bin/python3 /opt/vp/results.py %s.json "lines:%s.txt"' % (w, w))
    passed = set(json.load(open(w + '.json'))['passed'])
    sh('rm -f %s.json %s.txt %s.run.py' % (w, w, w))
    return passed


def foreign(w, diff):
    """Changed lines that are not lines of the original repository."""
    bad = []
    f = None
    for l in diff.splitlines():
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1)
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if f is None or l.startswith('+++'):
            continue
        if l.startswith('-'):
            r = sh('git -C /repo blame -s -L%d,%d %s..HEAD -- %s' % (n, n, BASE, f)).stdout
            if not r.startswith('^'):
                bad.append(l)
        if not l.startswith('+'):
            n += 1
    return bad


def confirm(seed):
    name, prop, edits, demo, needs, breaks = seed
    d = os.path.join(HERE, 'seeded', name)
    w = copy(name)
    out = []
    try:
        demo = demo.lstrip('\n')
        open(w + '.demo.py', 'w').write(demo)
        r = sh(JY + w + '.demo.py', cwd=w, env=env(w), timeout=300)
        if r.returncode:
            out.append('DEMO FAILS ON THE UNCHANGED TREE ' + r.stdout[-300:] + r.stderr[-900:])
        for f, old, new in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return name, ['%d places: %s' % (t.count(old), old)]
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % w).stdout
        bad = foreign(w, diff)
        if bad:
            out.append('NOT ORIGINAL LINES ' + repr(bad))
        r = sh(JY + w + '.demo.py', cwd=w, env=env(w), timeout=300)
        if not r.returncode:
            out.append('DEMO PASSES WITH THE PATCH ' + r.stdout[-300:])
        tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        broken = sorted(base - tests(w))
        if broken:
            out.append('BREAKS TESTS %d %r' % (len(broken), broken[:4]))
        if not out:
            os.makedirs(d, exist_ok=True)
            open(d + '/demo.py', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
            return name, ['ok', tail]
        return name, out
    finally:
        sh('rm -rf %s %s.demo.py' % (w, w))


def check(name, tier='quick'):
    d = os.path.join(HERE, 'seeded', name)
    prop = json.load(open(d + '/meta.json'))['property']
    w = copy(name)
    try:
        r = sh('git -C %s apply %s/patch.diff' % (w, d))
        assert not r.returncode, r.stderr
        r = sh('cd %s && timeout 900 python3-vt check.py %s --tier %s' % (HERE, prop, tier), env=dict(os.environ, VERIF_REPO=w))
        print(name, prop, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode,
              [l for l in r.stdout.splitlines() if l.startswith('*')][:1])
        sys.stdout.flush()
    finally:
        sh('rm -rf %s' % w)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ns = {}
    exec(open(args[0]).read(), ns)
    seeds = [s for s in ns['SEEDS'] if len(args) == 1 or s[0] in args[1:]]
    good = [s[0] for s in seeds]
    if '--check' not in sys.argv:
        good = []
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", 6))) as ex:
            for name, out in ex.map(confirm, seeds):
                print(name, *out)
                sys.stdout.flush()
                if out[0] == 'ok':
                    good.append(name)
    if '--confirm' not in sys.argv:
        for name in good:
            check(name)


main()
