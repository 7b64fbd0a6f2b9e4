"""Front end: parses the current sources with Jython's own parser and compiles them for the engine."""
import json
import warnings
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile
import world
import lower

warnings.simplefilter('ignore')
JAR = '/usr/share/java/jython.jar'
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Jy:
    """a Jython process: parses sources, replays concrete inputs on the real code"""

    def __init__(self):
        repo = world.REPO
        env = dict(os.environ)
        env.update(LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', HOME=env.get('HOME', '/root'),
                   JYTHONPATH='%s:/opt/pyamf-deps:%s' % (repo, HERE), VERIF_HARNESS=os.path.join(VERIF, 'harness'))
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            ['java', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-Xss4m', '-Xmx1500m', '-cp',
             JAR + ':/usr/share/java/xercesImpl.jar', '-Dpython.home=/usr/share/jython',
             '-Dpython.executable=/usr/share/jython/bin/jython', '-Dpython.cachedir.skip=true',
             'org.python.util.jython', '-B', os.path.join(HERE, 'jyserver.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def send(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b'\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError('jython died: %s' % self.err.read()[-2000:])
        return json.loads(line)

    def ask(self, req):
        self.send(req)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class SourceError(Exception):
    pass


class Front:
    def __init__(self, jy):
        self.jy = jy
        self.tmp = None
        self.jlib = set()
        with zipfile.ZipFile(JAR) as z:
            for n in z.namelist():
                if n.startswith('Lib/') and n.endswith('.py') and n.count('/') == 1:
                    self.jlib.add(n[4:-3])
        # standard library modules taken from Jython's own pure Python source
        self.from_jlib = {'datetime', 'calendar', 'urlparse', 'UserDict', 'textwrap', 'htmlentitydefs', 'contextlib', 'bisect', 'heapq', 'Queue'}
        world.SRC.find_all(world.REPO, 'pyamf')
        hd = os.path.join(VERIF, 'harness')
        for f in sorted(os.listdir(hd)):
            if f.endswith('.py'):
                world.SRC.paths[f[:-3]] = (os.path.join(hd, f), False)
        world.SRC.front = self
        self.parsed = []

    def compile(self, name):
        S = world.SRC
        if name in S.paths:
            path, is_pkg = S.paths[name]
        elif name in self.from_jlib:
            if self.tmp is None:
                self.tmp = tempfile.mkdtemp(prefix='verif-jlib-')
            with zipfile.ZipFile(JAR) as z:
                z.extract('Lib/%s.py' % name, self.tmp)
            path, is_pkg = os.path.join(self.tmp, 'Lib', name + '.py'), False
        else:
            return False
        r = self.jy.ask({'op': 'parse', 'path': path})
        if 'error' in r:
            raise SourceError('%s: %s' % (path, r['error']))
        js = r['ast']
        code, uc = lower.compile_module(js, name, path)
        S.code[name] = (code, uc, is_pkg, path, absimp(js))
        self.parsed.append(name)
        return True

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


def absimp(js):
    for st in js['body']:
        if st['_'] == 'ImportFrom' and lower.lit(st['module']) == '__future__':
            for a in st['names']:
                if lower.lit(a['name']) == 'absolute_import':
                    return True
    return False
