"""Rewrites the fixed: lines of known_findings.txt from the fix: commits of /repo. Run by hand."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for l in '''0760388 C01
28048b2 C02
a93bd65 C03
a24ba7f C03
ff89f23 C06
ebc5923 C06
4b9c88b C22
c84e092 C04
ee2c926 C06
5920e44 C19
ff1b944 C08
eedbcc2 C19
53b975d C06
adcf6f2 C19
3fefe17 C04
3457526 C07
01187c8 C05
dbb9ee1 C05
992ea86 C09
53c5477 C05
7e1bee4 C10
c390a65 C08
dced689 C09
004f0b9 C08
ced992e C09
e638f46 C01
89611d0 C09
146607d C10
f490e5c C11
3f3f6a9 C11
d0a262b C12
4a1583b C12
beb0c5f C12
4d1967e C12
2b4959e C12
15e3fea C12
0eaa2b7 C12
b0c41cd C12
ec7fa0c C13
edb20c8 C14
0f15202 C15
8dd4611 C15
eac0d5e C14
dfdaad4 C16
1f20881 C16'''.splitlines():
    h, p = l.split()
    PROP[h] = p
extra = os.path.join(HERE, 'tools', 'fixed_extra.txt')
if os.path.exists(extra):
    for l in open(extra):
        h, p = l.split()
        PROP[h] = p
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, _, s = l.partition(' ')
    if s.startswith('fix:'):
        out.append('fixed: property=%s %s %s' % (PROP.get(h[:7], '?'), h, s[4:].strip()))
f = os.path.join(HERE, 'known_findings.txt')
keep = [l for l in open(f).read().splitlines() if not l.startswith('fixed:')]
open(f, 'w').write('\n'.join(keep + out) + '\n')
print([l for l in out if '=?' in l])
