"""Writes MANIFEST.json from the harness files present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'N01': 'The Cython extensions cannot be compiled and loaded here (the only interpreter that runs the project is Jython), '
           'so no counterexample could be replayed and no symbolic executor for .pyx is within reach.',
    'N04': 'The engine executes one thread; interleavings at byte-code granularity of interpreter-level dictionaries are '
           'outside its encoding, and the code has no locks or atomic steps to model at a coarser grain.',
}
NOTE = ('Bounded: holds for every input within the bounds stated in the evidence file (symbolic execution of the current '
        'source, z3 decides every branch and assertion); nothing is claimed outside them. Trusted: the lowering of Python 2 '
        'to the engine, the models of the standard library in engine/stubs.py, z3; path witnesses are replayed on the real '
        'code under Jython and every violation is reproduced there before it is reported.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'h_%s.py' % i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the current Python source with z3 (path exploration, solver-'
                                    'decided branches and assertions), counterexamples replayed under Jython',
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks,
     'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
