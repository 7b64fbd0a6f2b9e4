"""One check: explore the harness of a property, replay, report, write the evidence."""
import argparse
import json
import os
import re
import sys
import time
import world
import front
import explore
import rt
import stubs
from core import E

VERIF = front.VERIF


def known_findings(pid):
    """ids listed for this property, and their text"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a)
    t0 = time.time()
    quick = a.tier != 'thorough'
    budget = a.budget or (75 if quick else 600)
    module = 'h_' + a.pid.lower()
    known = known_findings(a.pid)
    jy = front.Jy()
    fr = front.Front(jy)
    try:
        # load everything once so that workers inherit the compiled modules
        E.reset_path([])
        w = world.new_world()
        try:
            hm = w.load(module)
        except front.SourceError as e:
            print('cannot parse: %s' % e)
            return 2
        meta = hm.__dict__
        if meta.get('MODELS'):
            import reals
            for n in meta['MODELS']:
                world.OVER[str(n)] = reals.MODELS[n]
            E.reset_path([])
            w = world.new_world()
            meta = w.load(module).__dict__
        for n in meta.get('PRELOAD', ()):
            w.load(n)
        cases = [n for n in meta if n.startswith('t_') and (not a.case or n in a.case.split(','))]
        texts = {n: (getattr(meta[n], '__doc__', None) or '').strip() for n in cases}
        bounds = meta.get('BOUNDS', '')
        assumptions = [str(x) for x in meta.get('ASSUMPTIONS', [])]
        must = {n: list(meta.get('REACH', {}).get(n, ())) for n in cases} if 'REACH' in meta else {}
        t_load = time.time() - t0
        rp = explore.Replayer(module, quick, known, meta.get('MAXWIT', 40) if quick else 250, front.Jy)
        run = explore.Run(module, cases, quick, set(known), a.seed, max(10, budget - t_load), a.jobs, rp,
                          limit=20 if quick else 60, rate=0.02)
        run.go()
        rp.finish(time.time() + (25 if quick else 120))
        return report(a, t0, quick, run, rp, cases, texts, bounds, assumptions, known, fr, must)
    finally:
        jy.close()
        fr.close()


def report(a, t0, quick, run, rp, cases, texts, bounds, assumptions, known, fr, must):
    st = run.stats
    pid = a.pid
    errors = []
    tot = {}
    for c in run.cases.values():
        for k, v in c.ends.items():
            tot[k] = tot.get(k, 0) + v
    good = tot.get('ok', 0) + tot.get('cut', 0) + tot.get('cex', 0) + tot.get('exc', 0)
    bad = tot.get('unsupported', 0) + tot.get('inconclusive', 0)
    for c in run.cases.values():
        n_ok = c.ends.get('ok', 0)
        if not n_ok and not rp.confirmed and not c.regions:
            errors.append('case %s: no path reached its end (%s %s)' % (c.name, c.ends, list(c.details.items())[:3]))
        cb = c.ends.get('unsupported', 0) + c.ends.get('inconclusive', 0)
        if cb > n_ok:
            errors.append('case %s: %d of %d paths could not be decided: %s' % (c.name, cb, c.paths, c.details))
        for r in must.get(c.name, ()):
            if r not in c.reached and not c.left:
                errors.append('case %s: never reached %r' % (c.name, r))
    errors.extend(run.crashes)
    if rp.error:
        errors.append('replay: %s' % rp.error)
    for f in rp.failed[:5]:
        errors.append('counterexample not reproduced by the real code: %s %s %s\n%s' % (
            f['case'], f['label'], json.dumps(f['values']), f['detail']))
    for f in rp.mismatch[:5]:
        errors.append('encoding and real code differ: %s %s\n  real   %s\n  engine %s' % (
            f['case'], json.dumps(f['values']), f['real'], f['engine']))
    cov = {
        'states': st.paths, 'transitions': st.branches, 'traces_validated_against_impl': rp.validated,
        'samples': rp.samples[:8] or [{'none': 'no witness replayed'}],
        'exhaustive': not run.timed_out and not bad,
        'explanation': 'states = execution paths of the harness over the current sources; transitions = symbolic branch '
                       'decisions; each path stands for all inputs of its path condition; traces = path witnesses '
                       'replayed on the real code under Jython with identical observations',
        'queries': st.queries, 'sat': st.sat, 'unsat': st.unsat, 'unknown': st.unknown, 'solver_s': round(st.solver_s, 2),
        'assertions': st.assertions, 'assertions_without_query': st.proved_trivially,
        'concretizations': st.concretized, 'concretization_sites': st.conc_sites,
        'functions_encoded': sorted(k for k in st.functions if k.startswith('pyamf')),
        'modules_parsed': sorted(fr.parsed), 'bounds': bounds,
        'paths_by_end': tot,
        'cases': {c.name: {'what': texts[c.name], 'paths': c.paths, 'ends': c.ends, 'unexplored_prefixes': c.left,
                           'undecided': c.details, 'finding_regions': c.regions, 'cpu_s': round(c.spent, 1)}
                  for c in run.cases.values()},
    }
    ev = {'property': pid, 'tier': 'quick' if quick else 'thorough', 'seed': a.seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1),
          'violations': len(rp.confirmed)}
    if not a.case:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    if a.v or a.case:
        for c in run.cases.values():
            print('%-40s paths=%-6d left=%-4d cpu=%-6.1f %s %s %s' % (c.name, c.paths, c.left, c.spent, c.ends, c.regions,
                                                                     list(c.details.items())[:3]))
        print('conc', sorted(st.conc_sites.items(), key=lambda x: -x[1])[:10])
    print('%s %s: %d cases, %d paths, %d branches, %d queries (%.1f s), %d witnesses replayed, exhaustive=%s, %.1f s' % (
        pid, ev['tier'], len(cases), st.paths, st.branches, st.queries, st.solver_s, rp.validated, cov['exhaustive'],
        ev['wall_s']))
    if rp.confirmed:
        v = rp.confirmed[0]
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rf = os.path.join(rd, '%s-%s.json' % (pid, v['case']))
        with open(rf, 'w') as f:
            json.dump({'property': pid, 'module': run.module, 'case': v['case'], 'label': v['label'], 'values': v['values'],
                       'quick': quick, 'real': v['real']}, f, indent=1, sort_keys=True)
        print('case %s: %s fails with %s; real code: %s' % (v['case'], v['label'], json.dumps(v['values'], sort_keys=True),
                                                           v['real'].get('fail') or v['real'].get('trace')))
        if a.v:
            print(v['detail'])
            for x in rp.confirmed:
                print('* %s %s %s: %s' % (x['case'], x['label'], json.dumps(x['values'], sort_keys=True)[:300],
                                          (x['real'].get('fail') or x['real'].get('trace') or '').strip().split('\n')[-1]))
        print('VIOLATION property=%s replay=%s' % (pid, rf))
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    for kid, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, kid, text))
    return 0


def replay(a):
    d = json.load(open(a.replay))
    jy = front.Jy()
    try:
        r = jy.ask({'op': 'run', 'module': d['module'], 'case': d['case'], 'values': d['values'], 'quick': d['quick'],
                    'known': sorted(known_findings(d['property']))})
        print(json.dumps(r, indent=1))
        return 1 if r.get('fail') or r.get('exc') else 0
    finally:
        jy.close()
