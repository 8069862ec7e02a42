#!/usr/bin/env python3
"""One property: the deductive layer (contracts over /repo's current source) and the concrete layer (real code on concrete inputs).

usage: run_check.py P07 [--tier quick|thorough]
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/venv/bin/python'
VT = 'python3-vt'

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--no-replay', action='store_true')
ap.add_argument('--seconds', type=float)
a = ap.parse_args()
P, T0 = a.prop, time.time()
EV = os.path.join(V, 'evidence')
os.makedirs(EV, exist_ok=True)
env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
quick = a.tier != 'thorough'
workers = 5 if quick else 7
secs = a.seconds or (22 if quick else 300)


def write_evidence(ev):
    p = os.path.join(EV, P + '.json')
    json.dump(ev, open(p, 'w'), indent=1)


with tempfile.TemporaryDirectory(prefix='vchk_') as tmp:
    # ---------------------------------------------------------------- concrete layer (in parallel)
    procs = []
    if not a.no_replay:
        env_r = dict(env, MPLCONFIGDIR=os.path.join(tmp, 'mpl'))
        for i in range(workers):
            out = os.path.join(tmp, 'r%d.json' % i)
            log = open(os.path.join(tmp, 'r%d.log' % i), 'w')
            procs.append((i, out, log.name, subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(V, 'replay', 'runner.py'), '--prop', P, '--seconds', str(secs), '--seed', str(a.seed * 1000 + i), '--part', '%d/%d' % (i, workers), '--tier', a.tier,
                 '--out', out, '--known', os.path.join(V, 'KNOWN_FINDINGS.txt')], stdout=log, stderr=subprocess.STDOUT, env=env_r, cwd=tmp)))
    # ---------------------------------------------------------------- deductive layer
    ded = None
    if os.path.exists(os.path.join(V, 'pyvc', 'main.py')):
        out = os.path.join(tmp, 'ded.json')
        try:
            r = subprocess.run([VT, os.path.join(V, 'pyvc', 'main.py'), P, '--repo', REPO, '--tier', a.tier, '--out', out], env=dict(env, PYTHONPATH=V), cwd=tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600 if quick else 3000)
            ded = json.load(open(out)) if os.path.exists(out) else {'crash': r.stdout[-3000:]}
        except subprocess.TimeoutExpired:
            ded = {'crash': 'deductive layer timed out'}
    runs, crashes = [], []
    for i, out, log, pr in procs:
        try:
            pr.wait(timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
        if os.path.exists(out):
            runs.append(json.load(open(out)))
        else:
            crashes.append(open(log).read()[-3000:])

viol = [v for r in runs for v in r['violations']]
known = sorted({k for r in runs for k in r['known']})
lines, status = [], 0
for k in known:
    print('KNOWN-FINDING: property=%s %s' % (P, k))

nviol = 0
if viol:
    v = min(viol, key=lambda q: len(json.dumps(q['params'])))
    path = os.path.join(EV, 'replay_%s.json' % P)
    v['how'] = 'PYTHONPATH=/repo %s /verif/replay/runner.py --replay %s' % (PY, path)
    if ded and ded.get('failed'):
        v['failed_obligations'] = ded['failed'][:5]
    json.dump(v, open(path, 'w'), indent=1)
    nviol = len(viol)
    print('%s: %s' % (v['case'], v['message']))
    print('VIOLATION property=%s replay=%s' % (P, path))
    status = 1
elif crashes and not runs:
    # the code under test cannot even be imported or run
    path = os.path.join(EV, 'replay_%s.json' % P)
    json.dump({'property': P, 'message': 'the concrete layer cannot run the code under test', 'output': crashes[:2]}, open(path, 'w'), indent=1)
    print(crashes[0][-1500:])
    nviol = 1
    print('VIOLATION property=%s replay=%s' % (P, path))
    status = 1
elif ded and ded.get('failed'):
    path = os.path.join(EV, 'replay_%s.json' % P)
    json.dump({'property': P, 'failed_obligations': ded['failed'], 'message': 'obligations that hold on the unchanged tree are no longer discharged'}, open(path, 'w'), indent=1)
    nviol = len(ded['failed'])
    for f in ded['failed'][:5]:
        print('obligation not discharged: %s (%s)' % (f['name'], f.get('where', '')))
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (P, path))
    status = 1

cases = sum(r['cases'] for r in runs)
by = {}
for r in runs:
    for k, n in r['by_case'].items():
        by[k] = by.get(k, 0) + n
bounded = {'evaluations': cases, 'distinct_nontrivial': sum(r.get('distinct', 0) for r in runs),
           'rule': 'real code on enumerated and random small inputs against executable contracts; distinct (case, parameters) per worker; bound: %g s on each of %d workers' % (secs, len(runs)),
           'by_case': by, 'samples': (runs[0].get('samples', []) if runs else [])[:3]}
complete = bool(ded and ded.get('obligations') and not ded.get('undecided') and not ded.get('crash') and ded['discharged'] == ded['obligations'])
if ded and ded.get('obligations'):
    level = 'proof'
    cov = {'obligations': ded['obligations'], 'discharged': ded['discharged'], 'checker_cmd': 'python3-vt /verif/pyvc/main.py %s --repo /repo' % P,
           'trusted_base': ded['trusted_base'], 'functions_under_contract': ded['functions'], 'back_ends': ded['back_ends'], 'solver_s': ded['solver_s'],
           'inlined': ded.get('inlined', []), 'contracts_used': ded.get('used', []), 'undecided': ded.get('undecided', []), 'vacuity_guards': ded.get('guards'), 'bounded_stand_in': bounded}
    assumptions = ded.get('assumptions', [])
    if not complete:      # some contract could not be decided on this tree: what was decided is reported, nothing is claimed for the rest
        level = 'exploration'
        cov.update({k: bounded[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')})
else:
    level = 'exploration'
    cov = dict(bounded)
    assumptions = ['bounded: no obligation was generated for this property on this run']
    if ded:
        cov['deductive_layer'] = ded.get('crash') or ded.get('undecided')
ev = {'property': P, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
write_evidence(ev)
print('%s %s: %s obligations, %s discharged, %s concrete cases, %.1f s' % (P, 'FAILS' if status else 'holds', ded.get('obligations', 0) if ded else 0, ded.get('discharged', 0) if ded else 0, cases, time.time() - T0))
sys.exit(status)
