"""Regenerates /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
try:
    LV = json.load(open(os.path.join(V, 'pyvc', 'levels.json')))     # property -> note on what is proved (written by tools/levels.py)
except FileNotFoundError:
    LV = {}
BOUNDED = 'contracts evaluated on the real code over enumerated and random small inputs and histories: bounded, nothing is proved for all inputs'
checks = []
for p in ids:
    lv = LV.get(p)
    checks.append(dict(property=p, quick_cmd='python3 run_check.py %s' % p, thorough_cmd='python3 run_check.py %s --tier thorough' % p,
        technique='deductive verification: VCs generated from the real AST against sidecar contracts, normaliser + z3; contracts replayed on the real code' if lv else 'executable contracts on the real code, bounded stand-in',
        level='proof' if lv else 'exploration',
        level_note=lv or BOUNDED))
json.dump(dict(version=1, setup_cmd='python3-vt -m pyvc.selftest', checks=checks, not_applicable=[],
               notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
