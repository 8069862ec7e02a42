"""Runs the concrete cases of one property (or replays one recorded case)."""
import argparse
import json
import os
import random
import sys
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common import *  # noqa

MODULES = ['graphs', 'hypers', 'convert', 'utils_cases', 'metrics_cases', 'nn_cases', 'data_cases', 'exp_cases', 'vis_cases']


def load():
    import importlib
    import torch
    torch.set_num_threads(1)
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            importlib.import_module(m)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--params')
    ap.add_argument('--replay')
    ap.add_argument('--out')
    ap.add_argument('--known')
    ap.add_argument('--part', default='0/1', help='i/n: run only the cases whose digest is i modulo n')
    ap.add_argument('--max', type=int, default=10 ** 9)
    a = ap.parse_args()
    load()
    if a.replay:
        rec = json.load(open(a.replay))
        if 'case' not in rec:
            print(json.dumps(rec, indent=1))
            return 1
        msg = run_case(rec['case'], rec['params'])
        print('case %s %s' % (rec['case'], json.dumps(rec['params'])))
        print('FAILS: ' + msg if msg else 'holds')
        return 1 if msg else 0
    if a.case:
        msg = run_case(a.case, json.loads(a.params))
        print(msg or 'holds')
        return 1 if msg else 0
    known = []
    if a.known and os.path.exists(a.known):
        known = [json.loads(l[6:]) for l in open(a.known) if l.startswith('known:')]
        known = [k for k in known if k['property'] == a.prop]
    gens = GENS.get(a.prop, [])
    distinct, samples = set(), []
    res = {'property': a.prop, 'cases': 0, 'by_case': {}, 'violations': [], 'known': [], 'generators': len(gens)}
    t_end = time.time() + a.seconds
    its = [g(random.Random('%s/%s/%d' % (a.prop, g.__name__, a.seed)), a.tier) for g in gens]
    part, parts = (int(x) for x in a.part.split('/'))
    # deterministic order: generators are advanced round-robin
    live = list(its)
    while live and time.time() < t_end and res['cases'] < a.max and not res['violations']:
        for it in list(live):
            for _ in range(10 * parts):
                try:
                    name, params = next(it)
                except StopIteration:
                    live.remove(it)
                    break
                text = json.dumps(params, sort_keys=True)
                if parts > 1 and zlib.crc32(('%s %s' % (name, text)).encode()) % parts != part:
                    continue
                params = json.loads(text)
                msg = run_case(name, params)
                res['cases'] += 1
                key = hash((name, text))
                if key not in distinct:
                    distinct.add(key)
                    if len(distinct) in (1, 7, 50):
                        samples.append({'case': name, 'params': params})
                res['by_case'][name] = res['by_case'].get(name, 0) + 1
                if msg:
                    kf = None
                    for k in known:
                        if k['case'] == name and k['match'] in msg:
                            kf = k
                    if kf:
                        if kf['id'] not in res['known']:
                            res['known'].append(kf['id'])
                        continue
                    res['violations'].append({'property': a.prop, 'case': name, 'params': params, 'message': msg})
                    break
            if res['violations'] or time.time() > t_end:
                break
    res['exhausted'] = not live
    res['distinct'], res['samples'] = len(distinct), samples
    if a.out:
        json.dump(res, open(a.out, 'w'), indent=1)
    else:
        print(json.dumps(res, indent=1)[:6000])
        for v in res['violations']:
            print(v['message'])
    return 1 if res['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
