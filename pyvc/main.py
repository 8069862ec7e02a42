"""python3-vt pyvc/main.py PROP --repo /repo --out FILE: all contracts of one property over the current source."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import driver, core

TRUSTED = ['CPython semantics of the executed subset as implemented by pyvc (statements, comprehensions, built-ins in pyvc/lib.py)', 'contracts of torch, numpy and random functions in pyvc/tlib.py and pyvc/lib.py',
           'pyvc normaliser and verification-condition generator', 'z3']
ASSUME = ['floating point arithmetic is treated as exact real arithmetic', 'all tensors live on one device; device moves are the identity', 'integers are unbounded', 'no concurrent modification of the objects']


def load():
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module('contracts.' + m.name)


def work(arg):
    repo, i, verbose = arg
    sys.setrecursionlimit(20000)
    from pyvc import smt
    try:
        prog = core.Program(repo)
        r = driver.run_contract(prog, driver.CONTRACTS[i])
    except SyntaxError as e:
        return {'i': i, 'crash': 'syntax error: %s' % e}
    obs = [{'name': o.name, 'status': o.status, 'how': o.how, 'where': o.where, 'detail': o.detail} for o in r.obls]
    return {'i': i, 'obls': obs, 'used': sorted(r.used), 'inlined': sorted(r.inlined), 'assumed': sorted(r.assumed), 'paths': r.paths, 'feasible': r.feasible, 's': r.seconds, 'stats': r.stats}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    load()
    idx = [i for i, c in enumerate(driver.CONTRACTS) if (not a.prop or a.prop == 'all' or a.prop in c[1]) and (not a.only or a.only in c[0])]
    args = [(a.repo, i, a.v) for i in idx]
    if a.j == 1 or len(idx) <= 1:
        rs = map(work, args)
    else:
        pool = mp.get_context('fork').Pool(min(a.j, max(1, len(idx))), maxtasksperchild=1)
        rs = pool.imap_unordered(work, args, chunksize=1)
    obls, used, inl, assumed, funcs, guards, back = [], set(), set(), set(), set(), [], {}
    solver = 0.0
    crash = []
    for r in rs:
        c = driver.CONTRACTS[r['i']]
        if 'crash' in r:
            crash.append(r['crash'])
            continue
        funcs |= set(c[2])
        for o in r['obls']:
            o['contract'] = c[0]
            obls.append(o)
            if o['status'] == 'discharged':
                for h in o['how'].split('+'):
                    back[h] = back.get(h, 0) + 1
        used |= set(r['used'])
        inl |= set(r['inlined'])
        assumed |= set(r['assumed'])
        solver += r['stats'].get('seconds', 0)
        guards.append({'contract': c[0], 'paths': r['paths'], 'feasible_paths': r['feasible'], 'obligations': len(r['obls'])})
        bad = [o for o in r['obls'] if o['status'] != 'discharged']
        if a.v or not a.out:
            print('%-70s %3d paths %4d obligations %s %.1fs' % (c[0], r['paths'], len(r['obls']), 'OK' if not bad else 'NOT OK', r['s']))
            seen = set()
            for o in bad:
                k = (o['name'], o['where'], o['detail'])
                if k in seen:
                    continue
                seen.add(k)
                print('    %s: %s [%s] %s %s' % (o['status'].upper(), o['name'], o['how'], o['where'], (o['detail'] or '')[:1500]))
    names = {}
    for o in obls:
        names.setdefault(o['name'], []).append(o)
    failed = [o for o in obls if o['status'] == 'failed']
    und = [o for o in obls if o['status'] == 'undecided']
    res = {'obligations': len(obls) - len(und), 'discharged': len([o for o in obls if o['status'] == 'discharged']), 'failed': failed[:40], 'undecided': und[:60], 'trusted_base': TRUSTED + sorted(assumed),
           'functions': sorted(funcs), 'back_ends': back, 'solver_s': round(solver, 2), 'inlined': sorted(inl), 'used': sorted(used), 'guards': guards, 'assumptions': ASSUME, 'seconds': round(time.time() - t0, 1)}
    if crash:
        res['crash'] = crash[0]
    if a.out:
        json.dump(res, open(a.out, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided, %.1f s' % (a.prop or 'all', res['obligations'], res['discharged'], len(failed), len(und), time.time() - t0))
    if not a.out:
        sys.exit(1 if failed or und else 0)


if __name__ == '__main__':
    main()
