"""Mutation test of the concrete layer: python3-vt tools/mutreplay.py PROPS(comma separated) FILE [FUNC ...] [--max N] [--seed S] [--jobs J] [--secs T]
Every mutant lives in a scratch copy of the sources; survivors are printed for review (many are equivalent)."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

PY = '/opt/venv/bin/python'
a = sys.argv[1:]
opt = {'--max': 60, '--seed': 1, '--jobs': 5, '--secs': 14}
for k in list(opt):
    if k in a:
        i = a.index(k)
        opt[k] = int(a[i + 1])
        del a[i:i + 2]
props, file, fns = a[0].split(','), a[1], a[2:]
tree = ast.parse(open('/repo/' + file).read())
ms = list(mutate.mutants(tree, fns))
random.Random(opt['--seed']).shuffle(ms)
todo = []
for fn, n, fld, val in ms[:opt['--max']]:
    r = mutate.apply(tree, n, fld, val)
    if r:
        todo.append((fn.name, getattr(n, 'lineno', 0), fld) + r)
root = tempfile.mkdtemp(prefix='mutr', dir='/tmp')


def one(job):
    k, (name, line, fld, text, before, after) = job
    d = '%s/%d' % (root, k)
    shutil.copytree('/repo/dhg', d + '/dhg', ignore=shutil.ignore_patterns('__pycache__'))
    open(d + '/' + file, 'w').write(text)
    res = 'SURVIVED'
    for p in props:
        env = dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLCONFIGDIR=d + '/mpl')
        try:
            r = subprocess.run([PY, '-W', 'ignore', '/verif/replay/runner.py', '--prop', p, '--seconds', str(opt['--secs']), '--seed', '5', '--known', '/verif/KNOWN_FINDINGS.txt'],
                               env=env, cwd=d, capture_output=True, text=True, timeout=opt['--secs'] * 4 + 60)
            if r.returncode != 0:
                res = 'killed by %s' % p
                break
        except subprocess.TimeoutExpired:
            res = 'killed by %s (timeout)' % p
            break
    shutil.rmtree(d)
    if res == 'SURVIVED':
        print('SURVIVED', file, name, line, fld, '|', before.replace('\n', '; '), '=>', after.replace('\n', '; '), flush=True)
    return res


try:
    with ThreadPoolExecutor(opt['--jobs']) as ex:
        out = list(ex.map(one, enumerate(todo)))
finally:
    shutil.rmtree(root)
print('%s: %d mutants, %d survived' % (file, len(out), sum(x == 'SURVIVED' for x in out)))
