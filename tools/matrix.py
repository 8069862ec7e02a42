"""Which layer catches which planted bug: matrix.py [ids]. Works on a scratch copy of /repo, never on /repo itself."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
rows = []
for s in ids:
    d = os.path.join(V, 'seeded', s)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    P = meta['property']
    t = tempfile.mkdtemp(prefix='mx_')
    try:
        rc = os.path.join(t, 'rc')
        shutil.copytree('/repo', rc, symlinks=True)
        subprocess.run(['git', '-C', rc, 'apply', os.path.join(d, 'patch.diff')], check=True)
        env = dict(os.environ, PYTHONPATH=rc, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=t)
        pr = [subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(V, 'replay/runner.py'), '--prop', P, '--seconds', '22', '--seed', str(1000 + i), '--part', '%d/5' % i, '--tier', 'quick',
                                '--out', os.path.join(t, 'r%d.json' % i)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=t) for i in range(5)]
        subprocess.run(['python3-vt', os.path.join(V, 'pyvc/main.py'), P, '--repo', rc, '--out', os.path.join(t, 'd.json')], stdout=subprocess.DEVNULL, env=dict(env, PYTHONPATH=V))
        for p in pr:
            p.wait()
        ded = json.load(open(os.path.join(t, 'd.json')))
        viol = [v for i in range(5) if os.path.exists(os.path.join(t, 'r%d.json' % i)) for v in json.load(open(os.path.join(t, 'r%d.json' % i)))['violations']]
        f = sorted({o['name'] for o in ded['failed']})
        u = sorted({o['contract'] for o in ded['undecided']})
        print('%-6s %s replay: %-28s deductive: %s' % (s, P, viol[0]['case'] if viol else '-- MISSED --' if not f else '--', 'FAILED ' + '; '.join(f)[:160] if f else 'undecided ' + '; '.join(u)[:160] if u else '--'), flush=True)
        rows.append((s, P, viol[0]['case'] if viol else '', f, u))
    finally:
        shutil.rmtree(t)
