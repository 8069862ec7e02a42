"""Plants a bug: applies edits to a scratch copy of /repo, confirms (demo passes before, fails after, stable tests still pass), writes /verif/seeded/<id>/.

usage: from plant import plant; plant(id, prop, [(file, old, new)], demo_source, needs, breaks)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='4', LANG='C.UTF-8')
DEMO_SH = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken (run with cwd = the repository)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id)
    scratch = '/tmp/plant_%s' % id
    shutil.rmtree(scratch, ignore_errors=True)
    sh(['cp', '-a', '/repo', scratch], '/')
    try:
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r0 = sh(['bash', os.path.join(d, 'demo.sh')], scratch, env=ENV)
        for f, old, new in edits:
            p = os.path.join(scratch, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], scratch).stdout
        r1 = sh(['bash', os.path.join(d, 'demo.sh')], scratch, env=ENV)
        env = dict(ENV, PYTHONPATH=scratch)
        sh('rm -f tmp/test_save.dhg', scratch)
        sh(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '--ignore=tests/data', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % scratch], scratch, env=env)
        sh(['/usr/bin/python3', '/opt/vp/results.py', scratch + '/out.json', 'junit:%s/junit.xml' % scratch], scratch)
        o = json.load(open(scratch + '/out.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [t for t in stable if t not in set(o['passed'])]
        # lines removed by the patch must be lines of the original repository
        orig = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip()
        foreign = []
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = subprocess.run(['git', '-C', '/repo', 'show', orig + ':' + l[6:]], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur:
                foreign.append(l)
        ok = r0.returncode == 0 and r1.returncode != 0 and not bad
        print('%-10s %s demo %d -> %d, broken tests %d%s' % (id, 'OK  ' if ok else 'REJECT', r0.returncode, r1.returncode, len(bad), ', not original: %s' % foreign[:2] if foreign else ''))
        if not ok:
            print(r0.stdout[-600:] if r0.returncode else '', (r1.stdout[-300:]), bad[:4])
            shutil.rmtree(d)
            return False
        print('     ', (r1.stdout.strip().splitlines() or ['?'])[-1][:150])
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
