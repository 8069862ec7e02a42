"""Functions of /repo/dhg that are neither under contract nor executed inside one."""
import ast, os, sys, json, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(tempfile.mkdtemp(), 'o.json')
subprocess.run(['python3-vt', os.path.join(V, 'pyvc/main.py'), 'all', '--out', out], stdout=subprocess.DEVNULL)
d = json.load(open(out))
print({k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in d.items()})
cov = set(d['functions']) | set(d.get('inlined', []))
tot = 0
for r, _, fs in os.walk('/repo/dhg'):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        p = os.path.join(r, f)
        m = os.path.relpath(p, '/repo')[:-3].replace('/', '.')
        if m.endswith('.__init__'):
            m = m[:-9]
        t = ast.parse(open(p).read())
        miss = []
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                tot += 1
                if m + ':' + n.name not in cov:
                    miss.append(n.name)
            if isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        tot += 1
                        if m + ':' + n.name + '.' + k.name not in cov:
                            miss.append(n.name + '.' + k.name)
        if miss:
            print(m, ' '.join(miss))
print(tot)
