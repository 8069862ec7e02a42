"""P23 (data pipes, datasets) and P24 (downloads)."""
import hashlib
import os
import pickle
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import scipy.sparse
import torch
import requests
import dhg
import dhg._global
import dhg.utils.download as DL
from dhg import datapipe as P
from dhg.data.base import BaseData

from common import *
from exp_cases import Scratch


# ------------------------------------------------------------------ P23
@case
def compose(p):
    """Every pipe once, in order; the composition can be used again."""
    log = []

    def mk(i):
        def f(x):
            log.append(i)
            return x * 3 + i
        return f
    fs = [mk(i) for i in p['ks']]
    c = P.compose_pipes(*fs)
    for x in p['xs']:
        want = x
        for i in p['ks']:
            want = want * 3 + i
        log.clear()
        got = c(x)
        need(got == want, 'composition of %s on %s gives %s want %s', p['ks'], x, got, want)
        need(log == p['ks'], 'pipes were called as %s', log)


def arr(p, k):
    return np.array(p[k], dtype=float)


@case
def normalise(p):
    A = arr(p, 'X')
    X = torch.tensor(A)
    X0 = X.clone()
    o = p['ord']
    kw = {} if o == 'default' else {'ord': {'inf': float('inf'), None: None}.get(o, o)}
    got = P.norm_ft(X, **kw)
    rows = A.reshape(1, -1) if A.ndim == 1 else A
    q = 2 if o in ('default', None) else o
    nrm = {1: np.abs(rows).sum(1), 2: np.sqrt((rows ** 2).sum(1)), 'inf': np.abs(rows).max(1)}[q]
    want = np.zeros_like(rows)
    nz = nrm != 0
    want[nz] = rows[nz] / nrm[nz][:, None]
    need_array(got, want.reshape(A.shape), 'norm_ft, ord %s' % o)
    need(torch.equal(X, X0), 'norm_ft changed its input')
    with raises('a 3-d tensor'):
        P.norm_ft(torch.ones(2, 2, 2))


@case
def minmax(p):
    A = arr(p, 'X')
    if A.max() == A.min():
        raise Reject()
    X = torch.tensor(A)
    X0 = X.clone()
    a, b = p['a'], p['b']
    if a >= b:
        with raises('a lower bound that is not below the upper one'):
            P.min_max_scaler(X, a, b)
        return
    got = P.min_max_scaler(X, a, b)
    need_array(got, (A - A.min()) / (A.max() - A.min()) * (b - a) + a, 'min_max_scaler')
    need(torch.equal(X, X0), 'min_max_scaler changed its input')


@case
def converters(p):
    A = np.array(p['X'], dtype=p['dt'])
    forms = [A.tolist(), A, torch.tensor(A)]
    if A.ndim == 2:
        forms += [scipy.sparse.csr_matrix(A), scipy.sparse.coo_matrix(A)]
    for f in forms:
        t = P.to_tensor(f)
        need(t.dtype == torch.float32, 'to_tensor dtype')
        need_array(t, A.astype(float), 'to_tensor')
    for f in forms[:3]:
        b, l = P.to_bool_tensor(f), P.to_long_tensor(f)
        need(b.dtype == torch.bool and b.tolist() == (A != 0).tolist(), 'to_bool_tensor')
        need(l.dtype == torch.int64 and l.tolist() == np.trunc(A).astype(int).tolist(), 'to_long_tensor')
    t = torch.tensor(A)
    for fn in (P.to_tensor, P.to_bool_tensor, P.to_long_tensor):
        y = fn(t)
        y[...] = 1
        need(torch.equal(t, torch.tensor(A)), 'a conversion shares memory with its input')


@case
def loaders(p):
    with Scratch() as d:
        rows = p['rows']
        f = d / 'x.txt'
        f.write_text('h1\n' * p['hdr'] + ''.join(p['sep'].join(str(x) for x in r) + '\n' for r in rows))
        cast = {'int': int, 'float': float, 'str': str}[p['dt']]
        kw = {} if p['sep'] in ',\t ' else {'sep': p['sep']}
        for dt in (p['dt'], cast):
            got = P.load_from_txt(f, dt, ignore_header=p['hdr'], **kw)
            need(got == [[cast(str(x)) for x in r] for r in rows], 'load_from_txt: %s', got)
        with raises('a missing file'):
            P.load_from_txt(d / 'no.txt', 'int')
        with raises('an unknown dtype'):
            P.load_from_txt(f, 'complex')
        obj = {'a': rows, 'b': [1], 'c': 'x'}
        (d / 'x.pkl').write_bytes(pickle.dumps(obj))
        (d / 'x.json').write_text(json.dumps(obj))
        need(P.load_from_pickle(d / 'x.pkl') == obj, 'load_from_pickle')
        need(P.load_from_pickle(d / 'x.pkl', keys='b') == [1], 'load_from_pickle with a key')
        need(P.load_from_pickle(d / 'x.pkl', keys=['a', 'c']) == {'a': rows, 'c': 'x'}, 'load_from_pickle with keys')
        need(P.load_from_json(d / 'x.json') == obj, 'load_from_json')
        with raises('a list of files'):
            P.load_from_pickle([d / 'x.pkl'])


def md5(b):
    return hashlib.md5(b).hexdigest()


@case
def dataset(p):
    """A history of accesses to a dataset whose files are on disk."""
    with Scratch() as d:
        items, hist = p['items'], p['hist']
        loads, pre = [], []

        class DS(BaseData):
            def __init__(self, root):
                super().__init__('ds', root)
                self._content = {}
                for k, it in items.items():
                    if it['kind'] == 'plain':
                        self._content[k] = it['v']
                        continue
                    if it['kind'] == 'plaindict':
                        self._content[k] = {'upon': 3}
                        continue
                    ups = []
                    for j, txt in enumerate(it['files']):
                        ups.append({'filename': '%s_%d.txt' % (k, j), 'md5': md5(txt.encode())})

                    def loader(path, k=k):
                        ps = path if isinstance(path, list) else [path]
                        loads.append((k, isinstance(path, list)))
                        return [q.read_text() for q in ps]

                    def mk(k, i):
                        def f(x):
                            pre.append((k, i))
                            return x + ['p%d' % i]
                        return f
                    self._content[k] = {'upon': ups, 'loader': loader}
                    if it['pre'] is not None:
                        self._content[k]['preprocess'] = [mk(k, i) for i in range(it['pre'])]
        ds = DS(d)
        root = d / 'ds'
        root.mkdir()
        for k, it in items.items():
            for j, txt in enumerate(it.get('files', [])):
                (root / ('%s_%d.txt' % (k, j))).write_text(txt)
        need(sorted(ds.content) == sorted(items), 'content')

        def want(k, raw):
            it = items[k]
            if it['kind'] == 'plain':
                return it['v']
            if it['kind'] == 'plaindict':
                return {'upon': 3}
            if not it['files']:
                return None
            return list(it['files']) + ([] if raw else ['p%d' % i for i in range(it['pre'] or 0)])
        first = {}
        for k, raw in hist:
            it = items[k]
            if it['kind'] == 'file' and not it['files'] and not raw and it['pre']:
                continue
            v = ds.raw(k) if raw else ds[k]
            need(v == want(k, raw), '%s(%s) gives %s want %s', 'raw' if raw else 'get', k, v, want(k, raw))
            if (k, raw) in first:
                need(v is first[(k, raw)] or v == first[(k, raw)], 'another value on repeated access')
            first.setdefault((k, raw), v)
            need(ds.needs_to_load(k) == (it['kind'] == 'file'), 'needs_to_load(%s)', k)
        for k, it in items.items():
            if it['kind'] != 'file':
                continue
            acc = [raw for kk, raw in hist if kk == k]
            n = sum(1 for q in loads if q[0] == k)
            need(n == (1 if acc and it['files'] else 0), 'item %s was loaded %s times', k, n)
            if len(it['files']):
                need(all(q[1] == (len(it['files']) > 1) for q in loads if q[0] == k), 'loader argument')
            w = [(k, i) for i in range(it['pre'] or 0)] if False in acc and it['files'] else []
            need([q for q in pre if q[0] == k] == w, 'preprocessing of %s ran as %s', k, [q for q in pre if q[0] == k])
        with raises('an unknown item'):
            ds['nope']
        with raises('an unknown item'):
            ds.raw('nope')


# ------------------------------------------------------------------ P24
class Net:
    """A scripted network; outcomes: good, bad, partial (breaks off), 404, conn, other."""

    def __init__(self, good, script):
        self.good, self.script, self.calls = good, list(script), []

    def get(self, url, *a, **k):
        o = self.script[len(self.calls)] if len(self.calls) < len(self.script) else '404'
        self.calls.append((url, o))
        if o == 'conn':
            raise requests.ConnectionError('no connection')
        if o == 'timeout':
            raise requests.Timeout('timeout')
        if o == 'http':
            raise requests.HTTPError('http')
        if o == 'other':
            raise RuntimeError('other')

        class R:
            status_code = 200 if o in ('good', 'bad', 'partial', 'empty') else int(o)

            def raise_for_status(self):
                if self.status_code != 200:
                    raise requests.HTTPError(str(self.status_code))

            def iter_content(s, chunk_size=1, **k):
                data = {'good': self.good, 'bad': self.good + b'!', 'empty': b'', 'partial': self.good[:1]}.get(o, b'error page')
                st = 2 if len(data) < 64 else chunk_size or 1024
                for i in range(0, len(data), st):
                    yield data[i:i + st]
                    yield b''
                if o == 'partial':
                    raise requests.exceptions.ChunkedEncodingError('broken')

            @property
            def content(s):
                return b''.join(s.iter_content())

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def close(s):
                pass
        return R()


@case
def payload(p):
    """the bytes on disk are the bytes sent, whatever they are"""
    b = ''.join((c * k)[:k] for c, k in p['blocks']).encode('latin-1')
    with Scratch() as d:
        f = d / 'sub' / 'f.bin'
        og = requests.get
        requests.get = Net(b, ['good']).get
        try:
            DL.download_file('https://example.org/f.bin', f)
        finally:
            requests.get = og
        need(f.read_bytes() == b, 'download_file wrote %s bytes of %s, or others', len(f.read_bytes()), len(b))


@case
def download(p):
    """download_and_check against every initial disk state and network behaviour."""
    with Scratch() as d:
        good = p.get('data', 'abcdef').encode()
        net = Net(good, p['script'])
        cache = d / 'cache'
        cache.mkdir()
        home = d / 'home'
        home.mkdir()
        f = (cache if p['incache'] else d / 'elsewhere') / 'datasets' / 'x' / 'f.bin'
        legacy = home / '.dhg' / 'datasets' / 'x' / 'f.bin'
        other = f.parent / 'other.bin'
        if p['disk'] is not None or p.get('other'):
            f.parent.mkdir(parents=True)
        if p.get('other'):
            other.write_bytes(b'keep')
        if p['disk'] is not None:
            f.write_bytes(good if p['disk'] == 'good' else b'stale')
        if p.get('legacy'):
            legacy.parent.mkdir(parents=True)
            legacy.write_bytes(good if p['legacy'] == 'good' else b'stale')
        base = dhg._global.REMOTE_DATASETS_ROOT if p['official'] else 'https://example.org/'
        url = base + 'x/f.bin'
        bk = dhg._global.BACKUP_REMOTE_DATASETS_ROOT + 'x/f.bin'
        og, oc, oh = requests.get, dhg._global.CACHE_ROOT, os.environ.get('HOME')
        requests.get, dhg._global.CACHE_ROOT = net.get, cache
        os.environ['HOME'] = str(home)
        err = None
        try:
            ok = DL.download_and_check(url, f, md5(good))
        except Exception as e:
            err = e
        finally:
            requests.get, dhg._global.CACHE_ROOT = og, oc
            if oh is not None:
                os.environ['HOME'] = oh
        state = f.read_bytes() if f.exists() else None
        if err is None:
            need(ok, 'success is not reported as success')
            need(state == good, 'reported success although the file on disk is %s', state)
        local = p['disk'] if p['disk'] is not None else (p.get('legacy') if p['incache'] else None)
        if local == 'good':
            need(err is None and not net.calls, 'an existing valid file: error %r, network %s', err, net.calls)
        if local is not None and local != 'good':
            need(err is not None or state == good, 'stale file accepted')
        if err is not None and isinstance(err, ValueError):
            need(state is None, 'a corrupted file was left behind: %s', state)
        if err is not None and state is not None:
            # whatever is left must never pass for valid on the next access
            need(state != good, 'failure reported (%r) although the file is complete', err)
        # the sequence of requests
        seq = net.calls
        need(len(seq) <= 6, '%s requests', len(seq))
        if not p['official']:
            need(all(u == url for u, _ in seq), 'a private location was looked for elsewhere: %s', seq)
            need(len(seq) <= 3, '%s requests', len(seq))
        else:
            need(all(u in (url, bk) for u, _ in seq), 'requests %s', seq)
        # expected behaviour by simulation
        exp, st, i = [], (None if p['disk'] is None else p['disk']), 0
        if st is None and p['incache'] and p.get('legacy'):
            st = p['legacy']
        res = None

        def pull(u):
            nonlocal st
            o = (p['script'] + ['404'] * 20)[len(exp)]
            exp.append((u, o))
            if o in ('good', 'bad', 'empty'):
                st = o
                return None
            if o == 'partial':
                st = 'bad'
                return 'req'
            return {'conn': 'req', 'timeout': 'req', 'other': 'other'}.get(o, 'http')
        for att in range(3):
            e = None
            if st is None:
                e = pull(url)
                if e in ('req', 'http') and p['official']:
                    e = pull(bk)
            if e is None:
                res = 'ok' if st == 'good' else 'corrupt'
                break
            res = e
            if e != 'http':
                break
        need(seq == exp, 'requests %s want %s', seq, exp)
        need((res == 'ok') == (err is None), 'outcome %r want %s', err, res)
        if p.get('other'):
            need(other.read_bytes() == b'keep', 'another file was touched')
        if p.get('legacy') and p['incache'] and p['disk'] is None:
            need(not legacy.exists(), 'the legacy file was copied instead of moved')


@case
def checksum(p):
    with Scratch() as d:
        b = bytes(p['data'])
        f = d / 'f'
        with raises('a missing file', (FileNotFoundError,)):
            DL.check_file(f, md5(b))
        f.write_bytes(b)
        need(bool(DL.check_file(f, md5(b))) is True, 'a valid file is rejected')
        for c in (b + b'\n', b[:-1], b'\r\n' + b, b.replace(b'\n', b'\r\n')):
            if c != b:
                need(not DL.check_file(f, md5(c)), 'the checksum of other content is accepted')
        h = md5(b)
        for i in range(len(h)):
            x = h[:i] + ('0' if h[i] != '0' else '1') + h[i + 1:]
            need(not DL.check_file(f, x), 'a checksum that differs in digit %d is accepted', i)
        need(f.read_bytes() == b, 'checking changed the file')


@generator('P23')
def gen_p23(r, tier):
    V0 = [-3.0, -2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 4.0]
    while True:
        yield 'compose', {'ks': [r.randrange(5) for _ in range(r.randint(0, 4))], 'xs': [r.randrange(4) for _ in range(2)]}
        n, k = (r.randint(1, 4), r.randint(1, 3)) if r.random() < 0.95 else (30, 20)
        V = r.choice([V0, V0, V0, V0, [x * 2 ** 20 for x in V0], [x / 2 ** 20 for x in V0], V0 + [2.0 ** 18]])
        X = [[r.choice(V) for _ in range(k)] for _ in range(n)]
        if r.random() < 0.4:
            X[r.randrange(n)] = [0.0] * k
        x1 = [r.choice(V) for _ in range(k)]
        for o in ('default', 1, 2, 'inf', None):
            yield 'normalise', {'X': X, 'ord': o}
            yield 'normalise', {'X': x1 if r.random() < 0.8 else [0.0] * k, 'ord': o}
        yield 'minmax', {'X': X, 'a': r.choice([-1.0, 0.0, 0.5, 2.0]), 'b': r.choice([0.0, 1.0, 3.0])}
        yield 'converters', {'X': X, 'dt': 'float64'}
        yield 'converters', {'X': [r.choice([16777217, -2 ** 40 - 1, 2 ** 53 + 1, 7]) for _ in range(k)], 'dt': 'int64'}
        yield 'converters', {'X': [[r.randint(-2, 3) for _ in range(k)] for _ in range(n)] if r.random() < 0.5 else [r.randint(0, 2) for _ in range(k)], 'dt': 'int64'}
        dt = r.choice(['int', 'float', 'str'])
        cell = {'int': lambda: r.randint(-9, 9) if r.random() < 0.8 else r.randint(-10 ** 15, 10 ** 15),
                'float': lambda: r.choice([r.randint(-9, 9), round(r.uniform(-3, 3), 4), 1e-07, -2.5e+20]),
                'str': lambda: 'w%d' % r.randint(0, 9) if r.random() < 0.5 else ''.join(r.choice('ab0#%-_"\'|:/.\\()+*?') for _ in range(r.randint(1, 5)))}[dt]
        many = r.random() < 0.05
        yield 'loaders', {'rows': [[cell() for _ in range(r.randint(1, 3) if not many else r.randint(1, 70))] for _ in range(r.randint(1, 4) if not many else r.randint(50, 300))], 'dt': dt,
                          'sep': r.choice([',', ' ', '\t', ';']), 'hdr': r.randint(0, 2)}
        items = {}
        for nm in r.choice([['a', 'b', 'c'], ['a', 'a_2', 'a_12'], ['x1', 'x', 'X'], ['edge_list', 'edge', 'list'], ['a', 'a.a', 'a a'], ['train_mask', 'train_mask_1', 'train']])[:r.randint(1, 3)]:
            c = r.random()
            if c < 0.2:
                items[nm] = {'kind': 'plain', 'v': r.randrange(9)}
            elif c < 0.3:
                items[nm] = {'kind': 'plaindict'}
            else:
                items[nm] = {'kind': 'file', 'files': ['%s%d' % (nm, r.randrange(9)) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))], 'pre': r.choice([None, 0, 1, 2])}
        yield 'dataset', {'items': items, 'hist': [[r.choice(list(items)), r.random() < 0.4] for _ in range(r.randint(1, 7))]}


@generator('P24')
def gen_p24(r, tier):
    O = ['good', 'bad', 'partial', '404', '500', 'conn', 'timeout', 'http', 'other', 'empty']
    for incache in (True, False):
        for official in (True, False):
            for disk in (None, 'good', 'bad'):
                for leg in ((None, 'good', 'bad') if incache else (None,)):
                    for o in O:
                        yield 'download', {'incache': incache, 'official': official, 'disk': disk, 'legacy': leg, 'script': [o], 'other': True}
    for o in O:
        for o2 in O:
            for official in (True, False):
                yield 'download', {'incache': True, 'official': official, 'disk': None, 'legacy': None, 'script': [o, o2, 'good']}
    while True:
        yield 'checksum', {'data': [r.choice([10, 13, 65, 66, 0, 255]) for _ in range(r.randint(1, 12))]}
        yield 'payload', {'blocks': [[r.choice(['', '\x00', ' ', '\n', '\r\n', 'a', '<html>', '\x1f']), r.choice([0, 1, 512, 1023, 1024, 1025, 2048, 5000])] for _ in range(r.randint(0, 4))]}
        yield 'download', {'incache': r.random() < 0.6, 'official': r.random() < 0.7, 'disk': r.choice([None, None, None, 'good', 'bad']), 'legacy': r.choice([None, None, 'good', 'bad']),
                           'script': [r.choice(O + ['404', '500', 'http']) for _ in range(r.randint(0, 7))], 'other': r.random() < 0.5}
