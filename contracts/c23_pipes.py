"""P23: data pipes and lazily loaded datasets.  Files, loaders and pipes are arbitrary; a pipe is an uninterpreted function."""
import ast
import os
from contracts.ghostfs import *
from pyvc.spec import *

P = 'dhg.datapipe.'
U_ = lambda f, *a: app(f, *a, sort='U')


# ------------------------------------------------------------------ composition
for _n in range(6):
    @contract('compose_pipes, %d pipes' % _n, ['P23'], [P + 'common:compose_pipes'])
    def _(ex, n=_n):
        calls = []

        def mk(i):
            def f(ex, a, k):
                calls.append(i)
                return U_('pipe%d' % i, a[0])
            return HostFn('pipe', f)
        for order in ([*range(n)], [0] * n):
            c = callq(ex, P + 'common:compose_pipes', *[mk(i) for i in order])
            for x in (U_('x'), U_('y')):
                del calls[:]
                r = ex.call(c, [x], {})
                want = x
                for i in order:
                    want = U_('pipe%d' % i, want)
                ex.check('every pipe once, in order', calls == order)
                ex.check('each applied to the result of the one before', eq(lift(r), want))


# ------------------------------------------------------------------ normalisation
def rownorm(kind, n, x):
    v = fresh('v')
    ab = lambda t: ite(le(RZERO, t), t, mul(const(-1, 'R'), t))
    if kind == 1:
        return sum_(((v, n),), ab(x(v)))
    return tlib.fn1('sqrt', sum_(((v, n),), mul(x(v), x(v))))


for _dim in (1, 2):
    for _ord in ('default', None, 1, 2):
        @contract('norm_ft, %d-d, ord %s' % (_dim, _ord), ['P23'], [P + 'normalize:norm_ft'])
        def _(ex, dim=_dim, ord=_ord):
            n, c = isym(ex, 'n', 1), isym(ex, 'C', 1)
            dims = (c,) if dim == 1 else (n, c)
            X = tensor(ex, 'X', dims)
            r = callq(ex, P + 'normalize:norm_ft', X, **({} if ord == 'default' else {'ord': ord}))
            q = 2 if ord in ('default', None) else ord

            def want(*ix):
                N = rownorm(q, c, lambda j: X.fn(*(ix[:-1] + (j,))))
                return mul(tlib.fn1('inv0', N), X.fn(*ix))
            teq(ex, 'each row divided by its norm, zero rows stay zero', r, dims, want)


@contract('norm_ft, other ranks', ['P23'], [P + 'normalize:norm_ft'])
def _(ex):
    for dims in ((), (2, 2, 2)):
        k, r = raises(ex, lambda: callq(ex, P + 'normalize:norm_ft', tensor(ex, 'X', dims)))
        ex.check('rejected', k == 'ValueError')


for _dim in (1, 2):
    @contract('min_max_scaler, %d-d' % _dim, ['P23'], [P + 'normalize:min_max_scaler'])
    def _(ex, dim=_dim):
        n, c = isym(ex, 'n', 1), isym(ex, 'C', 1)
        dims = (n, c)[:dim]
        X = tensor(ex, 'X', dims)
        lo, hi = rsym(ex, 'lo'), rsym(ex, 'hi')
        mn, mx = ex.call(ex.getattr(ex.call(ex.getattr(X, 'min'), [], {}), 'item'), [], {}), ex.call(ex.getattr(ex.call(ex.getattr(X, 'max'), [], {}), 'item'), [], {})
        ex.assume(lt(mn, mx))                                 # a constant input has no linear map to two bounds
        k, r = raises(ex, lambda: callq(ex, P + 'normalize:min_max_scaler', X, lo, hi))
        if k:
            ex.check('rejected exactly when the bounds are not in order', and_(k == 'AssertionError', le(hi, lo)))
            return
        ex.check('accepted only when the bounds are in order', lt(lo, hi))
        sc = mul(add(hi, mul(const(-1), lo)), app('recip', add(mx, mul(const(-1), mn)), sort='R'))
        teq(ex, 'the linear map that takes the smallest entry to the lower and the largest to the upper bound', r, dims,
            lambda *ix: add(lo, mul(add(X.fn(*ix), mul(const(-1), mn)), sc)))


# ------------------------------------------------------------------ datasets
BD = 'dhg.data.base:BaseData'


def dataset(ex, ev):
    """Plain values, items of one and of several files, with and without preprocessing, one without files."""
    fn = lambda nm, f: HostFn(nm, f)

    def loader(key, several=False):
        def f(ex, a, k):
            ev.append(('load', key, [p.val.key for p in lib.iter_nodes(ex, a[0])] if several else a[0].key))
            return U_('raw_' + key)
        return fn('loader', f)

    def pipe(key, i):
        def f(ex, a, k):
            ev.append(('pipe', key, i))
            return U_('pipe_%s%d' % (key, i), a[0])
        return fn('pipe', f)
    file = lambda nm, **k: DictV(dict({'filename': nm, 'md5': 'md5 of ' + nm}, **k))
    L = lambda *xs: ListV(tuple(Item(x) for x in xs))
    return {
        'plain': 7,
        'dict': DictV({'upon': 3}),
        'one': DictV({'upon': L(file('one.pkl')), 'loader': loader('one'), 'preprocess': L(pipe('one', 0), pipe('one', 1))}),
        'two': DictV({'upon': L(file('a.txt'), file('b.txt', bk_url='https://elsewhere/b.txt')), 'loader': loader('two', True), 'preprocess': L(pipe('two', 0))}),
        'bare': DictV({'upon': L(file('bare.pkl')), 'loader': loader('bare')}),
        'none': DictV({'upon': L(), 'loader': loader('none'), 'preprocess': None}),
    }


FILES = {'one': [('https://remote/set/one.pkl', 'root/set/one.pkl', 'md5 of one.pkl')], 'bare': [('https://remote/set/bare.pkl', 'root/set/bare.pkl', 'md5 of bare.pkl')],
         'two': [('https://remote/set/a.txt', 'root/set/a.txt', 'md5 of a.txt'), ('https://elsewhere/b.txt', 'root/set/b.txt', 'md5 of b.txt')]}
NP = {'one': 2, 'two': 1, 'bare': 0}
PATHS = {k: [f[1] for f in v] for k, v in FILES.items()}


def raw_of(key):
    return U_('raw_' + key)


def val_of(key):
    v = raw_of(key)
    for i in range(NP[key]):
        v = U_('pipe_%s%d' % (key, i), v)
    return v


def snapshot(content, raw, but):
    """The state of all other items."""
    out = []
    for k, v in content.items():
        if k != but:
            out.append((k, v if not isinstance(v, DictV) else sorted((kk, id(vv) if not isinstance(vv, Term) else vv.key if hasattr(vv, 'key') else id(vv)) for kk, vv in v.d.items())))
    out.append(sorted((k, id(v)) for k, v in raw.d.items() if k != but))
    return out


for _key in ('one', 'two', 'bare'):
    for _state in ('new', 'raw', 'both'):
        for _op in ('item', 'raw'):
            @contract('dataset item %s (%s), %s access' % (_key, {'new': 'never accessed', 'raw': 'loaded', 'both': 'loaded and preprocessed'}[_state], _op), ['P23'],
                      [BD + '.__getitem__', BD + '.raw', BD + '.needs_to_load', BD + '.fetch_files', BD + '.content'])
            def _(ex, key=_key, state=_state, op=_op):
                # one access, from every state an item can be in; the states of the other items are arbitrary as well
                ev = []
                content = dataset(ex, ev)
                o = obj(ex, BD, name='set', data_root=PathH('root/set'), remote_root='https://remote/set/')
                raw = DictV({})
                o.attrs['_content'], o.attrs['_raw'] = DictV(content), raw

                def dl(ex, a, k):
                    ev.append(('fetch', a[0], a[1].key, a[2]))
                    return True
                ex.suite.summaries = dict(ex.suite.summaries, **{'dhg.utils.download:download_and_check': dl})
                for other in NP:
                    st = state if other == key else ('raw' if ex.decide(app('loaded:' + other, sort='B')) else 'new')
                    if st in ('raw', 'both'):
                        raw.d[other] = raw_of(other)
                    if st == 'both':
                        content[other].d['cache'] = val_of(other)
                before = snapshot(content, raw, key)
                get = lambda: ex.call(ex.getattr(o, '__getitem__' if op == 'item' else 'raw'), [key], {})
                r = get()
                want = val_of(key) if op == 'item' else raw_of(key)
                ex.check('the preprocessed value' if op == 'item' else 'the unprocessed value', eq(lift(r), want))
                loads = [e for e in ev if e[0] == 'load']
                fetches = [e[1:] for e in ev if e[0] == 'fetch']
                pipes = [e[1:] for e in ev if e[0] == 'pipe']
                if state == 'new':
                    ex.check('loaded exactly once, from its own files', loads == [('load', key, PATHS[key] if key == 'two' else PATHS[key][0])])
                    ex.check('every file is fetched and checked first', fetches == FILES[key] and [e[0] for e in ev[:len(fetches)]] == ['fetch'] * len(fetches))
                else:
                    ex.check('not loaded again', not loads and not fetches)
                if op == 'item' and state != 'both':
                    ex.check('preprocessed exactly once, in order', pipes == [(key, i) for i in range(NP[key])])
                else:
                    ex.check('not preprocessed', not pipes)
                ex.check('no other item is affected', snapshot(content, raw, key) == before)
                n = len(ev)
                ex.check('repeated access returns the same value', eq(lift(get()), want))
                ex.check('without loading or preprocessing again', len(ev) == n)
                # the state reached is one of the three the contract starts from
                oth = ex.call(ex.getattr(o, 'raw'), [key], {})
                ex.check('the unprocessed value stays available', eq(lift(oth), raw_of(key)))
                oth = ex.call(ex.getattr(o, '__getitem__'), [key], {})
                ex.check('the preprocessed value stays available', eq(lift(oth), val_of(key)))
                ex.check('loaded and preprocessed at most once in all', len([e for e in ev if e[0] == 'load']) <= 1 and len([e for e in ev if e[0] == 'pipe']) <= NP[key])


@contract('dataset: plain values and unknown items', ['P23'], [BD + '.__getitem__', BD + '.raw', BD + '.needs_to_load'])
def _(ex):
    ev = []
    content = dataset(ex, ev)
    o = obj(ex, BD, name='set', data_root=PathH('root/set'), remote_root='https://remote/set/')
    o.attrs['_content'], o.attrs['_raw'] = DictV(content), DictV({})
    for op in ('__getitem__', 'raw'):
        for key in ('plain', 'dict'):
            ex.check('a value that needs no file is returned as it is', ex.call(ex.getattr(o, op), [key], {}) is content[key])
        k, r = raises(ex, lambda: ex.call(ex.getattr(o, op), ['unknown'], {}))
        ex.check('an unknown item is refused', k is not None)
        ex.check('an item without files has no value', ex.call(ex.getattr(o, op), ['none'], {}) is None)
    ex.check('nothing is loaded', not ev)


@contract('dataset: where the files are', ['P23'], [BD + '.__init__'])
def _(ex):
    cls = getcls(ex, BD)
    for root in (None, 'here'):
        o = ex.instantiate(cls, ['set'] + ([root] if root else []), {})
        ex.check('nothing is loaded yet', o.attrs['_raw'].d == {} and o.attrs['_content'].d == {})
        ex.check('a folder of its own', isinstance(o.attrs['data_root'], PathH) and o.attrs['data_root'].key.endswith('/set') and (not root or o.attrs['data_root'].key == 'here/set'))
        ex.check('an address of its own', o.attrs['remote_root'].endswith('/set/'))


# ------------------------------------------------------------------ the datasets of the package
def dataset_classes(ex):
    out = []
    d = os.path.join(ex.prog.repo, 'dhg', 'data')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('__init__.py', 'base.py'):
            m = ex.prog.module('dhg.data.' + f[:-3])
            for nm, g in m.globals.items():
                if isinstance(g, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == 'BaseData' for b in g.bases):
                    out.append((m, nm))
    return out


def dv(v):
    return v.d if isinstance(v, DictV) else v


@contract('datasets: every item has files of its own', ['P23'], ['dhg.data'])
def _(ex):
    classes = dataset_classes(ex)
    ex.check('datasets are found', len(classes) > 0)
    for m, nm in classes:
        o = ex.instantiate(ex.prog.lookup(m, nm), [], {'data_root': 'here'})
        ex.check('%s: nothing is loaded yet' % nm, o.attrs['_raw'].d == {})
        owner = {}
        for key, cfg in dv(o.attrs['_content']).items():
            need = ex.call(ex.getattr(o, 'needs_to_load'), [key], {})
            if not isinstance(cfg, DictV):
                ex.check('%s.%s is a plain value' % (nm, key), need is False)
                continue
            ex.check('%s.%s is loaded on demand' % (nm, key), need is True)
            c = cfg.d
            ex.check('%s.%s has only known settings' % (nm, key), set(c) <= {'upon', 'loader', 'preprocess', 'cache'} and c.get('cache') is None)
            files = [n.val.d for n in lib.iter_nodes(ex, c['upon'])]
            names = [f['filename'] for f in files]
            for f in files:
                ex.check('%s.%s: %s has a checksum' % (nm, key, f['filename']), isinstance(f['md5'], str) and len(f['md5']) == 32 and all(x in '0123456789abcdef' for x in f['md5']))
            for n in names:
                ex.check('%s.%s: no other item is loaded from %s' % (nm, key, n), owner.setdefault(n, key) == key)
                base = n.rsplit('.', 1)[0]
                ex.check('%s.%s is loaded from the file of that name' % (nm, key), len(names) > 1 or base in (key, key.replace('_adj_list', '')))


for _f, _sort in (('to_tensor', 'R'), ('to_bool_tensor', 'B'), ('to_long_tensor', 'I')):
    for _in in ('R', 'I', 'B'):
        if (_f, _in) == ('to_long_tensor', 'R'):
            continue                  # truncation of reals: decided by replay only
        @contract('%s of a %s array' % (_f, {'R': 'real', 'I': 'integer', 'B': 'boolean'}[_in]), ['P23'], [P + 'common:' + _f])
        def _(ex, f=_f, sort=_sort, inp=_in):
            n, c = isym(ex, 'n', 1), isym(ex, 'C', 1)
            for dims in ((n,), (n, c)):
                X = tensor(ex, 'X%d' % len(dims), dims, inp)
                r = callq(ex, P + 'common:' + f, X)
                ex.check('a tensor of the promised kind', isinstance(r, Tensor) and r.dt == {'R': 'f', 'B': 'b', 'I': 'i'}[sort])
                ex.check('that shares nothing with its input', r is not X)
                conv = {'R': lambda x: x if inp != 'B' else ite(x, const(1, 'R'), RZERO), 'B': lambda x: x if inp == 'B' else ne(x, ZERO), 'I': lambda x: x if inp != 'B' else ite(x, ONE, ZERO)}[sort]
                teq(ex, 'with the same entries', r, dims, lambda *ix: conv(X.fn(*ix)))


@contract('load_from_pickle', ['P23'], [P + 'loader:load_from_pickle'])
def _(ex):
    ks = ['a', 'b', 'c']
    vals_ = {k: U_('value_' + k) for k in ks}
    fs = ex.gfs = GhostFS()
    fs.files['data.pkl'] = ('pickle', DictV(dict(vals_)))
    p = PathH('data.pkl')
    r = callq(ex, P + 'loader:load_from_pickle', p)
    ex.check('everything', isinstance(r, DictV) and list(r.d) == ks and and_(*[eq(r.d[k], vals_[k]) for k in ks]))
    for k in ks:
        ex.check('one key', eq(lift(callq(ex, P + 'loader:load_from_pickle', p, keys=k)), vals_[k]))
    for sel in ([], ['c'], ['c', 'a'], ks):
        r = callq(ex, P + 'loader:load_from_pickle', p, keys=ListV(tuple(Item(x) for x in sel)))
        ex.check('the selected keys', isinstance(r, DictV) and sorted(r.d) == sorted(sel) and and_(*[eq(r.d[k], vals_[k]) for k in sel]))
    k, r = raises(ex, lambda: callq(ex, P + 'loader:load_from_pickle', ListV((Item(p),))))
    ex.check('several files are refused', k == 'ValueError')
    ex.check('nothing is written', not fs.writes)
