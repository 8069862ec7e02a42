"""P17: dataset splits.  random.shuffle is an arbitrary permutation (one per class or user)."""
from pyvc.spec import *
from contracts.structs import *
from pyvc.vals import vsum, leaves, nlen

DS = 'dhg.utils.dataset_split'


def labels(ex, kind='tensor'):
    n = isym(ex, 'n', 2)
    f = lambda v: app('lab', lift(v), sort='I')
    t = tensor(ex, 'lab', (n,), sort='I')
    if kind == 'numpy':
        t.tag = 'np'
    if kind == 'list':
        q = fresh('q')
        t = ListV((Loop(q, n, (Item(f(q)),)),), frozen='the labels')
    return n, f, t


def mask(ex, label, m, n):
    m = tlib.densify(ex, m) if isinstance(m, tlib.RTensor) else m
    if not isinstance(m, Tensor) or m.dt != 'b' or len(m.shape) != 1:
        ex.fail(label, 'not a boolean mask')
        return None
    if not ex.check(label + ': one entry per vertex', eq(m.shape[0], n)):
        return None
    return m.fn


def clip(k, n):
    return ite(le(k, n), k, n)


def sub0(a, b):
    return add(a, mul(const(-1), b))


def splits_of(c, sizes):
    """Exhaustive case distinction: how many of the parts can be filled from a class of c."""
    tot, cases, above = ZERO, [], []
    for z in sizes:
        nt = add(tot, z(c))
        cases.append(above + [lt(c, nt)])
        above = above + [le(nt, c)]
        tot = nt
    return cases + [above]


def partition(ex, ms, n, f, sizes, rest):
    """ms: masks of the parts in order; sizes: requested numbers for a class of size c, as a list of functions of c; rest: the last part takes what is left."""
    size = lambda x: ssum(n, lambda u: iverson(eq(f(u), f(x)), ONE))
    v = fresh('v')
    rng = [le(ZERO, v), lt(v, n)]
    for k, cs in enumerate(splits_of(size(v), sizes)):
        for i in range(len(ms)):
            for j in range(i + 1, len(ms)):
                ex.check('parts %d and %d are disjoint (case %d)' % (i, j, k), not_(and_(ms[i](v), ms[j](v))), hyps=rng + cs)
        if rest:
            ex.check('together the parts cover every vertex (case %d)' % k, or_(*[m(v) for m in ms]), hyps=rng + cs)
    w = fresh('w')
    rng = [le(ZERO, w), lt(w, n)]
    same = lambda u: eq(f(u), f(w))
    c = size(w)
    left = c
    for i, m in enumerate(ms):
        got = ssum(n, lambda u: iverson(and_(same(u), m(u)), ONE))
        want = left if (i == len(ms) - 1 and rest) else clip(sizes[i](c), left)
        for k, cs in enumerate(splits_of(c, sizes)):
            ex.check('part %d holds the requested number of every class, limited by what is left (case %d)' % (i, k), eq(got, want), hyps=rng + cs)
        left = sub0(left, want)


for _kind in ('tensor', 'numpy', 'list'):
    for _val in (False, True):
        for _test in (False, True):
            if _kind != 'tensor' and (_val or _test):
                continue

            @contract('split_by_num[%s, %s, %s]' % (_kind, 'val' if _val else 'no val', 'test' if _test else 'rest'), ['P17', 'P27'], [DS + ':split_by_num', DS + ':_idx2mask'])
            def _(ex, kind=_kind, val=_val, test=_test):
                n, f, t = labels(ex, kind)
                k = [isym(ex, 'train', 0)]
                kw = {}
                if val:
                    k.append(isym(ex, 'val', 1))
                    kw['val_num'] = k[1]
                if test:
                    k.append(isym(ex, 'test', 0))
                    kw['test_num'] = k[-1]
                r = ex.call(getcls(ex, DS + ':split_by_num'), [n, t, k[0]], kw)
                if not isinstance(r, tuple) or len(r) != 2 + val:
                    ex.fail('one mask per part', 'got %r' % (r,))
                    return
                ms = [mask(ex, 'mask', m, n) for m in r]
                if None in ms:
                    return
                partition(ex, ms, n, f, [lambda c, x=x: x for x in k], not test)
                unchanged(ex)


def ratio(ex, name):
    r = app(name, sort='R')
    ex.assume(le(RZERO, r))
    return r


def part_of(ex, c, r):
    return app('ifloor', ex.norm().canon(mul(c, r)), sort='I')


def ratio_lemma(ex, r):
    """c >= 0, r_i >= 0, sum r_i <= 1  |-  sum c*r_i <= c  (discharged once below, then used for the class sizes)"""
    c = fresh('c')
    ex.check('lemma: the shares of a class do not exceed it', le(add(*[mul(c, x) for x in r]), c), hyps=[le(ZERO, c)])

    def inst(x):
        fs = list(x.args) if x.op == 'mul' else []
        if not any(y in r for y in fs):
            return []
        d = mul(*[y for y in fs if y not in r])
        return [implies(le(ZERO, d), and_(le(add(*[mul(d, y) for y in r]), d), *[le(RZERO, mul(d, y)) for y in r]))]
    ex.th.axiom('ifloor', inst)


for _kind in ('tensor', 'numpy', 'list'):
    for _val in (False, True):
        for _test in (False, True):
            if _kind != 'tensor' and (_val or _test):
                continue

            @contract('split_by_ratio[%s, %s, %s]' % (_kind, 'val' if _val else 'no val', 'test' if _test else 'rest'), ['P17', 'P27'], [DS + ':split_by_ratio', DS + ':_idx2mask'])
            def _(ex, kind=_kind, val=_val, test=_test):
                n, f, t = labels(ex, kind)
                r = [ratio(ex, 'rtrain')]
                kw = {}
                if val:
                    r.append(ratio(ex, 'rval'))
                    ex.assume(lt(RZERO, r[1]))
                    kw['val_ratio'] = r[1]
                if test:
                    r.append(ratio(ex, 'rtest'))
                    kw['test_ratio'] = r[-1]
                ex.assume((le if test else lt)(add(*r), const(1, 'R')))
                ratio_lemma(ex, r)
                o = ex.call(getcls(ex, DS + ':split_by_ratio'), [n, t, r[0]], kw)
                if not isinstance(o, tuple) or len(o) != 2 + val:
                    ex.fail('one mask per part', 'got %r' % (o,))
                    return
                ms = [mask(ex, 'mask', m, n) for m in o]
                if None in ms:
                    return
                partition(ex, ms, n, f, [lambda c, x=x: part_of(ex, c, x) for x in r], not test)
                unchanged(ex)


class Bip(lib.HostObj):
    """A bipartite graph of which only num_u and nbr_v are used; nbr_v(u) is a new list of deg(u) vertices (contract of BiGraph.nbr_v, P08)."""

    def __init__(self, ex):
        self.num_u = isym(ex, 'num_u', 1)
        ex.th.axiom('udeg', lambda u: [le(ZERO, app('udeg', u, sort='I'))])

    def getattr(self, ex, name):
        if name == 'num_u':
            return self.num_u
        if name == 'nbr_v':
            def f(ex, a, k):
                u = lift(a[0])
                q = fresh('q')
                return ListV((Loop(q, app('udeg', u, sort='I'), (Item(app('unbr', u, q, sort='I')),)),))
            return lib.HostFn('nbr_v', f)
        raise PyRaise('AttributeError', name, ex.where)


def entries(ex, l):
    """(binders, conditions, first element, nodes of the rest) of every entry of an adjacency list."""
    out = []
    for bs, cs, val in leaves(lib.nohole(l.nodes)):
        ns = val.nodes if isinstance(val, ListV) else None
        if not ns or not isinstance(ns[0], Item):
            ex.fail('every entry is a list starting with the user', 'got %r' % (val,))
            return None
        out.append((bs, cs, ns[0].val, ns[1:]))
    return out


def ui(ex, r, g, want):
    """want(m): number of training entries of a user with m > 0 neighbours."""
    if not isinstance(r, tuple) or len(r) != 2 or not all(isinstance(x, ListV) for x in r):
        ex.fail('two adjacency lists', 'got %r' % (r,))
        return
    es = [entries(ex, x) for x in r]
    if None in es:
        return
    u, x = fresh("u"), fresh("x")
    m = app('udeg', u, sort='I')
    rng = [le(ZERO, u), lt(u, g.num_u)]
    mine = lambda e: and_(*(list(e[1]) + [eq(lift(e[2]), u)]))
    cnt = lambda e: add(*[vsum(e_[0], mine(e_), ONE) for e_ in e])
    size = lambda e: add(*[vsum(e_[0], mine(e_), nlen(e_[3])) for e_ in e])
    occ = lambda e: add(*[vsum(tuple(e_[0]) + tuple(bs), and_(mine(e_), *cs), iverson(eq(lift(v), x), ONE)) for e_ in e for bs, cs, v in leaves(e_[3])])
    for name, cs in (('no neighbour', [eq(m, ZERO)]), ('few neighbours', [le(ONE, m), le(m, want(m))]), ('enough neighbours', [lt(want(m), m), le(ONE, m)])):
        h = rng + cs
        k = clip(want(m), m)
        ex.check('one training entry per user with neighbours (%s)' % name, eq(cnt(es[0]), iverson(le(ONE, m), ONE)), hyps=h)
        ex.check('at most one test entry per user (%s)' % name, le(cnt(es[1]), ONE), hyps=h)
        ex.check('number of training neighbours (%s)' % name, eq(size(es[0]), k), hyps=h)
        ex.check('number of test neighbours (%s)' % name, eq(size(es[1]), sub0(m, k)), hyps=h)
        ex.check('training and test neighbours together are the neighbours of the user (%s)' % name, eq(add(occ(es[0]), occ(es[1])), ssum(m, lambda p: iverson(eq(app('unbr', u, p, sort='I'), x), ONE))), hyps=h)
    bad = [e for es_ in es for e in es_]
    ex.check('only users of the graph occur', and_(*[not_(exists(b[0], and_(*(list(b[1]) + [not_(and_(le(ZERO, lift(b[2])), lt(lift(b[2]), g.num_u)))])))) for b in bad]))


@contract('split_by_num_for_UI_bigraph', ['P17', 'P27'], [DS + ':split_by_num_for_UI_bigraph'])
def _(ex):
    g = Bip(ex)
    k = isym(ex, 'k', 0)
    ui(ex, ex.call(getcls(ex, DS + ':split_by_num_for_UI_bigraph'), [g, k], {}), g, lambda m: k)


@contract('split_by_ratio_for_UI_bigraph', ['P17', 'P27'], [DS + ':split_by_ratio_for_UI_bigraph'])
def _(ex):
    g = Bip(ex)
    r = [ratio(ex, 'rtrain')]
    ex.assume(le(r[0], const(1, 'R')))
    ratio_lemma(ex, r)
    ui(ex, ex.call(getcls(ex, DS + ':split_by_ratio_for_UI_bigraph'), [g, r[0]], {}), g, lambda m: part_of(ex, m, r[0]))
