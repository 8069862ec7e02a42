"""P15 generators, P16 list utilities, P17 splits, P18 user-item datasets, P26 sparse dropout, P27 seeding."""
import copy
import itertools
import math
import random

import numpy as np
import torch
import dhg
from dhg import Graph, DiGraph, BiGraph, Hypergraph
import dhg.random as dr
import dhg.utils as du

from common import *
import graphs as G_
import hypers as H_
from ref import RefGraph


# ------------------------------------------------------------------ P15
class scripted:
    """random.random() first returns the scripted values, then real draws."""

    def __init__(self, vals):
        self.vals = list(vals or [])

    def __enter__(self):
        self.real = random.random
        vals, real = self.vals, self.real
        random.random = lambda: vals.pop(0) if vals else real()
        return self

    def __exit__(self, *a):
        random.random = self.real
        return False


def pairs_of(g):
    return [tuple(int(x) for x in e) for e in g.e[0]]


@case
def gen_graph(p):
    f, n, kind = p['f'], p['n'], p['kind']
    fn = getattr(dr, f)
    random.seed(p['seed'])
    with scripted(p.get('script')):
        if kind == 'b':
            g = fn(n, p['m'], p['arg'])
        else:
            g = fn(n, p['arg'])
    if kind == 'b':
        need((g.num_u, g.num_v) == (n, p['m']), '%s: sizes (%d, %d)', f, g.num_u, g.num_v)
        poss = n * p['m']
    else:
        need(g.num_v == n, '%s: %d vertices want %d', f, g.num_v, n)
        poss = n * (n - 1) // (2 if kind == 'g' else 1)
    es = pairs_of(g)
    need(g.num_e == len(es), '%s: num_e %d, %d edges listed', f, g.num_e, len(es))
    key = (lambda e: tuple(sorted(e))) if kind == 'g' else (lambda e: e)
    need(len(set(map(key, es))) == len(es), '%s: repeated edges in %s', f, es)
    for a, b in es:
        if kind == 'b':
            need(0 <= a < n and 0 <= b < p['m'], '%s: edge %s out of range', f, (a, b))
        else:
            need(0 <= a < n and 0 <= b < n and a != b, '%s: edge %s', f, (a, b))
    need(all(float(w) == 1.0 for w in g.e[1]), '%s: merged or weighted edges %s', f, g.e)
    if f.endswith('Gnm'):
        need(len(es) == p['arg'], '%s: %d edges, requested %d', f, len(es), p['arg'])
    elif p['arg'] == 0:
        need(len(es) == 0, '%s: %d edges at probability zero', f, len(es))
    elif p['arg'] == 1:
        need(len(es) == poss, '%s: %d of %d edges at probability one', f, len(es), poss)


@case
def gen_hyper(p):
    f, n = p['f'], p['n']
    random.seed(p['seed'])
    k = p.get('k')
    with scripted(p.get('script')):
        if f == 'hypergraph_Gnm':
            kw = {'prob_k_list': p['probs']} if p['method'] == 'custom' else {}
            pk = copy.deepcopy(p.get('probs'))
            g = dr.hypergraph_Gnm(n, p['arg'], method=p['method'], **kw)
            if kw:
                need(p['probs'] == pk, 'prob_k_list changed')
        else:
            g = getattr(dr, f)(k, n, p['arg'])
    need(g.num_v == n, '%s: %d vertices', f, g.num_v)
    es = list(g.e[0])
    need(g.num_e == len(es), '%s: num_e', f)
    need(len(set(es)) == len(es), '%s: repeated hyperedges', f)
    for e in es:
        need(len(set(e)) == len(e) and all(0 <= v < n for v in e), '%s: hyperedge %s', f, e)
        if k is not None:
            need(len(e) == k, '%s: hyperedge %s has not %d vertices', f, e, k)
        else:
            need(2 <= len(e) <= n, '%s: hyperedge %s', f, e)
            if p['method'] == 'custom':
                need(p['probs'][len(e) - 2] > 0, '%s: order %d has probability zero', f, len(e))
    need(all(float(w) == 1.0 for w in g.e[1]), '%s: merged hyperedges %s', f, g.e)
    if f.endswith('Gnm'):
        need(len(es) == p['arg'], '%s: %d hyperedges, requested %d', f, len(es), p['arg'])
    elif p['arg'] == 0:
        need(not es, '%s: hyperedges at probability zero', f)
    elif p['arg'] == 1:
        need(len(es) == math.comb(n, k), '%s: %d of %d hyperedges at probability one', f, len(es), math.comb(n, k))


@case
def gen_feature(p):
    labels = p['labels']
    arg = {'list': list(labels), 'np': np.array(labels), 'torch': torch.tensor(labels)}[p['as']]
    x = dr.normal_features(arg, noise=0.0)
    ls = sorted(set(labels))
    want = np.zeros((len(labels), len(ls)))
    for i, l in enumerate(labels):
        want[i, ls.index(l)] = 1
    need_array(x, want, 'normal_features without noise')


@generator('P15')
def gen_p15(r, tier):
    tiny = 1 - 2 ** -53
    scripts = [None, [0.0] * 40, [tiny] * 40, [0.5, 0.0, tiny] * 8, [0.999, 0.001] * 10]
    for n in (2, 3, 4):
        for f in ('graph_Gnp', 'graph_Gnp_fast', 'digraph_Gnp', 'digraph_Gnp_fast'):
            for pr in (0, 0.0, 1, 1.0, 0.5, 0.05, 0.95, 1e-20, 1e-9):
                for s in scripts:
                    yield 'gen_graph', dict(f=f, kind='d' if f[0] == 'd' else 'g', n=n, arg=pr, seed=r.randrange(10 ** 6), script=s)
        for f, c in (('graph_Gnm', n * (n - 1) // 2), ('digraph_Gnm', n * (n - 1))):
            for m in range(0, c + 1):
                yield 'gen_graph', dict(f=f, kind='d' if f[0] == 'd' else 'g', n=n, arg=m, seed=r.randrange(10 ** 6))
        for m in (2, 3):
            for e in range(0, n * m + 1):
                yield 'gen_graph', dict(f='bigraph_Gnm', kind='b', n=n, m=m, arg=e, seed=r.randrange(10 ** 6))
            for pr in (0, 1, 0.5):
                for s in scripts:
                    yield 'gen_graph', dict(f='bigraph_Gnp', kind='b', n=n, m=m, arg=pr, seed=r.randrange(10 ** 6), script=s)
        for k in range(2, n + 1):
            for pr in (0, 1, 0.5):
                for s in scripts:
                    yield 'gen_hyper', dict(f='uniform_hypergraph_Gnp', n=n, k=k, arg=pr, seed=r.randrange(10 ** 6), script=s)
            for m in range(1, math.comb(n, k) + 1):
                yield 'gen_hyper', dict(f='uniform_hypergraph_Gnm', n=n, k=k, arg=m, seed=r.randrange(10 ** 6))
    while True:
        n = r.randint(2, 12) if r.random() < 0.96 else r.choice([20, 45])
        c = r.random()
        seed = r.randrange(10 ** 9)
        if c < 0.35:
            f = r.choice(['graph_Gnp', 'graph_Gnp_fast', 'digraph_Gnp', 'digraph_Gnp_fast'])
            sc = [r.choice([0.0, tiny, r.random(), r.random() ** 5]) for _ in range(r.randint(0, 30))]
            yield 'gen_graph', dict(f=f, kind='d' if f[0] == 'd' else 'g', n=n, arg=r.choice([r.random(), r.random() ** 4, 1 - r.random() ** 4]), seed=seed, script=sc)
        elif c < 0.5:
            f = r.choice(['graph_Gnm', 'digraph_Gnm'])
            mx = n * (n - 1) // (2 if f[0] == 'g' else 1)
            yield 'gen_graph', dict(f=f, kind='d' if f[0] == 'd' else 'g', n=n, arg=r.randint(0, mx), seed=seed)
        elif c < 0.65:
            m = r.randint(2, 7)
            if r.random() < 0.5:
                yield 'gen_graph', dict(f='bigraph_Gnm', kind='b', n=n, m=m, arg=r.randint(0, n * m), seed=seed)
            else:
                yield 'gen_graph', dict(f='bigraph_Gnp', kind='b', n=n, m=m, arg=r.random(), seed=seed)
        elif c < 0.8:
            n = r.randint(2, 7)
            k = r.randint(2, n)
            if r.random() < 0.5:
                yield 'gen_hyper', dict(f='uniform_hypergraph_Gnp', n=n, k=k, arg=r.random(), seed=seed)
            else:
                yield 'gen_hyper', dict(f='uniform_hypergraph_Gnm', n=n, k=k, arg=r.randint(1, math.comb(n, k)), seed=seed)
        elif c < 0.95:
            n = r.randint(3, 8)
            meth = r.choice(['uniform', 'low_order_first', 'high_order_first', 'custom'])
            if meth == 'low_order_first':
                m = r.randint(1, math.comb(n, 2))
            elif meth == 'high_order_first':
                m = r.randint(1, n)
            elif meth == 'uniform':
                m = r.randint(1, 2 ** (n - 1))
            else:
                m = r.randint(1, n)
            probs = [0.0] * (n - 1)
            for j in r.sample(range(n - 1), r.randint(1, n - 1)):
                probs[j] = r.choice([1.0, 0.5, 2.0])
            if meth == 'custom':
                m = min(m, sum(math.comb(n, j + 2) for j in range(n - 1) if probs[j] > 0))
            yield 'gen_hyper', dict(f='hypergraph_Gnm', n=n, method=meth, probs=probs, arg=m, seed=seed)
        else:
            yield 'gen_feature', {'labels': [r.choice([0, 1, 2, 5, 9]) for _ in range(r.randint(1, 8))], 'as': r.choice(['list', 'np', 'torch'])}


# ------------------------------------------------------------------ P16
@case
def adj_conv(p):
    es = [tuple(e) for e in p['edges']]
    arg = list(es)
    d = du.edge_list_to_adj_dict(arg)
    al = du.edge_list_to_adj_list(arg)
    need(arg == es, 'the edge list of the caller changed')
    want = {}
    for a, b in es:
        want.setdefault(a, []).append(b)
    need({k: list(v) for k, v in d.items() if len(v)} == want, 'edge_list_to_adj_dict: %s want %s', dict(d), want)
    need(len(al) == len(want), 'edge_list_to_adj_list: %s want %s', al, want)
    got = {}
    for line in al:
        need(line[0] not in got, 'edge_list_to_adj_list: two lines for %s', line[0])
        got[line[0]] = list(line[1:])
    need(got == want, 'edge_list_to_adj_list: %s want %s', got, want)
    ac = copy.deepcopy(al)
    back = du.adj_list_to_edge_list(al)
    need(al == ac, 'adj_list_to_edge_list changed its input')
    need(sorted(map(tuple, back)) == sorted(es), 'converting back: %s want %s', back, es)
    for s in want:
        need([tuple(e) for e in back if e[0] == s] == [e for e in es if e[0] == s], 'converting back changes the order for source %s', s)


@case
def adj_back(p):
    al = copy.deepcopy(p['adj'])
    es = du.adj_list_to_edge_list(al)
    need(al == p['adj'], 'adj_list_to_edge_list changed its input')
    want = [(l[0], x) for l in p['adj'] for x in l[1:]]
    need([tuple(e) for e in es] == want, 'adj_list_to_edge_list: %s want %s', es, want)


def numbering(labels):
    return {s: i for i, s in enumerate(sorted(set(labels)))}


@case
def remap(p):
    lists, bip, adj, many = p['lists'], p['bip'], p['adj'], p['many']
    ms = [[[str(x) for x in l] for l in li] for li in lists]
    if bip:
        um = numbering(l[0] for li in ms for l in li)
        vm = numbering(x for li in ms for l in li for x in l[1:])
        want = [[[um[l[0]]] + [vm[x] for x in l[1:]] for l in li] for li in ms]
        wmaps = [um, vm]
    else:
        m = numbering(x for li in ms for l in li for x in l)
        want = [[[m[x] for x in l] for l in li] for li in ms]
        wmaps = [m]
    conv = (lambda l: list(l)) if adj else (lambda l: tuple(l))
    args = [[conv(l) for l in li] for li in lists]
    keep = copy.deepcopy(args)
    name = ('remap_adj_list' if adj else 'remap_edge_list') + ('s' if many else '')
    fn = getattr(du, name)
    if many:
        plain = fn(*args, bipartite_graph=bip)
        full = fn(*args, bipartite_graph=bip, ret_map=True)
    else:
        plain = fn(args[0], bipartite_graph=bip)
        full = fn(args[0], bipartite_graph=bip, ret_map=True)
    need(args == keep, '%s changed its input', name)
    norm = lambda x: [[list(l) for l in li] for li in (x if many else [x])]
    need(norm(plain) == want, '%s: %s want %s', name, plain, want)
    need(len(full) == 1 + len(wmaps), '%s(ret_map=True): %d values', name, len(full))
    need(norm(full[0]) == want, '%s(ret_map=True): %s want %s', name, full[0], want)
    for got, wm in zip(full[1:], wmaps):
        need(dict(got) == wm, '%s: map %s want %s', name, got, wm)


@generator('P16')
def gen_p16(r, tier):
    labs = [0, 1, 2, 9, 10, 11, 100, -1, 'a', 'b', 'B', '1', '02', 3.5, ' a', 'a ', 'A', '', 'é', 10 ** 18, 10 ** 18 + 1, 1.0, -0.0, 'a long name of a vertex, first', 'a long name of a vertex, second', '1.0', True, 'a\n']
    yield 'adj_conv', dict(edges=[])
    while True:
        c = r.random()
        pool = r.sample(labs, r.randint(1, len(labs)))
        if c < 0.25:
            pl = list(range(r.randint(1, 6) if r.random() < 0.9 else 40))
            yield 'adj_conv', dict(edges=[[r.choice(pl), r.choice(pl)] for _ in range(r.randint(0, 12) if r.random() < 0.9 else r.randint(20, 300))])
        elif c < 0.35:
            hi = r.choice([6, 6, 6, 150])
            yield 'adj_back', dict(adj=[[r.randrange(hi) for _ in range(r.randint(1, 5) if r.random() < 0.97 else 80)] for _ in range(r.randint(0, 5) if r.random() < 0.95 else 30)])
        else:
            adj, many, bip = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
            big = r.random() < 0.08
            if big:
                pool = ['%s%d' % (r.choice(['', 'u', 'x']), i) for i in range(r.choice([20, 130]))]
            lists = []
            for _ in range(r.randint(1, 3) if many else 1):
                if adj:
                    li = [[r.choice(pool) for _ in range(r.randint(1, 5))] for _ in range(r.randint(0, 5))]
                else:
                    li = [[r.choice(pool), r.choice(pool)] for _ in range(r.randint(0, 6) if not big else 80)]
                lists.append(li)
            yield 'remap', dict(lists=lists, bip=bip, adj=adj, many=many)


# ------------------------------------------------------------------ P17
@case
def split(p):
    labels = p['labels']
    n = len(labels)
    random.seed(p['seed'])
    arg = {'list': list(labels), 'np': np.array(labels), 'torch': torch.tensor(labels), 'col': torch.tensor(labels).view(-1, 1)}[p['as']]
    keep = copy.deepcopy(arg)
    a, b, c = p['train'], p['val'], p['test']
    if p['by'] == 'num':
        out = du.split_by_num(n, arg, a, b, c)
    else:
        out = du.split_by_ratio(n, arg, a, b, c)
    need((arg == keep) if isinstance(arg, list) else bool((arg == keep).all()), 'the labels of the caller changed')
    with_val = b is not None and b != 0
    need(len(out) == (3 if with_val else 2), 'split returned %d masks', len(out))
    masks = [np.asarray(m) for m in out]
    for m in masks:
        need(m.shape == (n,) and m.dtype == np.bool_, 'mask of shape %s dtype %s', m.shape, m.dtype)
    need((sum(m.astype(int) for m in masks) <= 1).all(), 'masks overlap: %s', [m.tolist() for m in masks])
    if c is None:
        need((sum(m.astype(int) for m in masks) == 1).all(), 'some vertex is in no part: %s', [m.tolist() for m in masks])
    train, test = masks[0], masks[-1]
    val = masks[1] if with_val else np.zeros(n, bool)
    lab = np.array(labels)
    for cl in sorted(set(labels)):
        idx = lab == cl
        k = int(idx.sum())
        if p['by'] == 'num':
            w = [a, b or 0, c]
        else:
            w = [int(k * a), int(k * (b or 0)), None if c is None else int(k * c)]
        left = k
        want = []
        for x in w:
            x = left if x is None else min(left, x)
            want.append(x)
            left -= x
        got = [int(train[idx].sum()), int(val[idx].sum()), int(test[idx].sum())]
        need(got == want, 'class %s (%d vertices): sizes %s want %s', cl, k, got, want)


@case
def split_ui(p):
    g = BiGraph(p['n'], p['m'])
    if p['edges']:
        g.add_edges(p['edges'])
    nb = {u: sorted({b for a, b in p['edges'] if a == u}) for u in range(p['n'])}
    random.seed(p['seed'])
    if p['by'] == 'num':
        tr, te = du.split_by_num_for_UI_bigraph(g, p['arg'])
    else:
        tr, te = du.split_by_ratio_for_UI_bigraph(g, p['arg'])
    for name, li in (('train', tr), ('test', te)):
        need(len({l[0] for l in li}) == len(li), '%s: two lines for a user', name)
    T, E = {l[0]: l[1:] for l in tr}, {l[0]: l[1:] for l in te}
    need(set(T) | set(E) <= set(u for u in nb if nb[u]), 'lines for users without items: %s %s', T, E)
    for u in nb:
        a, b = T.get(u, []), E.get(u, [])
        need(sorted(a + b) == nb[u], 'user %d: train %s and test %s do not partition %s', u, a, b, nb[u])
        want = min(p['arg'], len(nb[u])) if p['by'] == 'num' else int(len(nb[u]) * p['arg'])
        need(len(a) == want, 'user %d: %d train items want %d', u, len(a), want)
    need({u: sorted(g.nbr_v(u)) for u in nb} == nb, 'the bipartite graph changed')


@generator('P17')
def gen_p17(r, tier):
    for labels in itertools.product((0, 1), repeat=4):
        for a, b, c in itertools.product((0, 1, 2), (None, 1, 2), (None, 1, 2)):
            yield 'split', {'by': 'num', 'labels': list(labels), 'train': a, 'val': b, 'test': c, 'seed': 1, 'as': 'list'}
    while True:
        seed = r.randrange(10 ** 9)
        if r.random() < 0.7:
            pool = r.choice([[0, 1], [0, 1, 2], [1, 2, 3], [0, 2], [5, 7], [0], [3, 1, 4], list(range(6)), [2, 3]])
            labels = [r.choice(pool) for _ in range(r.randint(2, 30) if r.random() < 0.95 else r.choice([100, 260]))]
            d = {'labels': labels, 'seed': seed, 'as': r.choice(['list', 'np', 'torch', 'col'])}
            if r.random() < 0.5:
                d.update(by='num', train=r.randint(0, 5), val=r.choice([None, 0, 1, 2, 5]), test=r.choice([None, 0, 1, 3]))
            else:
                a = r.choice([0.1, 0.2, 0.5, 0.6, 1 / 3, 0.25])
                b = r.choice([None, 0, 0.1, 0.2, 0.3])
                c = r.choice([None, 0.1, 0.05, 0.2])
                if a + (b or 0) + (c or 0) > 1:
                    continue
                d.update(by='ratio', train=a, val=b, test=c)
            yield 'split', d
        else:
            n, m = (r.randint(2, 5), r.randint(2, 8)) if r.random() < 0.95 else (3, 90)
            edges = [[r.randrange(n), r.randrange(m)] for _ in range(r.randint(1, 25) if m < 9 else 150)]
            if r.random() < 0.5:
                yield 'split_ui', dict(n=n, m=m, edges=edges, by='num', arg=r.randint(0, 5), seed=seed)
            else:
                yield 'split_ui', dict(n=n, m=m, edges=edges, by='ratio', arg=r.choice([0.0, 0.2, 0.5, 0.8, 1.0]), seed=seed)


# ------------------------------------------------------------------ P18
@case
def ui_train(p):
    n, m = p['n'], p['m']
    pairs = [tuple(e) for e in p['pairs']]
    arg = list(pairs)
    rec = {u: {b for a, b in pairs if a == u} for u in range(n)}
    if any(len(v) >= m for v in rec.values()):
        raise Reject
    if not p['strict'] and any(not v for v in rec.values()):
        raise Reject
    random.seed(p['seed'])
    ds = du.UserItemDataset(n, m, arg, strict_link=p['strict'], phase='train')
    need(len(ds) == len(pairs), 'length %d want %d', len(ds), len(pairs))
    for rep in range(p.get('reps', 4)):
        for i in range(len(pairs)):
            u, a, b = ds[i]
            if p['strict']:
                need((u, a) == pairs[i], 'sample %d is (%s, %s), the interaction is %s', i, u, a, pairs[i])
            need(u in rec and a in rec[u], 'positive item %s of user %s is no interaction', a, u)
            need(0 <= b < m, 'negative item %s out of range', b)
            need(b not in rec[u], 'negative item %s of user %s is an interaction', b, u)
    need(arg == pairs, 'the interactions of the caller changed')
    for rep in range(p.get('reps', 4) * 3):
        if all(rec.values()):
            u, a, b = ds.sample_triplet()
            need(a in rec[u] and b not in rec[u] and 0 <= b < m, 'sample_triplet gives (%s, %s, %s)', u, a, b)


@case
def ui_test(p):
    n, m = p['n'], p['m']
    test, train = [tuple(e) for e in p['test']], [tuple(e) for e in p['train']]
    a, b = list(test), list(train)
    ds = du.UserItemDataset(n, m, a, b, strict_link=p['strict'], phase='test')
    need(len(ds) == n, 'length %d want %d users', len(ds), n)
    for u in p['order']:
        idx, mask, truth = ds[u]
        need(idx == u, 'sample of user %s is labelled %s', u, idx)
        wm = [-math.inf if (u, i) in train else 0.0 for i in range(m)]
        wt = [1.0 if (u, i) in test else 0.0 for i in range(m)]
        need(mask.tolist() == wm, 'user %d: mask %s want %s', u, mask.tolist(), wm)
        need(truth.tolist() == wt, 'user %d: truth %s want %s', u, truth.tolist(), wt)
    need(len(ds) == n, 'length changed')
    need(a == test and b == train, 'the interactions of the caller changed')


@case
def ui_bad(p):
    with raises('a test dataset without training interactions'):
        du.UserItemDataset(2, 2, [(0, 1)], phase='test')
    with raises('phase "valid"'):
        du.UserItemDataset(2, 2, [(0, 1)], [(0, 0)], phase='valid')


@generator('P18')
def gen_p18(r, tier):
    yield 'ui_bad', {}
    while True:
        n, m = r.randint(1, 5), r.randint(2, 6)
        k = r.randint(1, 12)
        if r.random() < 0.06:
            n, m = r.choice([(1, 90), (2, 70), (40, 9), (3, 140)])
            k = r.randint(m // 2, 3 * m)
        ps = [[r.randrange(n), r.randrange(m)] for _ in range(k)]
        if r.random() < 0.6:
            ps += [[u, r.randrange(m)] for u in range(n)]
            yield 'ui_train', dict(n=n, m=m, pairs=ps, strict=r.random() < 0.5, seed=r.randrange(10 ** 9))
        else:
            tr = [[r.randrange(n), r.randrange(m)] for _ in range(r.randint(0, 2 * k))]
            order = [r.randrange(n) for _ in range(2 * n)] + list(range(n))
            yield 'ui_test', dict(n=n, m=m, test=ps, train=tr, strict=r.random() < 0.5, order=order)


# ------------------------------------------------------------------ P26
@case
def sp_drop(p):
    torch.manual_seed(p['seed'])
    i = torch.tensor(p['idx'], dtype=torch.long).view(-1, 2).t()
    v = torch.tensor(p['val'], dtype=getattr(torch, p.get('dt', 'float32')))
    tol = 1e-6 if v.dtype == torch.float32 else 1e-12
    x = torch.sparse_coo_tensor(i, v, tuple(p['size']))
    if p['coal']:
        x = x.coalesce()
    ref = x.coalesce().clone()
    keep_i, keep_v = x._indices().clone(), x._values().clone()
    kw = {} if p['fill'] is None else {'fill_value': p['fill']}
    y = du.sparse_dropout(x, p['p'], **kw)
    fill = p['fill'] or 0.0
    need(torch.equal(x._indices(), keep_i) and torch.equal(x._values(), keep_v), 'sparse_dropout changed its input')
    need(tuple(y.shape) == tuple(p['size']), 'shape %s', tuple(y.shape))
    pos = {tuple(k): float(w) for k, w in zip(ref._indices().t().tolist(), ref._values().tolist())}
    yi, yv = y._indices().t().tolist(), y._values().tolist()
    need(len(set(map(tuple, yi))) == len(yi), 'positions stored twice')
    for k, w in zip(yi, yv):
        need(tuple(k) in pos, 'entry at %s does not exist in the input', k)
        ok = (near(w, pos[tuple(k)], tol) and p['p'] < 1) or (near(w, fill, 1e-6) and p['p'] > 0)
        need(ok, 'entry %s: %s from %s with fill %s at rate %s', k, w, pos[tuple(k)], fill, p['p'])
    need(set(map(tuple, yi)) == set(pos) or (fill == 0), 'stored positions %s want %s', yi, sorted(pos))
    if fill == 0:
        miss = set(pos) - set(map(tuple, yi))
        need(not miss or p['p'] > 0, 'entries %s disappeared at rate zero', miss)
    if p['p'] > 0 and len(pos):  # the result must be a new matrix
        need(y._values().data_ptr() != x._values().data_ptr() or p['p'] == 0, 'result shares the values of the input')


@case
def sp_drop_rate(p):
    """the kept fraction is about 1-p (bound far outside the sampling error)"""
    torch.manual_seed(p['seed'])
    n = 4000
    x = torch.sparse_coo_tensor(torch.arange(n).view(1, -1).repeat(2, 1), torch.ones(n), (n, n)).coalesce()
    y = du.sparse_dropout(x, p['p'])
    kept = float((y._values() != 0).sum()) / n
    need(abs(kept - (1 - p['p'])) < 0.08, 'rate %s keeps a fraction %s', p['p'], kept)


@case
def drop_passing(p):
    """positive drop rates thin the matrix of the propagation: the result for fully random outcomes is a thinned product;
    with rate one everything is dropped, with rate zero nothing is"""
    torch.manual_seed(p['seed'])
    kind, op = p['kind'], p['op']
    if kind == 'h':
        g, ref = H_.build(p)
        for o in p.get('ops', []):
            H_.step(g, ref, o, p)
        if not ref.G or not ref.edges()[0]:
            raise Reject
        ne = len(ref.edges()[0])
        H = ref.H()
        X = torch.tensor(G_.feat(ne if op in ('e2v', 'e2v_aggregation') else ref.n, 2, 3), dtype=torch.float)
    else:
        g, ref = G_.build(p)
        for o in p.get('ops', []):
            g, ref = G_.step(g, ref, o, p)
        rows = ref.m if (kind == 'b' and op in ('v2u', 'smoothing_with_GCN')) else ref.n
        if kind == 'b' and op == 'smoothing_with_GCN':
            rows = ref.n + ref.m
        X = torch.tensor(G_.feat(rows, 2, 3), dtype=torch.float)
    f = getattr(g, op)
    kw = dict(p.get('kw', {}))
    exact = f(X, **kw)
    zero = f(X, drop_rate=0.0, **kw)
    need_array(zero, exact, '%s with drop rate zero' % op)
    one = f(X, drop_rate=1.0, **kw)
    need_array(one, np.zeros(tuple(one.shape)), '%s with drop rate one' % op)
    for _ in range(3):
        f(X, drop_rate=0.5, **kw)
    need_array(f(X, **kw), exact, '%s after dropped propagations' % op)


@generator('P26')
def gen_p26(r, tier):
    for pr in (0.1, 0.3, 0.5, 0.9):
        yield 'sp_drop_rate', dict(p=pr, seed=r.randrange(10 ** 6))
    GO = {'g': [('smoothing_with_GCN', {}), ('v2v', {'aggr': 'mean'}), ('v2v', {'aggr': 'sum'})],
          'd': [('v2v', {'aggr': 'mean'}), ('v2v', {'aggr': 'sum'})],
          'b': [('u2v', {'aggr': 'mean'}), ('v2u', {'aggr': 'mean'}), ('u2v', {'aggr': 'sum'}), ('v2u', {'aggr': 'sum'}), ('smoothing_with_GCN', {})],
          'h': [('smoothing_with_HGNN', {}), ('v2e', {'aggr': 'mean'}), ('v2e', {'aggr': 'sum'}), ('e2v', {'aggr': 'mean'}), ('e2v', {'aggr': 'sum'}), ('v2v', {'aggr': 'mean'}), ('v2v', {'aggr': 'sum'})]}
    while True:
        if r.random() < 0.5:
            a, b = (r.randint(1, 4), r.randint(1, 4)) if r.random() < 0.93 else (30, 50)
            k = r.randint(0, 6) if a < 9 else r.randint(0, 300)
            yield 'sp_drop', dict(idx=[[r.randrange(a), r.randrange(b)] for _ in range(k)], val=[r.choice([1.0, -2.0, 0.5, 3.0, 7.0, 0.0, 0.001, 1 / 3, 16777217.0, 4096.0]) for _ in range(k)],
                                  size=[a, b], coal=r.random() < 0.5, p=r.choice([0, 0.0, 0.5, 0.3, 0.8, 1, 1.0]), fill=r.choice([None, 0.0, -5.0, 11.0]), dt=r.choice(['float32', 'float64']), seed=r.randrange(10 ** 6))
        else:
            kind = r.choice('gdbh')
            base = H_.rnd_base(r) if kind == 'h' else G_.dense_base(r, kind)
            op, kw = r.choice(GO[kind])
            yield 'drop_passing', dict(base, kind=kind, op=op, kw=kw, seed=r.randrange(10 ** 6))


# ------------------------------------------------------------------ P27
def sample_everything(which):
    out = []
    if 'gen' in which:
        for f, a in (('graph_Gnp', (5, 0.5)), ('graph_Gnp_fast', (5, 0.5)), ('graph_Gnm', (5, 4)), ('digraph_Gnp', (5, 0.5)), ('digraph_Gnp_fast', (5, 0.4)), ('digraph_Gnm', (5, 7)),
                     ('bigraph_Gnp', (3, 4, 0.5)), ('bigraph_Gnm', (3, 4, 5)), ('uniform_hypergraph_Gnp', (3, 5, 0.5)), ('uniform_hypergraph_Gnm', (3, 6, 4)), ('hypergraph_Gnm', (6, 5))):
            g = getattr(dr, f)(*a)
            out.append([f, [list(map(int, e)) for e in g.e[0]]])
        out.append(dr.normal_features([0, 1, 1, 2]).tolist())
    if 'split' in which:
        lab = [0, 1, 0, 1, 2, 2, 0, 1, 2, 0]
        out.append([m.tolist() for m in du.split_by_num(10, lab, 1, 1, 1)])
        out.append([m.tolist() for m in du.split_by_ratio(10, lab, 0.5, 0.2)])
        g = BiGraph(2, 6, [(0, 0), (0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (1, 0)])
        out.append(du.split_by_num_for_UI_bigraph(g, 2))
        out.append(du.split_by_ratio_for_UI_bigraph(g, 0.5))
    if 'sample' in which:
        ds = du.UserItemDataset(2, 8, [(0, 0), (0, 1), (1, 3)], strict_link=False)
        out.append([list(ds[0]) for _ in range(6)])
        ds = du.UserItemDataset(3, 7, [(0, 0), (0, 1), (1, 3), (2, 6)])
        out.append([list(ds[k % 4]) for k in range(8)])
        out.append([int(ds.sample_neg_item(1)) for _ in range(5)])
        out.append([list(map(int, ds.sample_triplet())) for _ in range(5)])
    if 'drop' in which:
        x = torch.eye(12).to_sparse()
        out.append(du.sparse_dropout(x, 0.5).to_dense().tolist())
        g = Graph(6, [(a, b) for a in range(6) for b in range(a)])
        out.append(sorted(map(list, g.drop_edges(0.5).e[0])))
        h = Hypergraph(6, [(a, b) for a in range(6) for b in range(a)])
        out.append(sorted(map(list, h.drop_hyperedges(0.5).e[0])))
        d = DiGraph(6, [(a, b) for a in range(6) for b in range(6) if a != b])
        out.append(sorted(map(list, d.drop_edges(0.4).e[0])))
        b = BiGraph(4, 5, [(a, c) for a in range(4) for c in range(5)])
        out.append(sorted(map(list, b.drop_edges(0.4).e[0])))
        h = Hypergraph(6, [(a, c) for a in range(6) for c in range(a)])
        h.add_hyperedges([(a, a + 1, a + 2) for a in range(4)], group_name='more')
        out.append(sorted(map(list, h.drop_hyperedges_of_group('more', 0.5).e_of_group('more')[0])))
        X = torch.arange(12.0).view(6, 2)
        out.append(g.v2v(X, drop_rate=0.5).tolist())
        out.append(d.v2v(X, drop_rate=0.5).tolist())
        out.append(h.v2v(X, drop_rate=0.5).tolist())
        out.append(torch.nn.Linear(3, 2).weight.tolist())
        out.append(np.random.rand(3).tolist())
    return out


@case
def seeding(p):
    dr.set_seed(p['seed'])
    need(dr.seed() == p['seed'], 'reported seed %s want %s', dr.seed(), p['seed'])
    a = sample_everything(p['which'])
    random.random(), np.random.rand(), torch.rand(1)
    dr.set_seed(p['seed'])
    b = sample_everything(p['which'])
    need(a == b, 'results differ after the same seed %s', p['seed'])
    need(dr.seed() == p['seed'], 'reported seed %s want %s', dr.seed(), p['seed'])
    for s in (p['seed'], p['seed'] + 1):
        dr.set_seed(s)
        x = (random.random(), float(np.random.rand()), float(torch.rand(1)))
        random.seed(s), np.random.seed(s), torch.manual_seed(s)
        y = (random.random(), float(np.random.rand()), float(torch.rand(1)))
        need(x == y, 'set_seed(%d) does not determine every source: %s %s', s, x, y)


@case
def seeding_process(p):
    """another process (with another string hash seed) gives the same results"""
    import json as js
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.abspath(__file__))
    code = ("import sys,json; sys.path.insert(0,%r)\nimport common, utils_cases as u\nu.dr.set_seed(%d)\nprint(json.dumps(u.sample_everything(%r)))" % (here, p['seed'], p['which']))
    dr.set_seed(p['seed'])
    mine = js.loads(js.dumps(sample_everything(p['which'])))
    for hs in p['hash']:
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, timeout=200)
        need(r.returncode == 0, 'subprocess failed: %s', r.stderr[-500:])
        theirs = js.loads(r.stdout.strip().splitlines()[-1])
        need(theirs == mine, 'another process gives other results after the same seed')


@generator('P27')
def gen_p27(r, tier):
    yield 'seeding', dict(seed=3, which=['gen', 'split', 'sample', 'drop'])
    yield 'seeding_process', dict(seed=11, which=['gen', 'split', 'sample', 'drop'], hash=[1])
    i = 0
    while True:
        ws = [w for w in ('gen', 'split', 'sample', 'drop') if r.random() < 0.6]
        yield 'seeding', dict(seed=r.choice([0, 1, 7, 2 ** 31, r.randrange(10 ** 6)]), which=ws or ['gen'])
        i += 1
        if i % 40 == 0:
            yield 'seeding_process', dict(seed=r.randrange(1000), which=['gen', 'split', 'sample', 'drop'], hash=[r.randrange(1000)])
