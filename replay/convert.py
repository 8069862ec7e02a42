"""P13: conversions between structures."""
import itertools
import random

import numpy as np
import torch
from dhg import Graph, DiGraph, BiGraph, Hypergraph

from common import *
from ref import RefGraph, RefHyper
import graphs as G_
import hypers as H_


def edge_map(g):
    es, ws = g.e[0], g.e[1]
    out = {}
    for e, w in zip(es, ws):
        k = tuple(int(x) for x in e)
        need(k not in out, 'edge %s is reported twice', k)
        out[k] = float(w)
    return out


def same_map(got, want, what):
    need(set(got) == set(want), '%s: edges %s want %s', what, sorted(got), sorted(want))
    for k in want:
        need(near(got[k], want[k]), '%s: edge %s has weight %s want %s', what, k, got[k], want[k])


@case
def star(p):
    hg, ref = H_.build(p)
    for op in p.get('ops', []):
        H_.step(hg, ref, op, p)
    if not ref.G or not ref.edges()[0]:
        raise Reject
    es, ws = ref.edges()
    before = (hg.e[0][:], hg.e[1][:])
    kw = dict(p.get('kw', {}))
    g, mask = Graph.from_hypergraph_star(hg, **kw)
    need(g.num_v == ref.n + len(es), 'star: %d vertices want %d', g.num_v, ref.n + len(es))
    need(mask.tolist() == [True] * ref.n + [False] * len(es), 'star: vertex mask %s', mask.tolist())
    got = edge_map(g)
    want = {}
    for j, e in enumerate(es):
        for v in e:
            want[(v, ref.n + j)] = 1.0
    same_map({tuple(sorted(k)): w for k, w in got.items()}, want, 'star expansion')
    need((hg.e[0], hg.e[1]) == before, 'star: the hypergraph changed')


@case
def clique(p):
    hg, ref = H_.build(p)
    for op in p.get('ops', []):
        H_.step(hg, ref, op, p)
    if not ref.G or not ref.edges()[0]:
        raise Reject
    es, _ = ref.edges()
    for weighted in (False, True):
        kw = {'miu': p['miu']} if p.get('miu') else {}
        g = Graph.from_hypergraph_clique(hg, weighted=weighted, **kw)
        need(g.num_v == ref.n, 'clique: %d vertices', g.num_v)
        want = {}
        for e in es:
            for a, b in itertools.combinations(sorted(set(e)), 2):
                want[(a, b)] = want.get((a, b), 0) + 1
        want = {k: (float(w) * (p.get('miu') or 1.0) if weighted else 1.0) for k, w in want.items()}
        same_map({tuple(sorted(k)): w for k, w in edge_map(g).items()}, want, 'clique expansion weighted=%s' % weighted)


@case
def bip(p):
    hg, ref = H_.build(p)
    for op in p.get('ops', []):
        H_.step(hg, ref, op, p)
    if not ref.G or not ref.edges()[0]:
        raise Reject
    es, ws = ref.edges()
    for as_u in (True, False):
        for weighted in (False, True):
            g = BiGraph.from_hypergraph(hg, vertex_as_U=as_u, weighted=weighted)
            shape = (ref.n, len(es)) if as_u else (len(es), ref.n)
            need((g.num_u, g.num_v) == shape, 'bipartite: sizes %s want %s', (g.num_u, g.num_v), shape)
            want = {}
            for j, e in enumerate(es):
                for v in e:
                    want[(v, j) if as_u else (j, v)] = ws[j] if weighted else 1.0
            same_map(edge_map(g), want, 'bipartite graph vertex_as_U=%s weighted=%s' % (as_u, weighted))
            back = Hypergraph.from_bigraph(g, U_as_vertex=as_u)
            need(back.num_v == ref.n, 'converted back: %d vertices', back.num_v)
            need(set(back.e[0]) == set(tuple(sorted(e)) for e in es) and len(back.e[0]) == len(set(es)),
                 'converted back: hyperedges %s want %s', back.e[0], es)
    need(H_.norm_e(hg.e) == H_.norm_e((es, ws)), 'bipartite: the hypergraph changed')


@case
def from_bi(p):
    g, ref = G_.build(dict(kind='b', n=p['n'], m=p['m']))
    if p['edges']:
        g.add_edges(p['edges'])
        ref.add(p['edges'])
    for as_u in (True, False):
        want = set()
        if as_u:
            for v in range(p['m']):
                e = tuple(sorted({a for a, b in ref.E if b == v}))
                if e:
                    want.add(e)
        else:
            for u in range(p['n']):
                e = tuple(sorted({b for a, b in ref.E if a == u}))
                if e:
                    want.add(e)
        hg = Hypergraph.from_bigraph(g, U_as_vertex=as_u)
        need(hg.num_v == (p['n'] if as_u else p['m']), 'from_bigraph: %d vertices', hg.num_v)
        need(len(hg.e[0]) == len(want) and set(hg.e[0]) == want, 'from_bigraph(U_as_vertex=%s): %s want %s', as_u, hg.e[0], sorted(want))
        hg2 = Hypergraph(p['n'] if as_u else p['m'], [[0, 1]])
        hg2.add_hyperedges_from_bigraph(g, U_as_vertex=as_u, group_name='bi')
        need(hg2.e_of_group('main')[0] == [(0, 1)], 'add_hyperedges_from_bigraph changed another group')
        if want:
            need(set(hg2.e_of_group('bi')[0]) == want and hg2.num_e_of_group('bi') == len(want), 'add_hyperedges_from_bigraph: %s want %s', hg2.e_of_group('bi')[0], sorted(want))


@case
def from_graph(p):
    g, ref = G_.build(dict(kind='g', n=p['n']))
    if p['edges']:
        g.add_edges(p['edges'], p['ws'])
        ref.add(p['edges'], p['ws'])
    before = G_.content_of(g, 'g')
    hg = Hypergraph.from_graph(g)
    need(hg.num_v == p['n'], 'from_graph: %d vertices', hg.num_v)
    want = {tuple(sorted(k)): w for k, w in ref.E.items()}
    same_map(edge_map(hg), want, 'from_graph')
    hg2 = Hypergraph(p['n'], [list(range(p['n']))])
    hg2.add_hyperedges_from_graph(g, group_name='g')
    need(hg2.e_of_group('main')[0] == [tuple(range(p['n']))], 'add_hyperedges_from_graph changed another group')
    if want:
        es, ws = hg2.e_of_group('g')
        same_map(dict(zip(es, ws)), want, 'add_hyperedges_from_graph')
    need(G_.content_of(g, 'g') == before, 'from_graph: the graph changed')


@case
def khop(p):
    g, ref = G_.build(dict(kind='g', n=p['n']))
    if p['edges']:
        g.add_edges(p['edges'], p['ws'])
        ref.add(p['edges'], p['ws'])
    n, k = p['n'], p['k']
    S = (ref.S() > 0).astype(int)
    P = np.eye(n, dtype=int)
    reach = np.zeros((n, n), dtype=int)
    for i in range(k):
        P = ((P @ S) > 0).astype(int)
        reach |= P
    before = G_.content_of(g, 'g')
    A0 = g.A.to_dense().clone()
    for only in (False, True):
        M = P if only else reach
        want = {tuple(sorted({v} | {w for w in range(n) if M[v, w]})) for v in range(n)}
        hg = Hypergraph.from_graph_kHop(g, k, only_kHop=only)
        need(hg.num_v == n, 'from_graph_kHop: %d vertices', hg.num_v)
        need(set(hg.e[0]) == want and len(hg.e[0]) == len(want), 'from_graph_kHop(k=%d, only_kHop=%s): %s want %s', k, only, sorted(hg.e[0]), sorted(want))
        hg2 = Hypergraph(n, [[0, 1]])
        hg2.add_hyperedges_from_graph_kHop(g, k, only_kHop=only, group_name='k')
        need(set(hg2.e_of_group('k')[0]) == want and hg2.e_of_group('main')[0] == [(0, 1)], 'add_hyperedges_from_graph_kHop(k=%d, only_kHop=%s)', k, only)
    need(G_.content_of(g, 'g') == before, 'from_graph_kHop: the graph changed')
    need_array(g.A, A0, 'from_graph_kHop changed the adjacency matrix of the graph')


@case
def knn(p):
    X = torch.tensor(p['X'], dtype=torch.float) + p.get('off', 0)
    X0 = X.clone()
    n, k = X.shape[0], p['k']
    XX = X.double().numpy()
    D = np.linalg.norm(XX[:, None, :] - XX[None, :, :], axis=-1)
    order = [sorted(range(n), key=lambda j: (D[i, j], j)) for i in range(n)]
    for i in range(n):  # ties make the answer ambiguous
        d = sorted(D[i])
        if any(d[a + 1] - d[a] < 1e-4 for a in (0, k - 1, k) if a + 1 < n):
            raise Reject
    want = {tuple(sorted(order[i][:k])) for i in range(n)}
    hg = Hypergraph.from_feature_kNN(X, k)
    need(hg.num_v == n, 'from_feature_kNN: %d vertices', hg.num_v)
    need(set(hg.e[0]) == want, 'from_feature_kNN(k=%d): %s want %s', k, sorted(hg.e[0]), sorted(want))
    hg2 = Hypergraph(n, [[0, 1]])
    hg2.add_hyperedges_from_feature_kNN(X, k, group_name='f')
    need(set(hg2.e_of_group('f')[0]) == want and hg2.e_of_group('main')[0] == [(0, 1)], 'add_hyperedges_from_feature_kNN')
    if k < n:
        for c_src in (True, False):
            for d2w in (False, True):
                g = DiGraph.from_feature_kNN(X, k, distance2weight=d2w, center_as_src=c_src)
                w = {}
                for i in range(n):
                    for j in order[i][1:k + 1]:
                        w[(i, j) if c_src else (j, i)] = float(np.exp(-D[i, j])) if d2w else 1.0
                need(g.num_v == n, 'DiGraph.from_feature_kNN: %d vertices', g.num_v)
                same_map(edge_map(g), w, 'DiGraph.from_feature_kNN(k=%d, center_as_src=%s, distance2weight=%s)' % (k, c_src, d2w))
    if 2 <= k:
        g = DiGraph.from_feature_kNN(X, k, include_center=True)
        w = {(i, j): 1.0 for i in range(n) for j in order[i][:k]}
        same_map(edge_map(g), w, 'DiGraph.from_feature_kNN(k=%d, include_center=True)' % k)
    need(torch.equal(X, X0), 'from_feature_kNN changed the features')


@generator('P13')
def gen_hyper_conv(r, tier):
    for n in (2, 3):
        for p in H_.all_hypers(n):
            yield 'star', p
            yield 'clique', p
            yield 'bip', p
    while True:
        p = H_.multi_base(r) if r.random() < 0.5 else H_.rnd_base(r)
        p = dict(p)
        c = r.random()
        if c < 0.3:
            yield 'star', dict(p, kw=r.choice([{}, {'weighted': True}, {'merge_op': 'mean'}, {'weighted': True, 'merge_op': 'max'}]))
        elif c < 0.65:
            yield 'clique', dict(p, miu=r.choice([None, None, 0.5, 2.0, 2.0 ** -10, 1000.0]))
        else:
            yield 'bip', p


@generator('P13')
def gen_graph_conv(r, tier):
    while True:
        n = r.randint(2, 7)
        c = r.random()
        k = r.randint(0, 2 * n)
        edges = [sorted(r.sample(range(n), 2)) for _ in range(k)]
        edges = [list(e) for e in dict.fromkeys(map(tuple, edges))]
        edges = [e if r.random() < 0.5 else e[::-1] for e in edges]
        ws = [r.choice(G_.WS) for _ in edges]
        if c < 0.3:
            yield 'from_graph', dict(n=n, edges=edges, ws=ws)
        elif c < 0.6:
            if r.random() < 0.2:
                v = r.randrange(n)
                edges, ws = edges + [[v, v]], ws + [1.0]
            if r.random() < 0.3:
                n = r.randint(5, 11)
                o = r.sample(range(n), n)
                edges = [list(x) for x in zip(o, o[1:])]
                ws = [r.choice(G_.WS) for _ in edges]
            yield 'khop', dict(n=n, edges=edges, ws=ws, k=r.randint(1, 4) if n < 5 else r.randint(1, n))
        elif c < 0.8:
            m = r.randint(2, 5)
            yield 'from_bi', dict(n=n, m=m, edges=[[r.randrange(n), r.randrange(m)] for _ in range(k)])
        else:
            n = r.randint(3, 12) if r.random() < 0.7 else r.randint(30, 90)
            d = r.randint(1, 3) if n < 13 else r.randint(2, 4)
            yield 'knn', dict(X=[[round(r.uniform(-3, 3), 3) for _ in range(d)] for _ in range(n)], k=r.randint(1, n if n < 13 else 6), off=r.choice([0, 0, 100, 4096]))
