"""Cases for hypergraphs."""
import copy
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
import torch
import dhg
from dhg import Graph, DiGraph, BiGraph, Hypergraph

from common import *
from ref import RefHyper, merge, inv0, rsqrt0, aggregate
from graphs import feat, WS, rnd_size, rnd_weights, rescale


def build(p):
    n = p['n']
    vw = p.get('vw')
    ref = RefHyper(n, vw)
    kw = {}
    if vw is not None:
        kw['v_weight'] = list(vw)
    if p.get('init') is not None:
        es, ws, op = p['init']
        arg, wa = fmt(es, p), copy.deepcopy(ws)
        g = Hypergraph(n, arg, wa, merge_op=op, **kw)
        need(arg == fmt(es, p) and wa == ws, 'construction changed the list of its caller: %s became %s', fmt(es, p), arg)
        ref.add(es, ws, op)
    else:
        g = Hypergraph(n, **kw)
    return g, ref


def fmt(es, p):
    f = p.get('fmt')
    if f == 'tuple':
        return [tuple(e) for e in es]
    if f == 'outer':
        return tuple(list(e) for e in es)
    return [list(e) for e in es]


def step(g, ref, op, p):
    t = op[0]
    if t == 'add':
        es, ws, mop, grp = op[1:5]
        arg, wa = fmt(es, p), copy.deepcopy(ws)
        kw = {}
        if mop:
            kw['merge_op'] = mop
        if grp:
            kw['group_name'] = grp
        if wa is not None:
            kw['e_weight'] = wa
        g.add_hyperedges(arg, **kw)
        need(arg == fmt(es, p) and wa == ws, 'add_hyperedges changed the list of its caller: %s became %s', fmt(es, p), arg)
        ref.add(es, ws, mop or 'mean', grp or 'main')
    elif t == 'add1':
        e, w, mop, grp = op[1:5]
        arg = list(e)
        g.add_hyperedges(arg, w, mop, grp)
        need(arg == list(e), 'add_hyperedges changed the list of its caller')
        ref.add([e], w, mop, grp)
    elif t == 'rm':
        es, grp = op[1], op[2]
        if grp is not None and grp not in ref.G:
            with raises('removal from the unknown group %s' % grp):
                g.remove_hyperedges(fmt(es, p), grp)
        else:
            arg = fmt(es, p)
            g.remove_hyperedges(arg, grp)
            need(arg == fmt(es, p), 'remove_hyperedges changed the list of its caller')
            ref.remove(es, grp)
    elif t == 'rmg':
        if op[1] in ref.G:
            g.remove_group(op[1])
            ref.remove_group(op[1])
    elif t == 'badw':
        with raises('weights of the wrong length'):
            g.add_hyperedges(fmt(op[1], p), [1.0] * (len(op[1]) + 1), group_name=op[2])
    elif t == 'q':
        query(g, op[1], ref)
    elif t == 'clone':
        g = g.clone()
    elif t == 'sd':
        g = Hypergraph.from_state_dict(g.state_dict)
    else:
        raise ValueError(t)
    return g, ref


QO = ['e', 'v', 'num_e', 'num_groups', 'H', 'H_T', 'W_v', 'W_e', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'D_e', 'D_e_neg_1', 'L_HGNN', 'L_sym', 'L_rw', 'deg_v', 'deg_e', 'v2e_src', 'v2e_dst', 'v2e_weight', 'e2v_src', 'e2v_dst', 'e2v_weight', 'N_e', 'N_v', 'nbr_e', 'nbr_v', 'H_v2e', 'H_e2v']
QGRP = ['e', 'num_e', 'H', 'H_T', 'W_e', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'D_e', 'D_e_neg_1', 'L_HGNN', 'L_sym', 'L_rw', 'deg_v', 'deg_e', 'v2e_src', 'v2e_dst', 'v2e_weight', 'e2v_src', 'e2v_dst', 'e2v_weight', 'N_e', 'N_v', 'nbr_e', 'nbr_v']
QALL = QO + ['g:' + q for q in QGRP]


def query(g, name, ref):
    if not ref.G:
        return
    if name.startswith('g:'):
        q = name[2:]
        for grp in list(ref.G):
            f = getattr(g, q + '_of_group')
            if q in ('N_e', 'nbr_e'):
                f(0, grp)
            elif q in ('N_v', 'nbr_v'):
                if ref.G[grp]:
                    f(0, grp)
            else:
                f(grp)
        return
    if name in ('N_e', 'nbr_e'):
        return getattr(g, name)(0)
    if name in ('N_v', 'nbr_v'):
        return getattr(g, name)(0) if ref.edges()[0] else None
    return getattr(g, name)


# ------------------------------------------------------------------ oracles
def norm_e(e):
    es, ws = e
    need(len(es) == len(ws), 'hyperedge list and weights differ in length: %s %s', es, ws)
    return [(tuple(sorted(int(v) for v in x)), float(w)) for x, w in zip(es, ws)]


def eqlist(a, b):
    return len(a) == len(b) and all(x == y and near(u, v, 1e-6) for (x, u), (y, v) in zip(a, b))


def check_content(g, ref, what='content'):
    need(g.num_v == ref.n and list(g.v) == list(range(ref.n)), '%s: num_v', what)
    need(list(g.group_names) == list(ref.G), '%s: groups %s want %s', what, g.group_names, list(ref.G))
    need(g.num_groups == len(ref.G), '%s: num_groups %s', what, g.num_groups)
    want_all = []
    for name, d in ref.G.items():
        want = list(d.items())
        want_all += want
        got = norm_e(g.e_of_group(name))
        need(eqlist(got, want), '%s: group %s has %s, the history implies %s', what, name, got, want)
        need(g.num_e_of_group(name) == len(want), '%s: num_e_of_group(%s) = %s', what, name, g.num_e_of_group(name))
    need(eqlist(norm_e(g.e), want_all), '%s: hyperedges %s, the history implies %s', what, norm_e(g.e), want_all)
    need(g.num_e == len(want_all), '%s: num_e %s want %s', what, g.num_e, len(want_all))
    need([float(x) for x in g.v_weight] == [float(x) for x in ref.vw], '%s: vertex weights %s want %s', what, g.v_weight, ref.vw)


def mats(ref, grp):
    H, W = ref.H(grp), ref.W(grp)
    dv, de = H @ W, H.sum(0)
    n = ref.n
    r = np.diag(rsqrt0(dv))
    LH = r @ H @ np.diag(W) @ np.diag(inv0(de)) @ H.T @ r
    return {
        'H': H, 'H_T': H.T, 'W_e': np.diag(W), 'D_v': np.diag(dv), 'D_v_neg_1': np.diag(inv0(dv)), 'D_v_neg_1_2': r,
        'D_e': np.diag(de), 'D_e_neg_1': np.diag(inv0(de)), 'L_HGNN': LH, 'L_sym': np.eye(n) - LH,
        'L_rw': np.eye(n) - np.diag(inv0(dv)) @ H @ np.diag(W) @ np.diag(inv0(de)) @ H.T,
    }


def check_matrices(g, ref, what='', order=None):
    names = order or ['H', 'H_T', 'W_e', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'D_e', 'D_e_neg_1', 'L_HGNN', 'L_sym', 'L_rw']
    if not ref.G:
        return
    M = mats(ref, None)
    for nm in names:
        need_array(getattr(g, nm), M[nm], '%s overall %s' % (what, nm), rel=nm[0] != 'L')
    need_array(g.W_v, np.diag(ref.vw), what + ' W_v')
    for grp in ref.G:
        Mg = mats(ref, grp)
        for nm in names:
            need_array(getattr(g, nm + '_of_group')(grp), Mg[nm], '%s %s of group %s' % (what, nm, grp), rel=nm[0] != 'L')


def check_nbrs(g, ref, what=''):
    if not ref.G:
        return
    ids = lambda t: sorted(int(x) for x in t)
    es, ws = ref.edges()
    for v in range(ref.n):
        want = [j for j, e in enumerate(es) if v in e]
        need(ids(g.N_e(v)) == want and ids(g.nbr_e(v)) == want, '%s N_e(%d) is %s want %s', what, v, ids(g.N_e(v)), want)
    for j, e in enumerate(es):
        need(ids(g.N_v(j)) == list(e) and ids(g.nbr_v(j)) == list(e), '%s N_v(%d) is %s want %s', what, j, ids(g.N_v(j)), e)
    M = mats(ref, None)
    need_array(g.deg_v, M['D_v'].sum(0), what + ' deg_v', rel=True)
    need_array(g.deg_e, M['D_e'].sum(0), what + ' deg_e', rel=True)
    H = M['H']
    inc = sorted((int(i), int(j)) for i, j in zip(*np.nonzero(H)))
    need(sorted(zip(g.v2e_src.tolist(), g.v2e_dst.tolist())) == inc, '%s v2e_src/dst', what)
    need(sorted(zip(g.e2v_dst.tolist(), g.e2v_src.tolist())) == inc, '%s e2v_src/dst', what)
    need(g.v2e_weight.tolist() == [1.0] * len(inc) and g.e2v_weight.tolist() == [1.0] * len(inc), '%s incidence weights', what)
    for grp in ref.G:
        ge = list(ref.G[grp])
        for v in range(ref.n):
            want = [j for j, e in enumerate(ge) if v in e]
            need(ids(g.N_e_of_group(v, grp)) == want and ids(g.nbr_e_of_group(v, grp)) == want, '%s N_e_of_group(%d, %s) is %s want %s', what, v, grp, ids(g.N_e_of_group(v, grp)), want)
        for j, e in enumerate(ge):
            need(ids(g.N_v_of_group(j, grp)) == list(e) and ids(g.nbr_v_of_group(j, grp)) == list(e), '%s N_v_of_group(%d, %s) is %s want %s', what, j, grp, ids(g.N_v_of_group(j, grp)), e)
        Mg = mats(ref, grp)
        need_array(g.deg_v_of_group(grp), Mg['D_v'].sum(0), '%s deg_v_of_group %s' % (what, grp), rel=True)
        need_array(g.deg_e_of_group(grp), Mg['D_e'].sum(0), '%s deg_e_of_group %s' % (what, grp), rel=True)
        gi = sorted((int(i), int(j)) for i, j in zip(*np.nonzero(Mg['H'])))
        need(sorted(zip(g.v2e_src_of_group(grp).tolist(), g.v2e_dst_of_group(grp).tolist())) == gi, '%s v2e_src_of_group', what)
        need(sorted(zip(g.e2v_dst_of_group(grp).tolist(), g.e2v_src_of_group(grp).tolist())) == gi, '%s e2v_src_of_group', what)


def usable(ref):
    """The overall and per-group matrices are defined when there is a group and no group is empty."""
    return bool(ref.G)


def check_all(g, ref, what):
    check_content(g, ref, what)
    if usable(ref):
        check_matrices(g, ref, what)
        check_nbrs(g, ref, what)


@case
def hyper_history(p):
    """P03"""
    g, ref = build(p)
    check_content(g, ref, 'after construction')
    for i, op in enumerate(p['ops']):
        g, ref = step(g, ref, op, p)
        check_content(g, ref, 'after step %d %s' % (i, op))
    if usable(ref):
        need_array(g.H, ref.H(), 'H after the history')


def scribble(g, ref):
    for t in [g.N_e(0), g.v2e_src, g.v2e_dst, g.v2e_weight, g.e2v_src, g.e2v_dst, g.e2v_weight]:
        if t.numel():
            t.fill_(0)
    for l in [g.deg_v, g.deg_e, g.nbr_e(0)]:
        l.append(-7)
    for grp in ref.G:
        for t in [g.N_e_of_group(0, grp), g.v2e_src_of_group(grp), g.v2e_dst_of_group(grp), g.v2e_weight_of_group(grp), g.e2v_src_of_group(grp), g.e2v_dst_of_group(grp), g.e2v_weight_of_group(grp)]:
            if t.numel():
                t.fill_(0)
        for l in [g.deg_v_of_group(grp), g.deg_e_of_group(grp)]:
            l.append(-7)
        if ref.G[grp]:
            t = g.N_v_of_group(0, grp)
            if t.numel():
                t.fill_(0)
    if ref.edges()[0]:
        t = g.N_v(0)
        if t.numel():
            t.fill_(0)
    g.group_names.append('zzz')
    X = torch.ones(ref.n, 2)
    g.smoothing_with_HGNN(X).fill_(3)
    g.v2v(X).fill_(3)
    g.v2e(X, 'sum').fill_(3)


@case
def hyper_fresh(p):
    """P04"""
    g, ref = build(p)
    for i, op in enumerate(p['ops']):
        g, ref = step(g, ref, op, p)
        if i in p.get('at', []):
            check_all(g, ref, 'after step %d %s' % (i, op))
            if i % 2 and usable(ref):
                scribble(g, ref)
    check_all(g, ref, 'at the end')
    check_all(g, ref, 'queried again')


@case
def hyper_copies(p):
    """P05"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    for q in p.get('pre', []):
        query(g, q, ref)
    h = {'clone': lambda: g.clone(), 'sd': lambda: Hypergraph.from_state_dict(g.state_dict), 'sd2': lambda: Hypergraph.from_state_dict(copy.deepcopy(g.state_dict))}[p['how']]()
    rh = ref.copy()
    check_all(h, rh, 'the copy')
    check_all(g, ref, 'the original')
    for op in p['ops_h']:
        h, rh = step(h, rh, op, p)
    check_all(g, ref, 'the original after the copy was changed')
    check_all(h, rh, 'the copy after it was changed')
    for op in p['ops_g']:
        g, ref = step(g, ref, op, p)
    check_all(h, rh, 'the copy after the original was changed')
    check_all(g, ref, 'the original after it was changed')


@case
def hyper_from_graph_pure(p):
    """P05: building from another structure leaves it as it was."""
    k = p['k']
    if k == 'g':
        src = Graph(p['n'], [tuple(e) for e in p['es']])
    elif k == 'd':
        src = DiGraph(p['n'], [tuple(e) for e in p['es']])
    else:
        src = BiGraph(p['n'], p['n'], [tuple(e) for e in p['es']])
    before_e = copy.deepcopy(src.e)
    before_A = src.A.to_dense().clone()
    how = p['how']
    if how == 'graph':
        hg = Hypergraph.from_graph(src)
    elif how == 'add_graph':
        hg = Hypergraph(p['n'])
        hg.add_hyperedges_from_graph(src, group_name='g')
    elif how == 'khop':
        hg = Hypergraph.from_graph_kHop(src, 2)
    elif how == 'big':
        hg = Hypergraph.from_bigraph(src, U_as_vertex=True)
    else:
        hg = Hypergraph(p['n'])
        hg.add_hyperedges_from_bigraph(src, U_as_vertex=False, group_name='g')
    hg.add_hyperedges([[0]], 5.0)
    hg.remove_hyperedges([list(p['es'][0])])
    need(src.e == before_e, 'the source graph changed from %s to %s', before_e, src.e)
    need_array(src.A, before_A, 'matrix of the source graph')


@case
def hyper_saveload(p):
    """P06"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    d = tempfile.mkdtemp(prefix='vp_save_')
    try:
        path = os.path.join(d, 'x.dhg')
        g.save(path)
        for nm, h in (('load', Hypergraph.load(path)), ('load_structure', dhg.load_structure(path)),
                      ('state_dict', Hypergraph.from_state_dict(pickle.loads(pickle.dumps(g.state_dict))))):
            need(type(h) is Hypergraph, '%s gives %s', nm, type(h))
            check_content(h, ref, nm)
            if usable(ref):
                check_matrices(h, ref, nm)
        check_content(g, ref, 'after saving')
        for c in (Graph, DiGraph, BiGraph):
            with raises('loading a hypergraph file as %s' % c.__name__):
                c.load(path)
        g.add_hyperedges([[0]], [9.0], merge_op='sum', group_name='late')
        ref.add([[0]], [9.0], 'sum', 'late')
        g.save(path)
        check_content(Hypergraph.load(path), ref, 'saved again')
    finally:
        shutil.rmtree(d)


@case
def hyper_matrices(p):
    """P09"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    if not usable(ref):
        raise Reject()
    for q in p.get('order', []):
        query(g, q, ref)
    check_content(g, ref)
    check_matrices(g, ref, '', p.get('names'))
    M = mats(ref, None)
    X = torch.tensor(feat(ref.n, 3, p.get('xs', 0)))
    need_array(g.smoothing_with_HGNN(X), M['L_HGNN'] @ X.double().numpy(), 'smoothing_with_HGNN')
    need_array(g.smoothing(X, g.L_sym, 0.5), X.double().numpy() + 0.5 * M['L_sym'] @ X.double().numpy(), 'smoothing')
    for grp in ref.G:
        need_array(g.smoothing_with_HGNN_of_group(grp, X), mats(ref, grp)['L_HGNN'] @ X.double().numpy(), 'smoothing_with_HGNN_of_group')
    check_matrices(g, ref, 'again')


@case
def hyper_unknown_group(p):
    g, ref = build(p)
    for q in QGRP:
        if q in ('N_e', 'nbr_e', 'N_v', 'nbr_v'):
            with raises(q + ' of an unknown group'):
                getattr(g, q + '_of_group')(0, 'nope')
        else:
            with raises(q + ' of an unknown group'):
                getattr(g, q + '_of_group')('nope')
    check_content(g, ref, 'after queries of an unknown group')


def agg_dir(ref, grp, X, aggr, W, transpose):
    H = ref.H(grp)
    S = (H != 0).astype(float)
    if W is None:
        W = H
        if transpose:  # v2e
            if aggr == 'mean':
                return np.diag(inv0(H.sum(0))) @ H.T @ X
            return aggregate(S.T, W.T, X, aggr)
        if aggr == 'mean':
            dv = H @ ref.W(grp)
            return np.diag(inv0(dv)) @ H @ X
        return aggregate(S, W, X, aggr)
    return aggregate(S.T, W.T, X, aggr) if transpose else aggregate(S, W, X, aggr)


@case
def hyper_passing(p):
    """P11"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    if not usable(ref):
        raise Reject()
    for q in p.get('pre', []):
        query(g, q, ref)
    grp = p.get('grp')
    if grp is not None and grp not in ref.G:
        raise Reject()
    rr = random.Random(p.get('ws', 0))
    sfx = '_of_group' if grp else ''
    ga = (grp,) if grp else ()
    get = (lambda nm: getattr(g, nm + '_of_group')(grp)) if grp else (lambda nm: getattr(g, nm))
    H = ref.H(grp)
    ne = H.shape[1]
    Wv2e = We2v = We = None
    tw = {}
    if p.get('cv'):
        co = list(zip(get('v2e_src').tolist(), get('v2e_dst').tolist()))
        need(sorted(co) == sorted((int(i), int(j)) for i, j in zip(*np.nonzero(H))), 'v2e order')
        w = [float(rr.choice(WS)) + (p.get('wshift', 0.0) if p['aggr'] == 'softmax_then_sum' else 0.0) for _ in co]
        if p.get('neg') and p['aggr'] == 'sum':
            w = [-x if p['neg'] == 1 else x * rr.choice([1, -1]) for x in w]
        Wv2e = np.zeros_like(H)
        for (i, j), x in zip(co, w):
            Wv2e[i, j] = x
        tw['v2e_weight'] = torch.tensor(w)
    if p.get('ce'):
        co = list(zip(get('e2v_dst').tolist(), get('e2v_src').tolist()))
        need(sorted(co) == sorted((int(i), int(j)) for i, j in zip(*np.nonzero(H))), 'e2v order')
        w = [float(rr.choice(WS)) + (p.get('wshift', 0.0) if (p.get('aggr2') or p['aggr']) == 'softmax_then_sum' else 0.0) for _ in co]
        We2v = np.zeros_like(H)
        for (i, j), x in zip(co, w):
            We2v[i, j] = x
        tw['e2v_weight'] = torch.tensor(w)
    if p.get('cw'):
        We = np.array([float(rr.choice(WS)) for _ in range(ne)])
        tw['e_weight'] = torch.tensor(We.astype('float32'))
    X = torch.tensor(feat(ref.n, p.get('k', 2), p.get('xs', 0)))
    E = torch.tensor(feat(max(ne, 1), p.get('k', 2), p.get('xs', 0) + 1))[:ne]
    X0, E0 = X.clone(), E.clone()
    a1, a2 = p['aggr'], p.get('aggr2') or p['aggr']
    scale = We if We is not None else ref.W(grp)

    def kw(*names, **ex):
        d = {n: tw[n].clone() for n in names if n in tw}
        d.update(ex)
        return d
    xn, en = X.double().numpy(), E.double().numpy()
    y1 = agg_dir(ref, grp, xn, a1, Wv2e, True)
    need_array(getattr(g, 'v2e_aggregation' + sfx)(*ga, X, a1, **kw('v2e_weight')), y1, 'v2e_aggregation %s' % p)
    y2 = scale[:, None] * en if ne else en
    need_array(getattr(g, 'v2e_update' + sfx)(*ga, E, **kw('e_weight')), y2, 'v2e_update')
    y3 = scale[:, None] * y1 if ne else y1
    need_array(getattr(g, 'v2e' + sfx)(*ga, X, a1, **kw('v2e_weight', 'e_weight')), y3, 'v2e')
    y4 = agg_dir(ref, grp, en, a2, We2v, False)
    need_array(getattr(g, 'e2v_aggregation' + sfx)(*ga, E, a2, **kw('e2v_weight')), y4, 'e2v_aggregation')
    need_array(getattr(g, 'e2v_update' + sfx)(*ga, X), xn, 'e2v_update')
    need_array(getattr(g, 'e2v' + sfx)(*ga, E, a2, **kw('e2v_weight')), y4, 'e2v')
    y5 = agg_dir(ref, grp, y3, a2, We2v, False)
    ex = {}
    if p.get('aggr2') and p['aggr2'] != a1:
        which = p.get('which', 0)
        if which == 0:
            ex = dict(v2e_aggr=a1, e2v_aggr=a2)
        elif which == 1:
            ex = dict(aggr=a1, e2v_aggr=a2)
        else:
            ex = dict(aggr=a2, v2e_aggr=a1)
    else:
        ex = dict(aggr=a1)
    need_array(getattr(g, 'v2v' + sfx)(*ga, X, **kw('v2e_weight', 'e_weight', 'e2v_weight', **ex)), y5, 'v2v %s' % ex)
    need(torch.equal(X, X0) and torch.equal(E, E0), 'features were changed')
    # defaults are mean
    need_array(getattr(g, 'v2e' + sfx)(*ga, X), ref.W(grp)[:, None] * agg_dir(ref, grp, xn, 'mean', None, True), 'v2e default')
    need_array(getattr(g, 'e2v' + sfx)(*ga, E), agg_dir(ref, grp, en, 'mean', None, False), 'e2v default')
    if 'v2e_weight' in tw:
        with raises('v2e weights of a wrong length'):
            getattr(g, 'v2e' + sfx)(*ga, X, v2e_weight=torch.ones(len(tw['v2e_weight']) + 1))
    if 'e2v_weight' in tw:
        with raises('e2v weights of a wrong length'):
            getattr(g, 'e2v' + sfx)(*ga, E, e2v_weight=torch.ones(len(tw['e2v_weight']) + 1))
    with raises('an unknown aggregation'):
        getattr(g, 'v2e' + sfx)(*ga, X, 'median')
    with raises('an unknown aggregation'):
        getattr(g, 'e2v' + sfx)(*ga, E, 'median')
    check_content(g, ref, 'after message passing')
    check_matrices(g, ref, 'after message passing')


@case
def hyper_nbrs(p):
    """P12"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    if not usable(ref):
        raise Reject()
    check_nbrs(g, ref)
    check_nbrs(g, ref, 'again')
    for f, hi in ((g.N_e, ref.n), (g.N_v, len(ref.edges()[0]))):
        with raises('index %d' % hi):
            f(hi)


@case
def hyper_drop(p):
    """P14"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    for q in p.get('pre', []):
        query(g, q, ref)
    random.seed(p.get('seed', 0))
    torch.manual_seed(p.get('seed', 0))
    grp = p.get('grp')
    if grp is not None and grp not in ref.G:
        raise Reject()
    h = g.drop_hyperedges(p['rate']) if grp is None else g.drop_hyperedges_of_group(grp, p['rate'])
    check_content(g, ref, 'original after drop')
    r = ref.copy()
    need(list(h.group_names) == list(ref.G), 'groups %s', h.group_names)
    for name in ref.G:
        got = norm_e(h.e_of_group(name))
        for e, w in got:
            need(e in ref.G[name] and near(ref.G[name][e], w, 1e-6), 'dropping invented %s', (e, w))
        need(len({e for e, _ in got}) == len(got), 'hyperedge twice')
        keep = {e for e, _ in got}
        r.G[name] = {e: w for e, w in ref.G[name].items() if e in keep}
        if grp is not None and name != grp:
            need(len(keep) == len(ref.G[name]), 'group %s was touched when dropping from %s', name, grp)
        elif p['rate'] == 0:
            need(len(keep) == len(ref.G[name]), 'rate 0 dropped')
        elif p['rate'] == 1:
            need(not keep, 'rate 1 kept %s', keep)
    check_all(h, r, 'dropped')
    h.add_hyperedges([[0]], [3.0], 'sum', 'late')
    r.add([[0]], [3.0], 'sum', 'late')
    for name in ref.G:
        h.add_hyperedges([[0]], [3.0], 'sum', name)
        r.add([[0]], [3.0], 'sum', name)
    check_content(h, r, 'dropped, then changed')
    check_all(g, ref, 'original after the dropped one was changed')
    with raises('an unknown drop order'):
        g.drop_hyperedges(0.5, ord='nope')


@case
def hyper_drop_dist(p):
    n = 24
    es = [[i, j] for i in range(n) for j in range(i + 1, n)]
    g = Hypergraph(n, es)
    random.seed(p['seed'])
    h = g.drop_hyperedges(p['rate']) if not p.get('grp') else g.drop_hyperedges_of_group('main', p['rate'])
    k, t = h.num_e, len(es)
    need(abs(k - (1 - p['rate']) * t) < 6 * (t * p['rate'] * (1 - p['rate'])) ** 0.5 + 1, 'kept %d of %d hyperedges at drop rate %s', k, t, p['rate'])


@case
def hyper_sub(p):
    """P14: sub-hypergraphs"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    for q in p.get('pre', []):
        query(g, q, ref)
    vs = p['vs']
    arg = set(vs) if p.get('as_set') else list(vs)
    arg0 = copy.deepcopy(arg)
    kw = {} if p.get('keep') is None else {'keep_edges_with_only_one_nodes': p['keep']}
    keep1 = kw.get('keep_edges_with_only_one_nodes', True)
    s = g.subgraph(arg, **kw)
    need(arg == arg0, 'vertex list changed')
    check_content(g, ref, 'original after subgraph')
    order = sorted(set(vs))
    vm = {o: i for i, o in enumerate(order)}
    need(s.num_v == len(order), 'num_v %s', s.num_v)
    need([float(x) for x in s.v_weight] == [float(ref.vw[o]) for o in order], 'vertex weights %s', s.v_weight)
    need(list(s.group_names) == list(ref.G), 'groups %s want %s', s.group_names, list(ref.G))
    for name in ref.G:
        traces = {}
        for e, w in ref.G[name].items():
            t = tuple(vm[v] for v in e if v in vm)
            if len(t) < (1 if keep1 else 2):
                continue
            traces.setdefault(t, []).append(w)
        got = norm_e(s.e_of_group(name))
        need(sorted(e for e, _ in got) == sorted(traces), 'group %s: traces %s want %s', name, got, traces)
        for e, w in got:
            ws = traces[e]
            if len(ws) == 1:
                need(near(w, ws[0], 1e-6), 'trace %s has weight %s want %s', e, w, ws[0])
            else:
                # merged by one of the documented merge operations, in order
                ok = []
                for op in ('mean', 'sum', 'max'):
                    x = ws[0]
                    for y in ws[1:]:
                        x = merge(op, x, y)
                    ok.append(x)
                need(any(near(w, x, 1e-6) for x in ok), 'hyperedges collapsing to %s with weights %s got weight %s (none of the merge operations)', e, ws, w)
    r = RefHyper(len(order), [ref.vw[o] for o in order])
    for name in ref.G:
        r.G[name] = {e: w for e, w in norm_e(s.e_of_group(name))}
    check_all(s, r, 'sub-hypergraph')
    for name in ref.G:    # a hyperedge of the sub-hypergraph, given again in any order, is the same hyperedge
        for e, w in list(r.G[name].items()):
            s.add_hyperedges([list(e)[::-1]], [w + 3.0], 'max', name)
            r.add([e], [w + 3.0], 'max', name)
    check_all(s, r, 'sub-hypergraph after its hyperedges were given again')
    s.add_hyperedges([[0]], [5.0], 'sum', 'late')
    if ref.G:
        nm = list(ref.G)[0]
        s.add_hyperedges([[0]], [5.0], 'sum', nm)
    check_all(g, ref, 'original after the sub-hypergraph was changed')


@case
def hyper_sub_bad(p):
    g, ref = build(p)
    for vs in ([], [ref.n], [0, ref.n + 3], [-1]):
        with raises('subgraph(%s)' % vs):
            g.subgraph(vs)
    check_content(g, ref)


# ------------------------------------------------------------------ generators
GN = ['main', 'a', 'b', 'main_2']


def rnd_es(r, n, k):
    out = []
    if n > 10 and r.random() < 0.08:        # a long list in one call
        k = r.choice([40, 70, 140, 280])
    for _ in range(k):
        s = r.sample(range(n), r.randint(1, min(n, 4)) if r.random() < 0.85 else r.randint(1, min(n, 14)))
        out.append(s)
    if k >= 40:
        for i in r.sample(range(k), k // 8):
            out[i] = list(out[r.randrange(k)])
            r.shuffle(out[i])
    pool = [e for e in getattr(r, 'hpool', ()) if max(e) < n]
    if pool and n > 4:
        for i in range(k):
            if r.random() < 0.45:
                out[i] = list(r.choice(pool))
                r.shuffle(out[i])
    r.hpool = (pool + out)[-40:]
    out = [list(e) for e in out]
    if out and r.random() < 0.4:
        e = out[0][:]
        r.shuffle(e)
        out.append(e)
    return out


def rnd_op(r, n, zero=False):
    c = r.random()
    if c < 0.5:
        es = rnd_es(r, n, r.randint(1, 3))
        ws = r.choice([None, 'l', 'l', 's'])
        ws = None if ws is None else (rnd_weights(r, len(es), zero) if ws == 'l' else rnd_weights(r, 1, zero)[0])
        return ['add', es, ws, r.choice(['mean', 'sum', 'max', None]), r.choice(GN + [None])]
    if c < 0.57:
        return ['add1', rnd_es(r, n, 1)[0], r.choice([None] + rnd_weights(r, 4, zero)), r.choice(['mean', 'sum', 'max']), r.choice(GN)]
    if c < 0.77:
        return ['rm', rnd_es(r, n, r.randint(1, 2)), r.choice(GN + [None, None])]
    if c < 0.84:
        return ['rmg', r.choice(GN)]
    if c < 0.87:
        return ['badw', rnd_es(r, n, 2), r.choice(GN)]
    if c < 0.90:
        return ['clone']
    if c < 0.92:
        return ['sd']
    return ['q', r.choice(QALL)]


def rnd_ops(r, n, lo, hi, qrate=0.0, zero=False):
    ops = []
    for _ in range(r.randint(lo, hi)):
        if qrate and r.random() < qrate:
            ops.append(['q', r.choice(QALL)])
        ops.append(rnd_op(r, n, zero))
    return ops


def rnd_base(r, nmax=6, zero=False):
    n = rnd_size(r, nmax) if nmax >= 5 else r.randint(1, nmax)
    r.hpool = []
    p = {'n': n, 'fmt': r.choice(['tuple', 'list', 'list', 'outer'])}
    if r.random() < 0.3:
        p['vw'] = [r.choice(WS) for _ in range(n)]
    if r.random() < 0.75:
        es = rnd_es(r, n, r.randint(1, 5))
        ws = r.choice([None, 'l', 'l'])
        p['init'] = [es, None if ws is None else rnd_weights(r, len(es), zero), r.choice(['mean', 'sum', 'max'])]
    return p


def multi_base(r, nmax=6, zero=False):
    """A hypergraph with one to three groups (repeating hyperedges across groups)."""
    p = rnd_base(r, nmax, zero)
    n = p['n']
    ops = []
    for gname in r.sample(GN, r.randint(0, 3)):
        es = rnd_es(r, n, r.randint(1, 4))
        ops.append(['add', es, rnd_weights(r, len(es), zero), r.choice(['mean', 'sum', 'max']), gname])
    p['ops'] = ops
    return p


HB = [
    dict(n=3, init=[[[0, 1], [1, 2], [0, 1, 2]], [2.0, 0.5, 3.0], 'mean'], ops=[['add', [[0, 2], [0, 1], [1]], [4.0, 1.5, 2.0], 'sum', 'a']]),
    dict(n=5, fmt='list', vw=[2.0, 3.0, 0.5, 1.0, 4.0], init=[[[4, 1], [2, 1, 0]], [2.0, 0.5], 'mean'], ops=[['add', [[3, 2], [4, 1], [1]], [4.0, 1.5, 2.0], 'sum', 'b'], ['add', [[0, 3]], [3.0], 'sum', 'a']]),
    dict(n=4, fmt='tuple', init=[[[2, 0], [0, 1, 3]], None, 'mean'], ops=[]),
]
HM = [['add', [[2, 0], [1, 0]], [2.0, 5.0], 'sum', 'main'], ['add', [[2, 0], [1, 0]], [2.0, 5.0], 'max', 'a'], ['add', [[0, 2]], None, None, 'c'], ['rm', [[1, 0]], None], ['rm', [[1, 0]], 'main'], ['rm', [[1, 0]], 'a'], ['rmg', 'a'], ['rmg', 'main'], ['clone'], ['sd'], ['add1', [1, 2], 3.0, 'mean', 'main']]


def fixed_hist():
    for mop in ('mean', 'sum', 'max', None):
        for ws in ([1.0, 4.0, 2.0], [4.0, 1.0, 3.0]):
            for grp in GN + [None]:
                yield dict(n=3, ops=[['add', [[0, 2]], [ws[0]], mop, grp], ['add', [[2, 0]], [ws[1]], mop, grp], ['add', [[0, 2], [0, 1]], [ws[2], 2.0], mop, grp]])
                yield dict(n=3, ops=[['add', [[0, 2], [2, 0], [0, 2]], ws, mop, grp]])
                yield dict(n=3, init=[[[0, 2], [1, 2]], [3.0, 4.0], 'sum'], ops=[['add', [[0, 2]], [ws[0]], mop, 'a'], ['add', [[2, 0]], [ws[1]], mop, grp], ['rm', [[2, 0]], grp]])
    for b in HB:
        for m1 in HM:
            for m2 in HM:
                yield dict(b, ops=b['ops'] + [m1, m2])


@generator('P03')
def gen_p03(r, tier):
    for p in fixed_hist():
        yield 'hyper_history', p
    while True:
        z = r.choice([False, True, 'any'])
        p = rnd_base(r, zero=z)
        p['ops'] = rnd_ops(r, p['n'], 1, 8, zero=z)
        yield 'hyper_history', p


@generator('P04')
def gen_p04_h(r, tier):
    for b in HB:
        for m1 in HM:
            yield 'hyper_fresh', dict(b, ops=b['ops'] + [['q', q] for q in QALL] + [m1])
    for b in HB[:2]:
        for m1 in HM:
            for q in QALL:
                yield 'hyper_fresh', dict(b, ops=b['ops'] + [['q', q], m1, ['q', q], HM[r.randrange(len(HM))]])
    while True:
        p = rnd_base(r)
        p['ops'] = rnd_ops(r, p['n'], 2, 7, qrate=0.7)
        p['at'] = [i for i in range(len(p['ops'])) if r.random() < 0.3]
        yield 'hyper_fresh', p


@generator('P05')
def gen_p05_h(r, tier):
    for b in HB:
        for how in ('clone', 'sd', 'sd2'):
            for m1 in HM:
                if m1[0] in ('clone', 'sd'):
                    continue
                for pre in ([], QALL):
                    yield 'hyper_copies', dict(b, pre=pre, how=how, ops_h=[m1], ops_g=[HM[0]])
    for k, hows in (('g', ['graph', 'add_graph', 'khop']), ('b', ['big', 'add_big'])):
        for how in hows:
            yield 'hyper_from_graph_pure', dict(k=k, how=how, n=4, es=[[2, 0], [1, 3], [3, 3]])
    yield 'hyper_from_graph_pure', dict(k='d', how='graph', n=4, es=[[2, 0], [1, 3]])
    while True:
        p = multi_base(r, zero=r.random() < 0.4)
        p['pre'] = [r.choice(QALL) for _ in range(r.randint(0, 4))]
        p['how'] = r.choice(['clone', 'sd', 'sd2'])
        p['ops_h'] = rnd_ops(r, p['n'], 1, 3)
        p['ops_g'] = rnd_ops(r, p['n'], 1, 3)
        yield 'hyper_copies', p
        n = r.randint(2, 5)
        k = r.choice('gdb')
        es = [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(1, 5))]
        how = r.choice({'g': ['graph', 'add_graph', 'khop'], 'd': ['graph', 'add_graph'], 'b': ['big', 'add_big']}[k])
        if k != 'b' or r.random() < 0.5:
            es2 = []
            for e in es:
                if k == 'd' and e[::-1] in es2:
                    continue
                es2.append(e)
            yield 'hyper_from_graph_pure', dict(k=k, how=how, n=n, es=es2)


@generator('P06')
def gen_p06_h(r, tier):
    for b in HB:
        yield 'hyper_saveload', b
        for m in HM:
            yield 'hyper_saveload', dict(b, ops=b['ops'] + [m])
    while True:
        z = r.random() < 0.5
        p = multi_base(r, zero=z)
        p['ops'] = p['ops'] + rnd_ops(r, p['n'], 0, 2, zero=z)
        yield 'hyper_saveload', p


def all_hypers(n, maxe=3):
    """All sets of at most maxe hyperedges on n vertices."""
    import itertools
    subs = [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
    for k in range(1, maxe + 1):
        for i, es in enumerate(itertools.combinations(subs, k)):
            yield dict(n=n, init=[[list(e) for e in es], [(1.0, 3.0, 0.5, 2.0)[(i + j) % 4] for j in range(k)], 'mean'], ops=[])


@generator('P09')
def gen_p09(r, tier):
    for n in (1, 2, 3):
        for p in all_hypers(n):
            yield 'hyper_matrices', p
    for b in HB:
        yield 'hyper_matrices', b
        yield 'hyper_unknown_group', b
    for p in all_hypers(2):
        for q in all_hypers(2):
            yield 'hyper_matrices', dict(p, ops=[['add', q['init'][0], q['init'][1], 'mean', 'a']])
    while True:
        p = rescale(multi_base(r), r)
        p['order'] = r.sample(QALL, r.randint(0, 5))
        nm = ['H', 'H_T', 'W_e', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'D_e', 'D_e_neg_1', 'L_HGNN', 'L_sym', 'L_rw']
        r.shuffle(nm)
        p['names'] = nm
        p['xs'] = r.randint(0, 99)
        yield 'hyper_matrices', p


@generator('P11')
def gen_p11(r, tier):
    A = ['mean', 'sum', 'softmax_then_sum']
    for b in HB:
        for a in A:
            for c in range(8):
                for grp in (None, 'main', 'a'):
                    yield 'hyper_passing', dict(b, aggr=a, cv=c & 1, ce=c >> 1 & 1, cw=c >> 2 & 1, grp=grp, xs=c, ws=c)
    for b in HB[:2]:
        for a in A:
            for a2 in A:
                for w in range(3):
                    for grp in (None, 'main'):
                        yield 'hyper_passing', dict(b, aggr=a, aggr2=a2, which=w, grp=grp)
    while True:
        p = multi_base(r)
        p.update(aggr=r.choice(A), aggr2=r.choice(A + [None]), which=r.randrange(3), cv=r.random() < 0.5, ce=r.random() < 0.5, cw=r.random() < 0.5, grp=r.choice([None, 'main', 'a', 'b']), xs=r.randint(0, 99), ws=r.randint(0, 99), k=r.randint(1, 3))
        p['pre'] = r.sample(QALL, r.randint(0, 2))
        if 'softmax_then_sum' in (p['aggr'], p['aggr2']) and r.random() < 0.4:
            # differences of the weights matter, not their size
            p['wshift'] = r.choice([100.0, -120.0, 300.0])
        p['neg'] = r.choice([0, 0, 1, 2])
        yield 'hyper_passing', p


@generator('P12')
def gen_p12_h(r, tier):
    for n in (1, 2, 3):
        for p in all_hypers(n, 2):
            yield 'hyper_nbrs', p
    while True:
        p = rescale(multi_base(r), r)
        p['ops'] = p['ops'] + rnd_ops(r, p['n'], 0, 2, qrate=0.3)
        yield 'hyper_nbrs', p


@generator('P14')
def gen_p14_h(r, tier):
    for b in HB:
        for rate in (0, 0.0, 0.3, 0.5, 0.9, 1, 1.0):
            for grp in (None, 'main', 'a', 'b'):
                yield 'hyper_drop', dict(b, rate=rate, grp=grp, seed=r.randint(0, 999))
        yield 'hyper_sub_bad', b
    for grp in (None, 'main'):
        for rate in (0.1, 0.5, 0.9):
            yield 'hyper_drop_dist', dict(rate=rate, seed=r.randint(0, 999), grp=grp)
    for b in HB:
        n = b['n']
        for mask in range(1, 1 << n):
            vs = [v for v in range(n) if mask >> v & 1]
            for keep in (None, True, False):
                yield 'hyper_sub', dict(b, vs=vs, keep=keep)
                yield 'hyper_sub', dict(b, vs=vs[::-1] + vs[:1], keep=keep)
    while True:
        p = multi_base(r)
        p.update(rate=r.choice([0, 0.2, 0.5, 0.8, 1]), grp=r.choice([None, None, 'main', 'a', 'b']), seed=r.randint(0, 9999))
        p['pre'] = [r.choice(QALL)]
        yield 'hyper_drop', p
        p = multi_base(r)
        vs = [r.randrange(p['n']) for _ in range(r.randint(1, p['n']))]
        if p['n'] > 10 and r.random() < 0.5:
            vs = [v for v in range(p['n']) if r.random() < 0.93] or vs
        p.update(vs=vs, keep=r.choice([None, True, False]), as_set=r.random() < 0.3)
        yield 'hyper_sub', p
