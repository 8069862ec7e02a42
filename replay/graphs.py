"""Cases for simple, directed and bipartite graphs."""
import copy
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
import torch
import dhg
from dhg import Graph, DiGraph, BiGraph

from common import *
from ref import RefGraph, merge, inv0, rsqrt0, aggregate

CLS = {'g': Graph, 'd': DiGraph, 'b': BiGraph}
WS = [0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 2, 7.5] * 3 + [0.01, 0.002, 40.0]


# ------------------------------------------------------------------ running histories
def build(p):
    kind, n, m = p['kind'], p['n'], p.get('m')
    ref = RefGraph(kind, n, m)
    init = p.get('init')
    extra = bool(p.get('extra'))
    kw = {}
    if init is not None:
        es, ws, op = init
        kw = dict(e_list=fmt(es, p), e_weight=copy.deepcopy(ws), merge_op=op)
        ref.add(es, ws, op)
    if kind == 'b':
        g = BiGraph(n, m, **kw)
    else:
        g = CLS[kind](n, extra_selfloop=extra, **kw)
        ref.extra = extra
    return g, ref


def fmt(es, p):
    if p.get('fmt') == 'tuple':
        return [tuple(e) for e in es]
    return [list(e) for e in es]


def step(g, ref, op, p):
    """Applies one operation to the real structure and the reference; returns the (possibly new) pair."""
    t = op[0]
    if t == 'add':
        es, ws, mop = op[1], op[2], op[3]
        arg, wa = fmt(es, p), copy.deepcopy(ws)
        if mop is None:
            g.add_edges(arg, wa)
        else:
            g.add_edges(arg, wa, merge_op=mop)
        need(arg == fmt(es, p) and wa == ws, 'add_edges changed the list of its caller')
        ref.add(es, ws, mop or 'mean')
    elif t == 'add1':  # a single edge given flat
        e, w, mop = op[1], op[2], op[3]
        g.add_edges(tuple(e) if p.get('fmt') == 'tuple' else list(e), w, merge_op=mop)
        ref.add([e], None if w is None else [w], mop)
    elif t == 'rm':
        arg = fmt(op[1], p)
        g.remove_edges(arg)
        need(arg == fmt(op[1], p), 'remove_edges changed the list of its caller')
        ref.remove(op[1])
    elif t == 'rm1':
        g.remove_edges(list(op[1]))
        ref.remove([op[1]])
    elif t == 'bad':
        before = (ref.content(), g.num_e)
        with raises('an edge outside the vertex range %s' % (op[1],)):
            g.add_edges(fmt(op[1], p), None)
    elif t == 'badw':
        with raises('an edge outside the vertex range %s' % (op[1],)):
            g.add_edges(fmt(op[1], p), [1.0] * len(op[1]), merge_op='sum')
    elif t == 'xsl':
        g.add_extra_selfloop(); ref.extra = True
    elif t == 'rxsl':
        g.remove_extra_selfloop(); ref.extra = False
    elif t == 'rsl':
        g.remove_selfloop(); ref.remove_selfloops()
    elif t == 'rev':
        g.reverse_direction(); ref.reverse()
    elif t == 'switch':
        old = ref.copy()
        g2 = g.switch_uv()
        check_content(g, old, 'switch_uv changed its receiver')
        g, ref = g2, ref.switch()
    elif t == 'clear':
        g.clear(); ref.E = {}; ref.extra = False
    elif t == 'q':
        query(g, op[1])
    elif t == 'clone':
        g = g.clone()
    elif t == 'sd':
        g = CLS[p['kind']].from_state_dict(g.state_dict)
    else:
        raise ValueError(t)
    return g, ref


QG = ['e', 'e_both_side', 'num_e', 'A', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'L', 'L_sym', 'L_rw', 'L_GCN', 'deg_v', 'e_src', 'e_dst', 'e_weight', 'N0', 'N0h2', 'N0h3', 'nbr']
QD = ['e', 'num_e', 'A', 'A_T', 'D_v_in', 'D_v_out', 'D_v_in_neg_1', 'D_v_out_neg_1', 'deg_v_in', 'deg_v_out', 'e_src', 'e_dst', 'e_weight', 'Nin', 'Nout']
QB = ['e', 'num_e', 'A', 'B', 'B_T', 'D_u', 'D_v', 'D_u_neg_1', 'D_v_neg_1', 'L_GCN', 'deg_u', 'deg_v', 'e_u', 'e_v', 'e_weight', 'Nu', 'Nv']
QS = {'g': QG, 'd': QD, 'b': QB}


def query(g, name):
    if name == 'N0':
        return g.N_v(0)
    if name == 'N0h2':
        return g.N_v(0, 2)
    if name == 'N0h3':
        return g.N_v(0, 3)
    if name == 'nbr':
        return g.nbr_v(0)
    if name == 'Nin':
        return g.N_v_in(0)
    if name == 'Nout':
        return g.N_v_out(0)
    if name == 'Nu':
        return g.N_u(0)
    if name == 'Nv':
        return g.N_v(0)
    return getattr(g, name)


# ------------------------------------------------------------------ oracles
def content_of(g, kind):
    es, ws = g.e
    need(len(es) == len(ws), 'edge list and weight list have different lengths: %s / %s', es, ws)
    out = []
    for (a, b), w in zip(es, ws):
        a, b = int(a), int(b)
        if kind == 'g' and a > b:
            a, b = b, a
        out.append((a, b, float(w)))
    return sorted(out)


def same_content(x, y):
    return len(x) == len(y) and all(a[:2] == b[:2] and near(a[2], b[2], 1e-6) for a, b in zip(x, y))


def check_content(g, ref, what='content'):
    got, want = content_of(g, ref.kind), ref.content()
    need(same_content(got, want), '%s: edges are %s, the history implies %s', what, got, want)
    need(g.num_e == len(want), '%s: num_e is %s, the history implies %s', what, g.num_e, len(want))
    if ref.kind == 'b':
        need((g.num_u, g.num_v) == (ref.n, ref.m), '%s: sides %s', what, (g.num_u, g.num_v))
        need(g.u == list(range(ref.n)) and g.v == list(range(ref.m)), '%s: vertex lists', what)
    else:
        need(g.num_v == ref.n and g.v == list(range(ref.n)), '%s: num_v %s', what, g.num_v)
    if ref.kind == 'g':
        es, ws = g.e_both_side
        need(len(es) == len(ws), 'e_both_side lengths')
        gb = sorted((int(a), int(b), float(w)) for (a, b), w in zip(es, ws))
        wb = sorted([c for c in want] + [(b, a, w) for a, b, w in want if a != b])
        need(same_content(gb, wb), '%s: e_both_side %s want %s', what, gb, wb)


def check_matrices(g, ref, what='', sel=None):
    w = lambda s: ('%s %s' % (what, s)).strip()
    n = ref.n
    I = np.eye(n)
    if ref.kind == 'g':
        A = ref.A()
        need_array(g.A, A, w('A'), rel=True)
        d = A.sum(1)
        need_array(g.D_v, np.diag(d), w('D_v'), rel=True)
        need_array(g.deg_v, d, w('deg_v'), rel=True)
        need_array(g.D_v_neg_1, np.diag(inv0(d)), w('D_v_neg_1'), rel=True)
        need_array(g.D_v_neg_1_2, np.diag(rsqrt0(d)), w('D_v_neg_1_2'), rel=True)
        A0 = ref.A(selfloops=False, extra=False)
        d0 = A0.sum(1)
        need_array(g.L, np.diag(d0) - A0, w('L'))
        need_array(g.L_sym, I - np.diag(rsqrt0(d0)) @ A0 @ np.diag(rsqrt0(d0)), w('L_sym'))
        need_array(g.L_rw, I - np.diag(inv0(d0)) @ A0, w('L_rw'))
        A1 = ref.A(extra=True)
        r = np.diag(rsqrt0(A1.sum(1)))
        LG = r @ A1 @ r
        need_array(g.L_GCN, LG, w('L_GCN'))
    elif ref.kind == 'd':
        A = ref.A()
        need_array(g.A, A, w('A'), rel=True)
        need_array(g.A_T, A.T, w('A_T'), rel=True)
        for nm, d in (('out', A.sum(1)), ('in', A.sum(0))):
            need_array(getattr(g, 'D_v_' + nm), np.diag(d), w('D_v_' + nm), rel=True)
            need_array(getattr(g, 'deg_v_' + nm), d, w('deg_v_' + nm), rel=True)
            need_array(getattr(g, 'D_v_%s_neg_1' % nm), np.diag(inv0(d)), w('D_v_%s_neg_1' % nm), rel=True)
    else:
        B = ref.A()
        need_array(g.B, B, w('B'), rel=True)
        need_array(g.B_T, B.T, w('B_T'), rel=True)
        Z = np.zeros((ref.n + ref.m,) * 2)
        Z[:ref.n, ref.n:] = B
        Z[ref.n:, :ref.n] = B.T
        need_array(g.A, Z, w('A'), rel=True)
        for nm, d in (('u', B.sum(1)), ('v', B.sum(0))):
            need_array(getattr(g, 'D_' + nm), np.diag(d), w('D_' + nm), rel=True)
            need_array(getattr(g, 'deg_' + nm), d, w('deg_' + nm), rel=True)
            need_array(getattr(g, 'D_%s_neg_1' % nm), np.diag(inv0(d)), w('D_%s_neg_1' % nm), rel=True)
        A1 = Z + np.eye(ref.n + ref.m)
        r = np.diag(rsqrt0(A1.sum(1)))
        need_array(g.L_GCN, r @ A1 @ r, w('L_GCN'))
    return True


def lap_ref(ref):
    if ref.kind == 'b':
        Z = np.zeros((ref.n + ref.m,) * 2)
        B = ref.A()
        Z[:ref.n, ref.n:] = B
        Z[ref.n:, :ref.n] = B.T
        A1 = Z + np.eye(ref.n + ref.m)
    else:
        A1 = ref.A(extra=True)
    r = np.diag(rsqrt0(A1.sum(1)))
    return r @ A1 @ r


def check_nbrs(g, ref, what='', hops=(1, 2, 3)):
    S = ref.S()
    ids = lambda t: sorted(int(x) for x in t)
    nz = lambda row: [int(x) for x in np.nonzero(row)[0]]

    def one(q, lst, want, name):
        need(ids(q) == want, '%s %s is %s, want %s', what, name, ids(q), want)
        need(ids(lst) == want, '%s list form of %s is %s, want %s', what, name, ids(lst), want)
    if ref.kind == 'g':
        P = np.eye(ref.n)
        for h in range(1, max(hops) + 1):
            P = ((P @ S) > 0).astype(float)
            if h in hops:
                for v in range(ref.n):
                    one(g.N_v(v, h), g.nbr_v(v, h), nz(P[v]), 'N_v(%d, hop=%d)' % (v, h))
        for v in range(ref.n):
            one(g.N_v(v), g.nbr_v(v), nz(S[v]), 'N_v(%d)' % v)
        need(near(sum(g.deg_v), float(ref.A().sum())), '%s deg_v', what)
        need_array(g.deg_v, ref.A().sum(1), what + ' deg_v', rel=True)
        es = list(zip(g.e_dst.tolist(), g.e_src.tolist(), g.e_weight.tolist()))
    elif ref.kind == 'd':
        for v in range(ref.n):
            one(g.N_v_out(v), g.nbr_v_out(v), nz(S[v]), 'N_v_out(%d)' % v)
            one(g.N_v_in(v), g.nbr_v_in(v), nz(S[:, v]), 'N_v_in(%d)' % v)
        need_array(g.deg_v_out, ref.A().sum(1), what + ' deg_v_out', rel=True)
        need_array(g.deg_v_in, ref.A().sum(0), what + ' deg_v_in', rel=True)
        es = list(zip(g.e_src.tolist(), g.e_dst.tolist(), g.e_weight.tolist()))
    else:
        for u in range(ref.n):
            one(g.N_v(u), g.nbr_v(u), nz(S[u]), 'N_v(%d)' % u)
        for v in range(ref.m):
            one(g.N_u(v), g.nbr_u(v), nz(S[:, v]), 'N_u(%d)' % v)
        need_array(g.deg_u, ref.A().sum(1), what + ' deg_u', rel=True)
        need_array(g.deg_v, ref.A().sum(0), what + ' deg_v', rel=True)
        es = list(zip(g.e_u.tolist(), g.e_v.tolist(), g.e_weight.tolist()))
    A = ref.A()
    want = sorted((i, j, float(A[i, j])) for i in range(A.shape[0]) for j in range(A.shape[1]) if S[i, j])
    need(same_content(sorted(es), want), '%s e_src/e_dst/e_weight %s want %s', what, sorted(es), want)


def check_all(g, ref, what):
    check_content(g, ref, what)
    check_matrices(g, ref, what)
    check_nbrs(g, ref, what, hops=(1, 2))


# ------------------------------------------------------------------ cases
@case
def graph_history(p):
    """P01 / P02: content after any history."""
    g, ref = build(p)
    check_content(g, ref, 'after construction')
    for i, op in enumerate(p['ops']):
        g, ref = step(g, ref, op, p)
        if p.get('each', True) or i == len(p['ops']) - 1:
            check_content(g, ref, 'after step %d %s' % (i, op))
    A = g.A.to_dense() if p['kind'] != 'b' else g.B.to_dense()
    need_array(A, ref.A(), 'matrix after the history')


@case
def graph_fresh(p):
    """P04: derived quantities after a history with interleaved queries; queries are pure."""
    g, ref = build(p)
    for i, op in enumerate(p['ops']):
        g, ref = step(g, ref, op, p)
        if op[0] == 'mut':
            pass
        if i in p.get('at', [len(p['ops']) - 1]):
            check_all(g, ref, 'after step %d %s' % (i, op))
            if i % 2:
                scribble(g, ref.kind)
    check_all(g, ref, 'at the end')
    check_all(g, ref, 'queried again')


def scribble(g, kind):
    """Modify everything the copying accessors hand out."""
    if kind == 'b':
        outs = [g.N_v(0), g.N_u(0), g.e_u, g.e_v, g.e_weight]
        lists = [g.u, g.v, g.deg_u, g.deg_v, g.nbr_v(0), g.nbr_u(0)]
    elif kind == 'd':
        outs = [g.N_v_in(0), g.N_v_out(0), g.e_src, g.e_dst, g.e_weight]
        lists = [g.v, g.deg_v_in, g.deg_v_out, g.nbr_v_in(0), g.nbr_v_out(0)]
    else:
        outs = [g.N_v(0), g.N_v(0, 2), g.N_v(0, 2), g.e_src, g.e_dst, g.e_weight]
        lists = [g.v, g.deg_v, g.nbr_v(0)]
    for t in outs:
        t.fill_(0) if t.numel() else None
    for l in lists:
        l.append(-7)
    n = g.num_u + g.num_v if kind == 'b' else g.num_v
    X = torch.ones(n, 2)
    if kind == 'g':
        g.smoothing_with_GCN(X).fill_(5)
        g.v2v(X).fill_(5)
        g.v2v(X, 'sum').fill_(5)
    elif kind == 'd':
        g.v2v(X).fill_(5)
        g.v2v(X, 'sum', direction='src2dst').fill_(5)
    else:
        g.smoothing_with_GCN(X).fill_(5)
        g.u2v(torch.ones(g.num_u, 2)).fill_(5)
        g.v2u(torch.ones(g.num_v, 2)).fill_(5)


@case
def graph_copies(p):
    """P05: clones and state-dict copies are equal and independent."""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    for q in p.get('pre', []):
        query(g, q)
    how = p['how']
    if how == 'clone':
        h = g.clone()
    elif how == 'sd':
        h = CLS[p['kind']].from_state_dict(g.state_dict)
    else:
        sd = g.state_dict
        h = CLS[p['kind']].from_state_dict(copy.deepcopy(sd))
    need(type(h) is type(g), 'copy has type %s', type(h))
    rh = ref.copy()
    check_all(h, rh, 'the copy')
    check_all(g, ref, 'the original')
    for op in p['ops_h']:
        h, rh = step(h, rh, op, p)
    check_all(g, ref, 'the original after the copy was changed')
    check_all(h, rh, 'the copy after it was changed')
    for op in p['ops_g']:
        g, ref = step(g, ref, op, p)
    check_all(h, rh, 'the copy after the original was changed')
    check_all(g, ref, 'the original after it was changed')


@case
def graph_saveload(p):
    """P06"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    d = tempfile.mkdtemp(prefix='vp_save_')
    try:
        path = os.path.join(d, 'x.dhg')
        g.save(path)
        for nm, h in (('load', CLS[p['kind']].load(path)), ('load_structure', dhg.load_structure(path)),
                      ('state_dict', CLS[p['kind']].from_state_dict(pickle.loads(pickle.dumps(g.state_dict))))):
            need(type(h) is type(g), '%s gives %s', nm, type(h))
            check_content(h, ref, nm)
            need(list(h.e[0]) == list(g.e[0]) and list(h.e[1]) == list(g.e[1]), '%s: edge order or weights changed', nm)
            check_matrices(h, ref, nm)
        check_content(g, ref, 'after saving')
        for k, c in list(CLS.items()) + [('h', dhg.Hypergraph)]:
            if k != p['kind']:
                with raises('loading a %s file as %s' % (p['kind'], c.__name__)):
                    c.load(path)
        g.add_edges([[0, 0]] if p['kind'] != 'b' else [[0, 0]], [9.0], merge_op='sum')
        ref.add([[0, 0]], [9.0], 'sum')
        g.save(path)
        check_content(CLS[p['kind']].load(path), ref, 'saved again')
    finally:
        shutil.rmtree(d)


@case
def graph_matrices(p):
    """P07 / P08"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    order = p.get('order')
    if order:
        for q in order:
            query(g, q)
    check_matrices(g, ref)
    n = ref.n + (ref.m or 0)
    X = torch.tensor(feat(n, 3, p.get('xs', 0)))
    if ref.kind in 'gb':
        L = lap_ref(ref)
        need_array(g.smoothing_with_GCN(X), L @ X.double().numpy(), 'smoothing_with_GCN')
    M = g.A
    lamb = p.get('lamb', 0.5)
    need_array(g.smoothing(X, M, lamb), X.numpy() + lamb * (M.to_dense().double().numpy() @ X.double().numpy()), 'smoothing')
    check_matrices(g, ref, 'after smoothing')


def feat(n, k, seed):
    r = random.Random(seed * 7919 + n * 31 + k)
    return [[r.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0] * 4 + [0.01, -30.0]) for _ in range(k)] for _ in range(n)]


@case
def graph_passing(p):
    """P10"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    kind = ref.kind
    aggr, custom, direction = p['aggr'], p['custom'], p.get('dir')
    for q in p.get('pre', []):
        query(g, q)
    S, A = ref.S(), ref.A()
    if kind == 'g':
        coords = list(zip(g.e_dst.tolist(), g.e_src.tolist()))
        nsrc = ref.n
    elif kind == 'd':
        coords = list(zip(g.e_src.tolist(), g.e_dst.tolist()))
        nsrc = ref.n
    else:
        coords = list(zip(g.e_u.tolist(), g.e_v.tolist()))
        nsrc = ref.n if direction == 'u2v' else ref.m
    X = torch.tensor(feat(nsrc, p.get('k', 3), p.get('xs', 0)))
    X0 = X.clone()
    kw = {}
    if custom:
        r = random.Random(p.get('ws', 0))
        w = [float(r.choice(WS)) + p.get('wshift', 0.0) for _ in coords]
        if aggr == 'sum' and p.get('neg'):
            w = [-x if p['neg'] == 1 else x * r.choice([1, -1]) for x in w]
        W = np.zeros_like(A)
        for (i, j), x in zip(coords, w):
            W[i, j] += x
        need(len(set(coords)) == len(coords), 'reported edge order lists an edge twice')
        need({c for c in coords} == {(int(i), int(j)) for i, j in zip(*np.nonzero(S))}, 'reported edge order is not the edge set')
        kw['e_weight'] = torch.tensor(w)
        w0 = kw['e_weight'].clone()
        A = W
    if aggr is not None:
        kw['aggr'] = aggr
    if kind == 'd' and direction is not None:
        kw['direction'] = direction
    tr = (kind == 'd' and direction == 'src2dst') or (kind == 'b' and direction == 'u2v')
    if tr:
        S, A = S.T, A.T
    f = g.v2v if kind != 'b' else getattr(g, direction)
    want = aggregate(S, A, X.double().numpy(), aggr or 'mean')
    need_array(f(X, **kw), want, 'message passing %s' % p)
    need_array(f(X, **kw), want, 'message passing, second call')
    need(torch.equal(X, X0), 'features were changed')
    if custom:
        need(torch.equal(kw['e_weight'], w0), 'weights were changed')
        with raises('a weight vector of the wrong length'):
            f(X, **dict(kw, e_weight=torch.ones(len(coords) + 1)))
    with raises('an unknown aggregation'):
        f(X, **dict(kw, aggr='median'))
    check_content(g, ref, 'after message passing')
    check_matrices(g, ref, 'after message passing')


@case
def graph_nbrs(p):
    """P12"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    hops = tuple(p.get('hops', (1, 2, 3)))
    check_nbrs(g, ref, '', hops)
    check_nbrs(g, ref, 'again', hops[::-1])
    if ref.kind == 'g':
        with raises('hop 0'):
            g.N_v(0, 0)


@case
def graph_drop(p):
    """P14 for edges"""
    g, ref = build(p)
    for op in p['ops']:
        g, ref = step(g, ref, op, p)
    for q in p.get('pre', []):
        query(g, q)
    random.seed(p.get('seed', 0))
    torch.manual_seed(p.get('seed', 0))
    h = g.drop_edges(p['rate'])
    need(type(h) is type(g), 'type %s', type(h))
    check_content(g, ref, 'original after drop')
    check_matrices(g, ref, 'original after drop')
    r = ref.copy()
    got = [(a, b, w) for a, b, w in content_of(h, ref.kind)]
    if ref.extra:
        for v in range(ref.n):
            need((v, v, 1.0) in got, 'extra self-loop of %d was lost', v)
            got.remove((v, v, 1.0))
    keys = set()
    for a, b, w in got:
        need((a, b) in ref.E and near(ref.E[(a, b)], w, 1e-6), 'dropping invented edge %s', (a, b, w))
        need((a, b) not in keys, 'edge %s twice', (a, b))
        keys.add((a, b))
    r.E = {k: w for k, w in ref.E.items() if k in keys}
    if p['rate'] == 0:
        need(len(keys) == len(ref.E), 'rate 0 lost edges')
    if p['rate'] == 1:
        need(not keys, 'rate 1 kept edges %s', keys)
    check_all(h, r, 'dropped graph')
    if ref.kind != 'b':
        h.add_edges([[0, 0]], [2.0], merge_op='sum')
    else:
        h.add_edges([[0, 0]], [2.0], merge_op='sum')
    r.add([[0, 0]], [2.0], 'sum')
    check_all(h, r, 'dropped graph after change')
    check_all(g, ref, 'original after the dropped graph was changed')
    with raises('an unknown drop order'):
        g.drop_edges(0.5, ord='nope')


@case
def graph_drop_dist(p):
    """P14: a middling drop rate keeps some edges and drops others."""
    n = 30
    es = [[i, j] for i in range(n) for j in range(i + 1, n)]
    g = CLS[p['kind']](n, es) if p['kind'] != 'b' else BiGraph(n, n, es)
    random.seed(p['seed'])
    k = g.drop_edges(p['rate']).num_e
    t = len(es)
    need(abs(k - (1 - p['rate']) * t) < 6 * (t * p['rate'] * (1 - p['rate'])) ** 0.5 + 1, 'kept %d of %d edges at drop rate %s', k, t, p['rate'])


@case
def graph_adjlist(p):
    """P13: from_adj_list"""
    kind, n, m = p['kind'], p['n'], p.get('m')
    ref = RefGraph(kind, n, m)
    al = copy.deepcopy(p['adj'])
    if kind == 'b':
        g = BiGraph.from_adj_list(n, m, al)
    else:
        g = CLS[kind].from_adj_list(n, al, extra_selfloop=bool(p.get('extra')))
        ref.extra = bool(p.get('extra'))
    need(al == p['adj'], 'adjacency list changed')
    for line in p['adj']:
        ref.add([[line[0], x] for x in line[1:]])
    check_content(g, ref, 'from_adj_list')
    need_array(g.B if kind == 'b' else g.A, ref.A(), 'from_adj_list matrix')


# ------------------------------------------------------------------ generators
def rnd_size(r, hi=6):
    """Mostly small, sometimes large numbers of vertices."""
    return r.randint(1, hi) if r.random() < 0.82 else r.choice([8, 11, 12, 17, 24, 40] * 3 + [70, 130])


def rnd_edges(r, kind, n, m, k):
    if n > 6 and r.random() < 0.5:
        k *= r.randint(1, 4)
    if n > 10 and r.random() < 0.12:        # a long list in one call
        k = r.choice([40, 70, 140, 300, 600])
    out = [[r.randrange(n), r.randrange(m if kind == 'b' else n)] for _ in range(k)]
    if k >= 40:
        for i in r.sample(range(k), k // 8):
            out[i] = list(out[r.randrange(k)])
    pool = [e for e in getattr(r, 'pool', ()) if e[0] < n and e[1] < (m if kind == 'b' else n)]
    if pool and n > 4:      # come back to pairs used before (either way round)
        for i in range(k):
            if r.random() < 0.45:
                e = list(r.choice(pool))
                out[i] = e[::-1] if kind != 'b' and r.random() < 0.4 else e
    r.pool = (pool + out)[-40:]
    return [list(e) for e in out]


def rnd_weights(r, k, zero=False):
    """zero: also weights that are exactly zero; zero='any': also negative ones."""
    more = [0.0, 0.0, 0, -1.0, -0.25] if zero == 'any' else ([0.0, 0] if zero else [])
    return [r.choice(WS + more) for _ in range(k)]


def rescale(p, r):
    """Sometimes makes all the initial weights tiny."""
    if p.get('init') and p['init'][1] and r.random() < 0.15:
        c = r.choice([1e-3, 1e-5, 1e-7])
        p['init'][1] = [w * c for w in p['init'][1]]
    return p


def rnd_op(r, kind, n, m, zero=False, struct_only=False):
    c = r.random()
    k = r.randint(1, 4)
    if c < 0.40:
        es = rnd_edges(r, kind, n, m, k)
        if r.random() < 0.3 and es:
            a, b = es[0]
            es.append([b, a] if kind != 'b' else [a, b])
        ws = rnd_weights(r, len(es), zero) if r.random() < 0.75 else None
        return ['add', es, ws, r.choice(['mean', 'sum', 'max', None])]
    if c < 0.47:
        return ['add1', rnd_edges(r, kind, n, m, 1)[0], r.choice([None] + WS), r.choice(['mean', 'sum', 'max'])]
    if c < 0.62:
        return ['rm', rnd_edges(r, kind, n, m, k)]
    if c < 0.66:
        return ['rm1', rnd_edges(r, kind, n, m, 1)[0]]
    if c < 0.71:
        es = rnd_edges(r, kind, n, m, k)
        i = r.randrange(len(es))
        side = r.randrange(2)
        lim = (n, m)[side] if kind == 'b' else n
        es[i][side] = lim + r.choice([0, 0, 1, 5])
        return [r.choice(['bad', 'badw']), es]
    if kind == 'b':
        return ['switch'] if c < 0.80 else (['clone'] if c < 0.85 else (['sd'] if c < 0.9 else ['q', r.choice(QB)]))
    if c < 0.76:
        return ['xsl']
    if c < 0.80:
        return ['rxsl']
    if c < 0.84:
        return ['rsl']
    if kind == 'd' and c < 0.91:
        return ['rev']
    if c < 0.93:
        return ['clone']
    if c < 0.95:
        return ['sd']
    return ['q', r.choice(QS[kind])]


def rnd_ops(r, kind, n, m, lo, hi, qrate=0.0, zero=False, switch=True):
    ops, cn, cm = [], n, m
    for _ in range(r.randint(lo, hi)):
        if qrate and r.random() < qrate:
            ops.append(['q', r.choice(QS[kind])])
        op = rnd_op(r, kind, cn, cm, zero)
        if op[0] == 'switch' and not switch:
            continue
        ops.append(op)
        if op[0] == 'switch':
            cn, cm = cm, cn
    return ops


def rnd_base(r, kind, small=False, zero=False):
    n, r.pool = rnd_size(r), []
    m = r.choice([x for x in range(1, 7) if x != n] + [n, n + 5]) if kind == 'b' else None
    p = {'kind': kind, 'n': n, 'm': m, 'fmt': r.choice(['tuple', 'list'])}
    if kind != 'b':
        p['extra'] = r.random() < 0.3
    if r.random() < 0.7:
        es = rnd_edges(r, kind, n, m, r.randint(1, 6))
        p['init'] = [es, rnd_weights(r, len(es), zero) if r.random() < 0.7 else None, r.choice(['mean', 'sum', 'max'])]
    return p


def dense_base(r, kind, n=None, zero=False):
    n, r.pool = n or rnd_size(r), []
    m = rnd_size(r) if kind == 'b' else None
    k = r.randint(0, 10)
    es = rnd_edges(r, kind, n, m, k)
    p = {'kind': kind, 'n': n, 'm': m, 'ops': []}
    if es:
        p['init'] = [es, rnd_weights(r, len(es), zero), r.choice(['mean', 'sum', 'max'])]
    if kind != 'b' and r.random() < 0.35:
        p['extra'] = True
    return rescale(p, r)


def fixed_histories(kind):
    n, m = 3, (2 if kind == 'b' else None)
    E = [[0, 1], [1, 0], [2, 0]] if kind == 'b' else [[0, 1], [1, 0], [2, 0], [1, 1], [2, 1]]
    E = [e for e in E]
    base = {'kind': kind, 'n': n, 'm': m}
    # three insertions of the same edge in every merge operation and order
    for mop in ('mean', 'sum', 'max', None):
        for ws in ([1.0, 4.0, 2.0], [4.0, 1.0, 3.0], [2.0, 3.0, 4.0]):
            for e in E:
                for fl in (0, 1):
                    e2 = e[::-1] if fl and kind == 'g' else e
                    yield dict(base, ops=[['add', [e], [ws[0]], mop], ['add', [e2], [ws[1]], mop], ['add', [e], [ws[2]], mop]])
                    yield dict(base, ops=[['add', [e, e2, e], ws, mop]])
                    yield dict(base, init=[[e, e2, e], ws, mop or 'mean'], ops=[])
    for e in E:
        for f in E:
            yield dict(base, init=[[e, f], [2.0, 3.0], 'sum'], ops=[['rm', [f]], ['rm', [e]], ['rm', [e]], ['add', [f], None, 'mean']])
            yield dict(base, init=[[e], [2.0], 'sum'], ops=[['rm1', f], ['rm1', e[::-1] if kind != 'b' else e], ['add1', f, 3.0, 'max']])
    if kind != 'b':
        for extra in (False, True):
            b = dict(base, extra=extra, init=[[[0, 1], [1, 1], [2, 2], [0, 2]], [2.0, 3.0, 0.5, 4.0], 'mean'])
            for ops in ([['rsl']], [['xsl'], ['rxsl']], [['xsl'], ['rsl']], [['rxsl'], ['xsl']], [['rm', [[1, 1]]]], [['xsl'], ['rm', [[1, 1]]]], [['xsl'], ['add', [[1, 1]], [5.0], 'sum']], [['clear'], ['add', [[0, 1]], None, 'mean']]):
                yield dict(b, ops=ops)
                if kind == 'd':
                    yield dict(b, ops=ops + [['rev']])
                    yield dict(b, ops=[['rev']] + ops + [['rev']])
    for lim in (0, 1):
        es = [[0, 1], [0, 0]]
        es[1][lim] = (n, m)[lim] if kind == 'b' else n
        yield dict(base, init=[[[0, 1]], [2.0], 'sum'], ops=[['bad', es], ['badw', es]])
        if kind == 'b':
            yield dict(base, init=[[[0, 1]], [2.0], 'sum'], ops=[['bad', [[0, m]]], ['add', [[n - 1, m - 1]], None, 'mean'], ['switch'], ['add', [[m - 1, n - 1]], None, 'mean'], ['bad', [[n - 1, m - 1]]], ['switch']])


@generator('P01')
def gen_p01(r, tier):
    for p in fixed_histories('g'):
        yield 'graph_history', p
    while True:
        z = r.choice([False, True, 'any'])
        p = rnd_base(r, 'g', zero=z)
        p['ops'] = rnd_ops(r, 'g', p['n'], None, 1, 8, zero=z)
        yield 'graph_history', p


@generator('P02')
def gen_p02(r, tier):
    for k in 'db':
        for p in fixed_histories(k):
            yield 'graph_history', p
    while True:
        k, z = r.choice('db'), r.choice([False, True, 'any'])
        p = rnd_base(r, k, zero=z)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 1, 8, zero=z)
        yield 'graph_history', p


MUT = {
    'g': [['add', [[0, 1], [2, 1]], [2.0, 3.0], 'sum'], ['add', [[0, 1]], [4.0], 'max'], ['rm', [[0, 2]]], ['rm', [[1, 1]]], ['xsl'], ['rxsl'], ['rsl'], ['clear'], ['add1', [0, 2], 3.0, 'mean'], ['clone'], ['sd'], ['rm', [[0, 1], [1, 2]]]],
    'd': [['add', [[1, 0], [2, 1]], [2.0, 3.0], 'sum'], ['add', [[0, 1]], [4.0], 'max'], ['rm', [[0, 2]]], ['rm', [[1, 1]]], ['xsl'], ['rxsl'], ['rsl'], ['rev'], ['clear'], ['clone'], ['sd'], ['add1', [2, 0], 3.0, 'mean']],
    'b': [['add', [[0, 1], [2, 1]], [2.0, 3.0], 'sum'], ['add', [[0, 1]], [4.0], 'max'], ['rm', [[0, 2]]], ['switch'], ['clone'], ['sd'], ['add1', [2, 2], 3.0, 'mean'], ['rm', [[0, 0], [0, 1]]]],
}
BASES = {
    'g': [dict(kind='g', n=3, init=[[[0, 1], [2, 0], [1, 1]], [0.5, 2.0, 3.0], 'sum']), dict(kind='g', n=4, extra=True, init=[[[0, 1], [1, 2], [0, 2]], [1.0, 2.0, 4.0], 'sum']), dict(kind='g', n=3)],
    'd': [dict(kind='d', n=3, init=[[[0, 1], [0, 2], [1, 1], [1, 0]], [0.5, 2.0, 3.0, 1.5], 'sum']), dict(kind='d', n=4, extra=True, init=[[[0, 1], [1, 2], [0, 2]], [1.0, 2.0, 4.0], 'sum']), dict(kind='d', n=3)],
    'b': [dict(kind='b', n=3, m=3, init=[[[0, 1], [0, 2], [1, 1], [1, 0]], [0.5, 2.0, 3.0, 1.5], 'sum']), dict(kind='b', n=3, m=4, init=[[[0, 1], [1, 3], [0, 2]], [1.0, 2.0, 4.0], 'sum']), dict(kind='b', n=3, m=3)],
}


@generator('P04')
def gen_p04_graphs(r, tier):
    # every query before every mutation
    for k in 'gdb':
        for base in BASES[k]:
            for mu in MUT[k]:
                yield 'graph_fresh', dict(base, ops=[['q', q] for q in QS[k]] + [mu], at=[])
            for mu in MUT[k]:
                for q in QS[k]:
                    yield 'graph_fresh', dict(base, ops=[['q', q], mu, ['q', q], MUT[k][r.randrange(len(MUT[k]))]], at=[])
    while True:
        k, z = r.choice('gdb'), r.random() < 0.4
        p = rnd_base(r, k, zero=z)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 2, 7, qrate=0.7, zero=z)
        p['at'] = [i for i in range(len(p['ops'])) if r.random() < 0.3]
        yield 'graph_fresh', p


@generator('P05')
def gen_p05_graphs(r, tier):
    for k in 'gdb':
        for base in BASES[k]:
            for how in ('clone', 'sd', 'sd2'):
                for mu in MUT[k]:
                    if mu[0] in ('clone', 'sd', 'switch'):
                        continue
                    for pre in ([], QS[k]):
                        yield 'graph_copies', dict(base, ops=[], pre=pre, how=how, ops_h=[mu], ops_g=[MUT[k][1]])
    while True:
        k, z = r.choice('gdb'), r.random() < 0.5
        p = rnd_base(r, k, zero=z)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 3, switch=False, zero=z)
        p['pre'] = [r.choice(QS[k]) for _ in range(r.randint(0, 4))]
        p['how'] = r.choice(['clone', 'sd', 'sd2'])
        p['ops_h'] = rnd_ops(r, k, p['n'], p.get('m'), 1, 3, switch=False)
        p['ops_g'] = rnd_ops(r, k, p['n'], p.get('m'), 1, 3, switch=False)
        yield 'graph_copies', p


@generator('P06')
def gen_p06_graphs(r, tier):
    for k in 'gdb':
        for base in BASES[k]:
            yield 'graph_saveload', dict(base, ops=[])
            for mu in MUT[k]:
                yield 'graph_saveload', dict(base, ops=[mu])
    while True:
        k, z = r.choice('gdb'), r.random() < 0.5
        p = rnd_base(r, k, zero=z)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 4, zero=z)
        yield 'graph_saveload', p


def all_graphs(kind, n, m=None, ws=(1.0, 3.0)):
    """Every edge set on n vertices (with a varying weight pattern)."""
    if kind == 'g':
        pairs = [[i, j] for i in range(n) for j in range(i, n)]
    elif kind == 'd':
        pairs = [[i, j] for i in range(n) for j in range(n)]
    else:
        pairs = [[i, j] for i in range(n) for j in range(m)]
    for mask in range(1 << len(pairs)):
        es = [e for i, e in enumerate(pairs) if mask >> i & 1]
        w = [(ws[0], ws[1], 0.5, 2.0)[(i + mask) % 4] for i in range(len(es))]
        p = {'kind': kind, 'n': n, 'm': m, 'ops': []}
        if es:
            p['init'] = [es, w, 'sum']
        yield p


@generator('P07')
def gen_p07(r, tier):
    for n in (1, 2, 3):
        for p in all_graphs('g', n):
            for extra in (False, True):
                yield 'graph_matrices', dict(p, extra=extra, xs=n)
    while True:
        p = dense_base(r, 'g', zero=r.random() < 0.3)
        p['ops'] = rnd_ops(r, 'g', p['n'], None, 0, 3)
        qs = QG[:]
        r.shuffle(qs)
        p['order'] = qs[:r.randint(0, 6)]
        p['xs'] = r.randint(0, 99)
        p['lamb'] = r.choice([0.5, -1.0, 2.0, 0.0])
        yield 'graph_matrices', p


@generator('P08')
def gen_p08(r, tier):
    for n in (1, 2):
        for p in all_graphs('d', n):
            for extra in (False, True):
                yield 'graph_matrices', dict(p, extra=extra, xs=n)
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for p in all_graphs('b', n, m):
            yield 'graph_matrices', dict(p, xs=n)
    while True:
        k = r.choice('db')
        p = dense_base(r, k, zero=r.random() < 0.3)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 3)
        p['xs'] = r.randint(0, 99)
        if not any(o[0] == 'switch' for o in p['ops']):
            qs = QS[k][:]
            r.shuffle(qs)
            p['order'] = qs[:r.randint(0, 6)]
        yield 'graph_matrices', p


@generator('P10')
def gen_p10(r, tier):
    opts = [(a, c) for a in ('mean', 'sum', 'softmax_then_sum', None) for c in (0, 1)]
    dirs = {'g': [None], 'd': [None, 'dst2src', 'src2dst'], 'b': ['u2v', 'v2u']}
    for n in (1, 2):
        for k in 'gdb':
            for p in all_graphs(k, n, n + 1):
                for a, c in opts:
                    for d in dirs[k]:
                        yield 'graph_passing', dict(p, aggr=a, custom=c, dir=d, xs=n, ws=n)
    while True:
        k = r.choice('gdb')
        p = dense_base(r, k, zero=r.random() < 0.2)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 2, switch=False)
        a, c = r.choice(opts)
        p.update(aggr=a, custom=c, dir=r.choice(dirs[k]), xs=r.randint(0, 99), ws=r.randint(0, 99), k=r.randint(1, 4))
        p['pre'] = [r.choice(QS[k]) for _ in range(r.randint(0, 2))]
        p['neg'] = r.choice([0, 0, 1, 2])
        if a == 'softmax_then_sum' and r.random() < 0.4:
            # differences of the weights matter, not their size
            p['wshift'] = r.choice([0.0, 100.0, -120.0, 300.0])
            if p.get('init'):
                p['init'][1] = [w + abs(p['wshift']) for w in p['init'][1]]
        yield 'graph_passing', p


@generator('P12')
def gen_p12_graphs(r, tier):
    for n in (1, 2, 3):
        for p in all_graphs('g', n):
            yield 'graph_nbrs', dict(p, hops=[1, 2, 3, 4])
            yield 'graph_nbrs', dict(p, hops=[3, 2], extra=True)
    for n in (1, 2):
        for p in all_graphs('d', n):
            yield 'graph_nbrs', p
    for n, m in ((1, 2), (2, 2), (2, 3)):
        for p in all_graphs('b', n, m):
            yield 'graph_nbrs', p
    while True:
        k = r.choice('ggdb')
        p = dense_base(r, k)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 3, qrate=0.3)
        p['hops'] = r.choice([[1, 2, 3], [4, 2], [5, 1], [3], [2, 12], [11, 1]])
        if k == 'g' and r.random() < 0.2:    # a long path, with far hops
            n = p['n'] = r.randint(8, 16)
            p['init'] = [[[i, i + 1] for i in range(n - 1) if r.random() < 0.97], None, 'mean']
            p['ops'] = []
        yield 'graph_nbrs', p


@generator('P14')
def gen_p14_graphs(r, tier):
    for k in 'gdb':
        for base in BASES[k]:
            for rate in (0, 0.0, 0.3, 0.5, 0.9, 1, 1.0):
                for pre in ([], ['A' if k != 'b' else 'B', 'e']):
                    yield 'graph_drop', dict(base, ops=[], rate=rate, pre=pre, seed=r.randint(0, 999))
        for rate in (0.1, 0.5, 0.9):
            yield 'graph_drop_dist', dict(kind=k, rate=rate, seed=r.randint(0, 999))
    while True:
        k, z = r.choice('gdb'), r.random() < 0.4
        p = rnd_base(r, k, zero=z)
        p['ops'] = rnd_ops(r, k, p['n'], p.get('m'), 0, 3, zero=z)
        p.update(rate=r.choice([0, 0.2, 0.5, 0.8, 1]), seed=r.randint(0, 9999), pre=[r.choice(QS[k])])
        if any(o[0] == 'switch' for o in p['ops']):
            p['pre'] = []
        yield 'graph_drop', p


@generator('P13')
def gen_p13_adj(r, tier):
    while True:
        k = r.choice('gdb')
        n, m = r.randint(1, 5), r.randint(1, 5)
        if k != 'b':
            m = None
        adj = []
        for _ in range(r.randint(1, 4)):
            adj.append([r.randrange(n)] + [r.randrange(m or n) for _ in range(r.randint(0, 4))])
        if not any(len(l) > 1 for l in adj):
            continue
        yield 'graph_adjlist', dict(kind=k, n=n, m=m, adj=adj, extra=r.random() < 0.3)
