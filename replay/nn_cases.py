"""P21 (convolution layers) and P22 (losses, regulariser, recommender and stacked models)."""
import random

import numpy as np
import torch
import torch.nn as nn
import dhg
import dhg.nn as dnn
import dhg.models as dm
from dhg import Graph, BiGraph, Hypergraph

import graphs as G
import hypers as HY
from common import *
from ref import RefGraph, RefHyper, inv0, rsqrt0, aggregate
from graphs import feat, lap_ref

LAYERS_G = ['GCN', 'GAT', 'GraphSAGE', 'GIN']
LAYERS_H = ['HGNN', 'HGNNP', 'HNHN', 'JH', 'UniGCN', 'UniGAT', 'UniSAGE', 'UniGIN', 'HyperGCN']


def np_(t):
    return t.detach().double().numpy()


def lin(m, X):
    Y = X @ np_(m.weight).T
    return Y + np_(m.bias) if m.bias is not None else Y


def bn(m, X):
    return (X - np_(m.running_mean)) / np.sqrt(np_(m.running_var) + m.eps) * np_(m.weight) + np_(m.bias)


relu = lambda x: np.maximum(x, 0)
elu = lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0)))
leaky = lambda s: (lambda x: np.where(x > 0, x, s * x))


def randomise(m, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for q in m.parameters():
            q.copy_(torch.randn(q.shape, generator=g) * 0.6)
        for b in m.modules():
            if isinstance(b, nn.BatchNorm1d):
                b.running_mean.copy_(torch.randn(b.running_mean.shape, generator=g) * 0.5)
                b.running_var.copy_(torch.rand(b.running_var.shape, generator=g) + 0.5)


def attend(S, score, X):
    sc = np.clip(score, 0.001, 5)
    return aggregate(S, np.where(S > 0, sc, 0), X, 'softmax_then_sum')


def build_any(p):
    if p.get('hyper'):
        g, ref = HY.build(p)
        for op in p.get('ops', []):
            g, ref = HY.step(g, ref, op, p)
        if not HY.usable(ref) or not ref.edges()[0]:
            raise Reject()
    else:
        g, ref = G.build(p)
        for op in p.get('ops', []):
            g, ref = G.step(g, ref, op, p)
        if ref.kind == 'g' and not ref.content():
            raise Reject()
    return g, ref


def hyper_mats(ref):
    H = ref.H()
    W = ref.W()
    return H, (H != 0).astype(float), H @ W, H.sum(0), W


def l_hgnn(ref):
    return HY.mats(ref, None)['L_HGNN']


def v2e_mean(ref, X):
    H, S, dv, de, W = hyper_mats(ref)
    return np.diag(W) @ np.diag(inv0(de)) @ H.T @ X


def smoothing_hypergcn(ref, X, med):
    """one feature channel only: the projection direction is then irrelevant"""
    es, _ = ref.edges(list(ref.G)[0])
    R = RefGraph('g', ref.n)
    for e in es:
        if len(e) < 2:
            raise Reject()
        v = [float(np.float32(X[u, 0])) for u in e]
        if len(set(v)) != len(v):
            raise Reject()
        s = sorted(v)
        if min((b - a) for a, b in zip(s, s[1:])) < 1e-4:
            raise Reject()
        a, b = e[v.index(max(v))], e[v.index(min(v))]
        if not med:
            R.add([[a, b]], [1.0 / len(e)], 'sum')
        else:
            w = 1.0 / (2 * len(e) - 3)
            for m in e:
                if m != a and m != b:
                    R.add([[a, m], [b, m]], [w, w], 'sum')
    return lap_ref(R) @ X


def layer_ref(name, l, X, ref, act=None):
    last = l.is_last if hasattr(l, 'is_last') else None
    fa = relu
    if name == 'GCN':
        Y = lap_ref(ref) @ lin(l.theta, X)
    elif name == 'GAT':
        Z = lin(l.theta, X)
        S = ref.S()
        s, d = lin(l.atten_src, Z)[:, 0], lin(l.atten_dst, Z)[:, 0]
        # a target i attends over its sources j
        Y = attend(S, leaky(l.atten_act.negative_slope)(s[None, :] + d[:, None]), Z)
        fa = elu
    elif name == 'GraphSAGE':
        Y = lin(l.theta, np.concatenate([X, aggregate(ref.S(), ref.A(), X, 'mean')], 1))
    elif name == 'GIN':
        eps = float(l.eps)
        return mlp(l.MLP, (1 + eps) * X + ref.A() @ X)
    elif name == 'HGNN':
        Y = l_hgnn(ref) @ lin(l.theta, X)
    elif name == 'JH':
        Z = lin(l.theta, X)
        Y = l_hgnn(ref) @ Z + X
    elif name == 'HGNNP':
        Y = e2v_mean(ref, v2e_mean(ref, lin(l.theta, X)))
    elif name == 'HNHN':
        Y = relu(v2e_mean(ref, lin(l.theta_v2e, X)))
        Y = e2v_mean(ref, lin(l.theta_e2v, Y))
    elif name == 'UniGCN':
        H, S, dv, de, W = hyper_mats(ref)
        Z = lin(l.theta, X)
        me = (S.T @ dv) / de
        Y = np.diag(rsqrt0(dv)) @ (H @ (rsqrt0(me)[:, None] * v2e_mean(ref, Z)))
    elif name == 'UniGAT':
        H, S, dv, de, W = hyper_mats(ref)
        Ye = v2e_mean(ref, lin(l.theta, X))
        sc = leaky(l.atten_act.negative_slope)(lin(l.atten_e, Ye)[:, 0])
        Y = attend(S, np.tile(sc, (ref.n, 1)), Ye)
        fa = elu
    elif name == 'UniSAGE':
        H = ref.H()
        Z = lin(l.theta, X)
        Y = H @ v2e_mean(ref, Z) + Z
    elif name == 'UniGIN':
        H = ref.H()
        Z = lin(l.theta, X)
        Y = H @ v2e_mean(ref, Z) + (1 + float(l.eps)) * Z
    elif name == 'HyperGCN':
        Z = lin(l.theta, X)
        Y = smoothing_hypergcn(ref, Z, l.use_mediator)
    else:
        raise ValueError(name)
    if not last:
        Y = fa(Y)
        if l.bn is not None:
            Y = bn(l.bn, Y)
    return Y


def e2v_mean(ref, Y):
    H, S, dv, de, W = hyper_mats(ref)
    return np.diag(inv0(dv)) @ H @ Y


def mlp(m, X):
    for q in m.layers:
        if isinstance(q, nn.Linear):
            X = lin(q, X)
        elif isinstance(q, nn.BatchNorm1d):
            X = bn(q, X)
        elif isinstance(q, nn.ReLU):
            X = relu(X)
        elif isinstance(q, nn.Tanh):
            X = np.tanh(X)
        elif isinstance(q, nn.LeakyReLU):
            X = leaky(q.negative_slope)(X)
        elif not isinstance(q, nn.Dropout):
            raise Fail('unknown module %s in the MLP' % q)
    return X


def make(name, p, cin, cout):
    kw = {}
    for k in ('bias', 'use_bn', 'is_last', 'drop_rate', 'atten_neg_slope', 'eps', 'train_eps'):
        if k in p['kw']:
            kw[k] = p['kw'][k]
    if name == 'GIN':
        m = dnn.MLP([cin, 5, cout], act_name=p['kw'].get('act_name', 'ReLU'), use_bn=bool(kw.get('use_bn')), is_last=bool(kw.get('is_last')))
        return dnn.GINConv(m, **{k: v for k, v in kw.items() if k in ('eps', 'train_eps')})
    cls = {'JH': 'JHConv'}.get(name, name + 'Conv')
    if 'GAT' not in name:
        kw.pop('atten_neg_slope', None)
    if name not in ('GIN', 'UniGIN'):
        kw.pop('eps', None)
        kw.pop('train_eps', None)
    if name == 'HyperGCN':
        kw['use_mediator'] = bool(p['kw'].get('med'))
    return getattr(dnn, cls)(cin, cout, **kw)


def check_options(name, l, p, cin, cout):
    kw = p['kw']
    if name == 'GIN':
        need(isinstance(l.eps, nn.Parameter) == bool(kw.get('train_eps')), 'train_eps not honoured')
        need(near(float(l.eps), kw.get('eps', 0.0)), 'eps')
        return
    need((l.bn is not None) == bool(kw.get('use_bn')), 'use_bn not honoured')
    need(l.is_last == bool(kw.get('is_last')), 'is_last not honoured')
    lins = [l.theta] if hasattr(l, 'theta') else [l.theta_v2e, l.theta_e2v]
    for q in lins:
        need((q.bias is not None) == kw.get('bias', True), 'bias not honoured')
    if name == 'UniGIN':
        need(isinstance(l.eps, nn.Parameter) == bool(kw.get('train_eps')), 'train_eps not honoured')
        need(near(float(l.eps), kw.get('eps', 0.0)), 'eps')
    if 'GAT' in name:
        need(near(l.atten_act.negative_slope, kw.get('atten_neg_slope', 0.2)), 'slope')
        need(near(l.atten_dropout.p, kw.get('drop_rate', 0.5)), 'attention dropout rate')
    else:
        need(near(l.drop.p, kw.get('drop_rate', 0.5)), 'dropout rate')


@case
def conv_layer(p):
    """P21: one layer against its rule."""
    g, ref = build_any(p)
    name = p['layer']
    cin, cout = p.get('cin', 3), {'HyperGCN': 1, 'JH': p.get('cin', 3)}.get(name, p.get('cout', 2))
    l = make(name, p, cin, cout)
    check_options(name, l, p, cin, cout)
    randomise(l, p.get('seed', 0))
    l.eval()
    X = torch.tensor(feat(ref.n, cin, p.get('xs', 0)))
    X0 = X.clone()
    with torch.no_grad():
        got = l(X, g)
    need_array(got, layer_ref(name, l, np_(X), ref), '%s layer' % name)
    need(torch.equal(X, X0), '%s changed its input features', name)
    with torch.no_grad():
        need_array(l(X, g), got, '%s layer, second call' % name)
    (G if not p.get('hyper') else HY).check_content(g, ref, 'after the layer')
    if name in ('GIN', 'HyperGCN') or 'GAT' in name:
        return
    # training mode: dropout acts only unless the layer is the last one
    if l.bn is None:
        l.drop.p = 1.0
        l.train()
        with torch.no_grad():
            t = l(X, g)
        need_array(t, np_(got) if l.is_last else np.zeros_like(np_(got)), '%s layer, training with full dropout' % name)


@case
def conv_attention_dropout(p):
    """P21: attention dropout is inactive in evaluation mode, active on the scores in training."""
    g, ref = build_any(p)
    name = p['layer']
    l = make(name, p, 3, 2)
    randomise(l, p.get('seed', 0))
    X = torch.tensor(feat(ref.n, 3, p.get('xs', 0)))
    l.train()
    l.atten_dropout.p = 1.0
    l.bn = None
    with torch.no_grad():
        got = l(X, g)
        Z = lin(l.theta, np_(X))
    if name == 'GAT':
        Y = attend(ref.S(), np.zeros((ref.n, ref.n)), Z)
    else:
        S = (ref.H() != 0).astype(float)
        Y = attend(S, np.zeros_like(S), v2e_mean(ref, Z))
    need_array(got, Y if l.is_last else elu(Y), '%s layer, all attention dropped' % name)


@case
def conv_multihead(p):
    """P21: multi-head readout."""
    g, ref = build_any(p)
    name, heads, ro = p['layer'], p['heads'], p['readout']
    cls = getattr(dnn, {'JH': 'JHConv'}.get(name, name + 'Conv'))
    w = dnn.MultiHeadWrapper(heads, ro, cls, in_channels=3, out_channels=2, **p['kw'])
    need(len(w.layers) == heads, 'number of heads')
    randomise(w, p.get('seed', 0))
    w.eval()
    X = torch.tensor(feat(ref.n, 3, p.get('xs', 0)))
    outs = [layer_ref(name, l, np_(X), ref) for l in w.layers]
    kw = {'X': X, ('hg' if p.get('hyper') else 'g'): g}
    if ro == 'bad':
        with raises('an unknown readout'):
            w(**kw)
        return
    with torch.no_grad():
        got = w(**kw)
    want = {'concat': lambda: np.concatenate(outs, 1), 'mean': lambda: np.mean(outs, 0), 'max': lambda: np.max(outs, 0), 'sum': lambda: np.sum(outs, 0)}[ro]()
    need_array(got, want, 'multi-head %s' % ro)


@case
def mlp_case(p):
    """P21: MLP layout and value."""
    ch = p['ch']
    m = dnn.MLP(ch, use_bn=p['bn'], drop_rate=p['dr'], is_last=p['last'], act_name=p['act'])
    kinds = [type(q).__name__ for q in m.layers]
    want = []
    for i in range(1, len(ch)):
        want.append('Linear')
        if i < len(ch) - 1 or not p['last']:
            want += [p['act']] + (['BatchNorm1d'] if p['bn'] else []) + ['Dropout']
    need(kinds == want, 'layers %s want %s', kinds, want)
    L = [q for q in m.layers if isinstance(q, nn.Linear)]
    need([q.weight.shape[1] for q in L] + [L[-1].weight.shape[0]] == ch, 'channels')
    for q in m.layers:
        if isinstance(q, nn.Dropout):
            need(near(q.p, p['dr']), 'dropout')
    randomise(m, 3)
    m.eval()
    X = torch.tensor(feat(5, ch[0], 1))
    with torch.no_grad():
        need_array(m(X), mlp(m, np_(X)), 'MLP')
    with raises('a channel list of one entry'):
        dnn.MLP([3])


# ------------------------------------------------------------------ P22
@case
def bpr_loss(p):
    a, b = torch.tensor(p['pos']), torch.tensor(p['neg'])
    kw = dict(p['kw'])
    l = dnn.BPRLoss(**kw)
    al, be = kw.get('alpha', 1.0), kw.get('beta', 1.0)
    d = al * np.array(p['pos'], dtype=float) - be * np.array(p['neg'], dtype=float)
    want = np.mean(np.log1p(np.exp(-d)))
    got = l(a, b)
    need(got.ndim == 0, 'the loss is not a scalar')
    need(near(float(got), want, 1e-3), 'BPR loss %s want %s', float(got), want)
    with raises('an unknown activation'):
        dnn.BPRLoss(activation='relu')


@case
def emb_reg(p):
    embs = [torch.tensor(e) for e in p['embs']]
    e0 = [e.clone() for e in embs]
    kw = dict(p['kw'])
    pw, wd = kw.get('p', 2), kw.get('weight_decay', 1e-4)
    got = dnn.EmbeddingRegularization(**kw)(*embs)
    want = wd * sum((np.array(e, dtype=float) ** pw).sum(1).mean() / pw for e in p['embs'])
    need(abs(float(got) - want) <= 1e-3 * abs(want) + 1e-9, 'embedding regulariser %s want %s', float(got), want)
    need(all(torch.equal(x, y) for x, y in zip(embs, e0)), 'embeddings were changed')


def l2n(X):
    n = np.sqrt((X ** 2).sum(1, keepdims=True))
    return X / np.maximum(n, 1e-12)


def dhcf_hg(p, n, key):
    hp = p[key]
    g, ref = HY.build(hp)
    if not HY.usable(ref) or not ref.edges()[0]:
        raise Reject()
    return g, ref


@case
def recsys_model(p):
    """P22: LightGCN, NGCF, DHCF."""
    nu, ni, d, L = p['n'], p['m'], p.get('d', 2), p['L']
    name = p['model']
    m = getattr(dm, name)(nu, ni, d, num_layers=L, drop_rate=p.get('dr', 0.0))
    need(m.u_embedding.weight.shape == (nu, d) and m.i_embedding.weight.shape == (ni, d), 'embedding sizes')
    randomise(m, p.get('seed', 0))
    m.eval()
    E = np.concatenate([np_(m.u_embedding.weight), np_(m.i_embedding.weight)], 0)
    acc = [E]
    if name == 'DHCF':
        gu, ru = dhcf_hg(p, nu, 'hu')
        gi, ri = dhcf_hg(p, ni, 'hi')
        M = np.zeros((nu + ni,) * 2)
        M[:nu, :nu], M[nu:, nu:] = l_hgnn(ru), l_hgnn(ri)
        args = (gu, gi)
    else:
        g, ref = G.build(p)
        M = lap_ref(ref)
        args = (g,)
    lk = leaky(0.2)
    for i in range(L):
        P = M @ E
        if name == 'LightGCN':
            E = P
        else:
            s = lin(m.W_gc[i], P) + (E if name == 'DHCF' else 0)
            E = l2n(lk(s) + lk(lin(m.W_bi[i], E * P)))
        acc.append(E)
    want = np.mean(acc, 0)
    with torch.no_grad():
        u, it = m(*args)
    need(u.shape == (nu, d) and it.shape == (ni, d), 'output sizes %s %s', tuple(u.shape), tuple(it.shape))
    need_array(u, want[:nu], name + ' users')
    need_array(it, want[nu:], name + ' items')
    if p.get('dr', 0.0) == 0.0:
        m.train()
        with torch.no_grad():
            u2, i2 = m(*args)
        need_array(u2, u, name + ' users, training without dropout')
        need_array(i2, it, name + ' items, training without dropout')


TWO = {'GCN': ('GCN', 0), 'GraphSAGE': ('GraphSAGE', 0), 'HGNN': ('HGNN', 1), 'HGNNP': ('HGNNP', 1), 'HNHN': ('HNHN', 1), 'UniGCN': ('UniGCN', 1),
       'UniSAGE': ('UniSAGE', 1), 'UniGIN': ('UniGIN', 1), 'GAT': ('GAT', 0), 'UniGAT': ('UniGAT', 1), 'GIN': ('GIN', 0)}


@case
def stacked_model(p):
    """P22: stacked models apply their layers in order."""
    g, ref = build_any(p)
    name = p['model']
    base, _ = TWO[name]
    cin, hid, out = 3, 4, 2
    kw = {'use_bn': p['bn'], 'drop_rate': p['dr']}
    X = torch.tensor(feat(ref.n, cin, p.get('xs', 0)))
    X0 = X.clone()
    if name in ('GAT', 'UniGAT'):
        m = getattr(dm, name)(cin, hid, out, p['heads'], atten_neg_slope=0.1, **kw)
        randomise(m, p.get('seed', 0))
        m.eval()
        need(near(m.drop_layer.p, p['dr']), 'dropout rate')
        Y = np.concatenate([layer_ref(base, l, np_(X), ref) for l in m.multi_head_layer.layers], 1)
        want = layer_ref(base, m.out_layer, Y, ref)
        for l in list(m.multi_head_layer.layers) + [m.out_layer]:
            need(near(l.atten_dropout.p, p['dr']) and near(l.atten_act.negative_slope, 0.1), 'options of the attention layers')
    elif name == 'GIN':
        L = p.get('L', 3)
        m = dm.GIN(cin, hid, out, L, num_mlp_layers=p.get('ml', 2), eps=p.get('eps', 0.0), train_eps=p.get('te', False), **kw)
        randomise(m, p.get('seed', 0))
        m.eval()
        need(len(m.layers) == L and len(m.pred_layers) == L + 1, 'number of layers')
        Z = np_(X)
        want = lin(m.pred_layers[0], Z)
        for i, l in enumerate(m.layers):
            Z = layer_ref('GIN', l, Z, ref)
            want = want + lin(m.pred_layers[i + 1], Z)
    else:
        ex = {'eps': p.get('eps', 0.5), 'train_eps': p.get('te', False)} if name == 'UniGIN' else {}
        m = getattr(dm, name)(cin, hid, out, **kw, **ex)
        need(len(m.layers) == 2 and not m.layers[0].is_last and m.layers[1].is_last, 'layer roles')
        need(near(m.layers[0].drop.p, p['dr']), 'dropout rate of the first layer')
        if name == 'UniGIN':
            need(all(near(float(l.eps), ex['eps']) for l in m.layers), 'eps of the layers')
        randomise(m, p.get('seed', 0))
        m.eval()
        want = layer_ref(base, m.layers[1], layer_ref(base, m.layers[0], np_(X), ref), ref)
    for l in m.modules():
        if isinstance(l, nn.Dropout) and p['dr'] == 0.0 and name in ('GAT', 'UniGAT', 'GIN'):
            need(l.p == 0.0, 'dropout active although not configured')
    with torch.no_grad():
        got = m(X, g)
    need(tuple(got.shape) == (ref.n, out), 'output size')
    need_array(got, want, name + ' model')
    need(torch.equal(X, X0), 'input features were changed')
    if p['dr'] == 0.0 and not p['bn']:
        m.train()
        with torch.no_grad():
            need_array(m(X, g), want, name + ' model, training without dropout')


@case
def hypergcn_model(p):
    """P22: HyperGCN applies its layers on the expansion of the input features (fast) in order."""
    g, ref = build_any(p)
    m = dm.HyperGCN(1, 3, 2, use_mediator=p['med'], fast=True, drop_rate=0.0)
    randomise(m, p.get('seed', 0))
    m.eval()
    X = torch.tensor([[float(x)] for x in np.random.RandomState(p.get('xs', 0)).permutation(ref.n)])
    es, _ = ref.edges(list(ref.G)[0])
    l1, l2 = m.layers
    I = np.eye(ref.n)
    M = np.stack([smoothing_hypergcn_with(ref, np_(X), I[:, [i]], p['med'])[:, 0] for i in range(ref.n)], 1)
    want = M @ lin(l2.theta, relu(M @ lin(l1.theta, np_(X))))
    with torch.no_grad():
        need_array(m(X, g), want, 'HyperGCN model')
        need_array(m(X, g), want, 'HyperGCN model, second call')


def smoothing_hypergcn_with(ref, F, X, med):
    es, _ = ref.edges(list(ref.G)[0])
    R = RefGraph('g', ref.n)
    for e in es:
        if len(e) < 2:
            raise Reject()
        v = [F[u, 0] for u in e]
        a, b = e[v.index(max(v))], e[v.index(min(v))]
        if not med:
            R.add([[a, b]], [1.0 / len(e)], 'sum')
        else:
            for m in e:
                if m != a and m != b:
                    R.add([[a, m], [b, m]], [1.0 / (2 * len(e) - 3)] * 2, 'sum')
    return lap_ref(R) @ X


@case
def bgnn_model(p):
    """P22: BGNN alternates v-to-u and u-to-v propagation."""
    g, ref = G.build(p)
    L = p['L']
    B = ref.A()
    du, dv = 3, 2
    if p['model'] == 'BGNN_Adv':
        m = dm.BGNN_Adv(du, dv, layer_depth=L)
    else:
        m = dm.BGNN_MLP(du, dv, 3, 4, drop_rate=p.get('dr', 0.5), layer_depth=L)
    randomise(m, p.get('seed', 0))
    m.eval()
    Xu, Xv = torch.tensor(feat(ref.n, du, 1)), torch.tensor(feat(ref.m, dv, 2))
    U, V = np_(Xu), np_(Xv)
    for i in range(L):
        T = np.tanh(B @ lin(m.layers[i], V)) if i % 2 == 0 else np.tanh(B.T @ lin(m.layers[i], U))
        if p['model'] == 'BGNN_MLP':
            T = mlp(m.decoders[i], T)
        if i % 2 == 0:
            U = T
        else:
            V = T
    with torch.no_grad():
        need_array(m(Xu, Xv, g), U, p['model'])


# ------------------------------------------------------------------ generators
def gbase(r):
    p = G.dense_base(r, 'g', r.randint(1, 5))
    if 'init' not in p:
        p['init'] = [[[0, 0]], [1.0], 'mean']
    return p


def hbase(r, multi=True, big=False):
    p = HY.multi_base(r, 5) if multi and r.random() < 0.5 else HY.rnd_base(r, 5)
    p.setdefault('ops', [])
    if p.get('init') is None:
        p['init'] = [[list(range(min(2, p['n'])))], None, 'mean']
    p['hyper'] = True
    return p


def opts(r):
    return {'bias': r.random() < 0.6, 'use_bn': r.random() < 0.4, 'is_last': r.random() < 0.4, 'drop_rate': r.choice([0.0, 0.3, 0.5]),
            'atten_neg_slope': r.choice([0.1, 0.2, 0.5]), 'eps': r.choice([0.0, 0.5, -0.25]), 'train_eps': r.random() < 0.5, 'med': r.random() < 0.5,
            'act_name': r.choice(['ReLU', 'Tanh'])}


def hdistinct(r):
    n = r.randint(2, 5)
    es = [r.sample(range(n), r.randint(2, n)) for _ in range(r.randint(1, 4))]
    return {'n': n, 'hyper': True, 'init': [es, None, 'mean'], 'ops': []}


@generator('P21')
def gen_p21(r, tier):
    for name in LAYERS_G + LAYERS_H:
        for last in (False, True):
            hyper = name in LAYERS_H
            p = {'hyper': True, 'n': 4, 'init': [[[0, 1], [1, 2, 0], [0, 2]], [2.0, 0.5, 3.0], 'mean'], 'ops': []} if hyper else \
                {'kind': 'g', 'n': 4, 'm': None, 'init': [[[0, 1], [1, 2], [0, 2], [1, 1]], [2.0, 0.5, 3.0, 1.0], 'mean'], 'ops': []}
            yield 'conv_layer', dict(p, layer=name, kw={'is_last': last, 'eps': 0.5, 'use_bn': not last}, seed=1)
    yield 'conv_layer', dict(kind='g', n=2, m=None, init=[[[0, 0]], [1.0], 'mean'], ops=[], layer='GAT', kw={}, seed=2)
    yield 'conv_layer', dict(hyper=True, n=2, init=[[[0]], [1.0], 'mean'], ops=[], layer='UniGAT', kw={}, seed=2)
    while True:
        for name in LAYERS_G + LAYERS_H:
            p = gbase(r) if name in LAYERS_G else (hdistinct(r) if name == 'HyperGCN' else hbase(r))
            kw = opts(r)
            q = dict(p, layer=name, kw=kw, seed=r.randrange(1000), xs=r.randrange(1000), cin=r.randint(1, 4), cout=r.randint(1, 3))
            yield 'conv_layer', q
            if 'GAT' in name:
                yield 'conv_attention_dropout', q
        for _ in range(3):
            name = r.choice(['GAT', 'GCN', 'UniGAT', 'HGNNP', 'GraphSAGE', 'UniGIN'])
            p = gbase(r) if name in LAYERS_G else hbase(r)
            yield 'conv_multihead', dict(p, layer=name, heads=r.randint(1, 3), readout=r.choice(['concat', 'mean', 'max', 'sum', 'bad']), kw={'is_last': r.random() < 0.5, 'use_bn': r.random() < 0.3},
                                         seed=r.randrange(1000), xs=r.randrange(1000))
        yield 'mlp_case', {'ch': [r.randint(1, 4) for _ in range(r.randint(2, 4))], 'bn': r.random() < 0.5, 'dr': r.choice([0.0, 0.5]), 'last': r.random() < 0.5,
                           'act': r.choice(['ReLU', 'Tanh', 'LeakyReLU'])}


@generator('P22')
def gen_p22(r, tier):
    fl = lambda k: [r.choice([-4.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 3.0]) for _ in range(k)]
    while True:
        k = r.randint(1, 6)
        kw = {}
        if r.random() < 0.7:
            kw['alpha'] = r.choice([0.5, 1.0, 2.0])
        if r.random() < 0.7:
            kw['beta'] = r.choice([0.5, 1.0, 2.0])
        for act in ('sigmoid_then_log', 'softplus', None):
            yield 'bpr_loss', {'pos': fl(k), 'neg': fl(k), 'kw': dict(kw, **({'activation': act} if act else {}))}
        c = r.randint(1, 3)
        ek = {}
        if r.random() < 0.7:
            ek['p'] = r.choice([1, 2, 3, 4])
        if r.random() < 0.7:
            ek['weight_decay'] = r.choice([1e-4, 0.1, 1.0, 0.0])
        yield 'emb_reg', {'embs': [[fl(c) for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 4))], 'kw': ek}
        for name in ('LightGCN', 'NGCF', 'DHCF'):
            p = G.dense_base(r, 'b')
            if 'init' not in p:
                p['init'] = [[[0, 0]], [1.0], 'mean']
            q = dict(p, model=name, L=r.randint(0 if name == 'LightGCN' else 1, 4), d=r.randint(1, 3), dr=r.choice([0.0, 0.0, 0.5]), seed=r.randrange(1000))
            if name == 'DHCF':
                nu, ni = r.randint(1, 4), r.randint(1, 4)
                q.update(n=nu, m=ni, hu={'n': nu, 'init': [HY.rnd_es(r, nu, 3), None, 'mean']}, hi={'n': ni, 'init': [HY.rnd_es(r, ni, 3), None, 'mean']})
            yield 'recsys_model', q
        for name in TWO:
            p = hbase(r) if TWO[name][1] else gbase(r)
            yield 'stacked_model', dict(p, model=name, bn=r.random() < 0.4, dr=r.choice([0.0, 0.5, 0.9]), heads=r.randint(1, 3), seed=r.randrange(1000), xs=r.randrange(1000),
                                        eps=r.choice([0.0, 0.5]), te=r.random() < 0.5, L=r.randint(2, 4), ml=r.randint(1, 3))
        yield 'hypergcn_model', dict(hdistinct(r), med=r.random() < 0.5, seed=r.randrange(1000), xs=r.randrange(1000))
        for name in ('BGNN_Adv', 'BGNN_MLP'):
            p = G.dense_base(r, 'b')
            if 'init' not in p:
                p['init'] = [[[0, 0]], [1.0], 'mean']
            yield 'bgnn_model', dict(p, model=name, L=r.randint(1, 4), seed=r.randrange(1000))
