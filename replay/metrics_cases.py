"""P19 ranking metrics, P20 evaluators."""
import copy
import itertools
import math
import random

import numpy as np
import torch
import dhg.metrics as dm
import dhg.metrics.retrieval as ret
import dhg.metrics.recommender as rec
import dhg.metrics.classification as cla

from common import *

MODS = {'ret': ret, 'rec': rec}


def cut(n, k, ratio):
    if ratio is not None:
        return int(math.ceil(n * ratio))
    return n if k is None else min(k, n)


def ranked(t, s):
    return [t[i] for i in sorted(range(len(t)), key=lambda i: -s[i])]


def r_precision(t, s, k):
    return sum(ranked(t, s)[:k]) / k


def r_recall(t, s, k):
    return sum(ranked(t, s)[:k]) / sum(t) if sum(t) else 0.0


def dcg(x):
    return sum(v / math.log2(i + 2) for i, v in enumerate(x))


def r_ndcg(t, s, k):
    i = dcg(sorted(t, reverse=True)[:k])
    return dcg(ranked(t, s)[:k]) / i if i else 0.0


def hits(t, s, k):
    return [i + 1 for i, v in enumerate(ranked(t, s)[:k]) if v > 0]


def r_ap(t, s, k, method):
    h = hits(t, s, k)
    p = [(j + 1) / r for j, r in enumerate(h)]
    if method == 'pascal_voc':
        p = [max(p[j:]) for j in range(len(p))]
    return sum(p) / len(p) if p else 0.0


def r_rr(t, s, k):
    h = hits(t, s, k)
    return sum(1 / r for r in h) / len(h) if h else 0.0


def r_pr(t, s, k, method, n_points):
    h = hits(t, s, k)
    p = [(j + 1) / r for j, r in enumerate(h)]
    if method == 'pascal_voc':
        p = [max(p[j:]) for j in range(len(p))]
    tot = int(sum(t))
    if not p:
        return [0.0] * n_points
    p = p + [0.0] * (tot - len(p))
    return [p[int(c * (tot - 1))] for c in np.linspace(0, 1, n_points)]


def rows(p):
    return p['t'], p['s']


def lst(x):
    if isinstance(x, torch.Tensor):
        return x.tolist()
    return [float(v) for v in x]


@case
def metric(p):
    mod, name = MODS[p['mod']], p['name']
    t, s = rows(p)
    n = len(t[0])
    kw = {}
    if p.get('k') is not None:
        kw['k'] = p['k']
    if p.get('ratio') is not None:
        kw['ratio'] = p['ratio']
    k = cut(n, p.get('k'), p.get('ratio'))
    if p.get('method'):
        kw['method'] = p['method']
    meth = p.get('method') or 'pascal_voc'
    npts = p.get('n_points') or 11
    if p.get('n_points'):
        kw['n_points'] = npts
    T = torch.tensor(t, dtype=torch.float) if not p.get('bool') else torch.tensor(t).bool()
    S = torch.tensor(s, dtype=torch.float)
    T0, S0 = T.clone(), S.clone()
    f = getattr(mod, name)
    if name == 'pr_curve':
        want = [r_pr(a, b, k, meth, npts) for a, b in zip(t, s)]
        bp, br = f(T, S, ret_batch=True, **kw)
        need_array(bp, want, 'pr_curve, precision per row')
        need_array(br, [np.linspace(0, 1, npts).tolist()] * len(t), 'pr_curve, recall per row')
        mp, mr = f(T, S, **kw)
        need_array(mp, np.mean(want, axis=0), 'pr_curve, mean precision')
        need_array(mr, np.linspace(0, 1, npts), 'pr_curve, recall')
    else:
        R = {'precision': r_precision, 'recall': r_recall, 'ndcg': r_ndcg, 'mrr': r_rr}
        want = [r_ap(a, b, k, meth) if name == 'map' else R[name](a, b, k) for a, b in zip(t, s)]
        got = lst(f(T, S, ret_batch=True, **kw))
        need(len(got) == len(want), '%s: %d values for %d rows', name, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            need(near(a, b), '%s %s: row %d is %s want %s', name, kw, i, a, b)
            need(-1e-6 <= a <= 1 + 1e-6, '%s: %s outside [0, 1]', name, a)
        m = float(f(T, S, **kw))
        need(near(m, sum(want) / len(want)), '%s %s: mean %s want %s', name, kw, m, sum(want) / len(want))
        if len(t) == 1:
            one = float(f(T[0], S[0], **kw))
            need(near(one, want[0]), '%s %s of 1-D input: %s want %s', name, kw, one, want[0])
    need(torch.equal(T, T0) and torch.equal(S, S0), '%s changed its inputs', name)


def rnd_rows(r, graded=False, b=None, n=None, some=True):
    b = b or (r.randint(1, 4) if r.random() < 0.95 else r.choice([9, 33, 70]))
    n = n or (r.randint(1, 7) if r.random() < 0.93 else r.choice([12, 25, 80]))
    pr = r.choice([0.2, 0.5, 0.8])
    while True:
        t = [[float(r.randint(0, 3) if graded else r.random() < pr) for _ in range(n)] for _ in range(b)]
        if not some or max(max(x) for x in t) > 0:
            break
    s = []
    for _ in range(b):
        s.append([x / 64 for x in r.sample(range(-30, 60), n)])
    return t, s


@generator('P19')
def gen_p19(r, tier):
    while True:
        mod = r.choice(['ret', 'rec'])
        name = r.choice(['precision', 'recall', 'ndcg'] if mod == 'rec' else ['precision', 'recall', 'ndcg', 'map', 'mrr', 'pr_curve'])
        t, s = rnd_rows(r, graded=name == 'ndcg' and r.random() < 0.6)
        n = len(t[0])
        d = dict(mod=mod, name=name, t=t, s=s)
        c = r.random()
        if c < 0.5:
            d['k'] = r.randint(1, n + 2)
        elif c < 0.75:
            d['ratio'] = r.choice([0.1, 0.25, 0.5, 0.75, 1.0, 1 / 3])
            if r.random() < 0.3:
                d['k'] = r.randint(1, n)
        if name in ('map', 'pr_curve'):
            d['method'] = r.choice([None, 'legacy', 'pascal_voc'])
        if name == 'pr_curve':
            d['n_points'] = r.choice([None, 2, 5, 11, 21])
        if name in ('precision', 'recall', 'map', 'mrr') and r.random() < 0.2:
            d['bool'] = True
        yield 'metric', d


# ------------------------------------------------------------------ P20
def per_sample(mod, cfg, t, s):
    name, kw = (cfg, {}) if isinstance(cfg, str) else list(cfg.items())[0]
    n = len(t)
    k = cut(n, kw.get('k'), kw.get('ratio'))
    if name == 'map':
        return [r_ap(t, s, k, kw.get('method', 'pascal_voc'))]
    if name == 'pr_curve':
        return [r_pr(t, s, k, kw.get('method', 'pascal_voc'), kw.get('n_points', 11)), np.linspace(0, 1, kw.get('n_points', 11)).tolist()]
    return [{'precision': r_precision, 'recall': r_recall, 'ndcg': r_ndcg, 'mrr': r_rr}[name](t, s, k)]


def has(marker, cfg):
    name, kw = (cfg, {}) if isinstance(cfg, str) else list(cfg.items())[0]
    if not kw:
        return marker == name or marker.startswith(name + ' ->')
    if not marker.startswith(name):
        return False
    return all(k in marker and (str(v) in marker or (isinstance(v, float) and '%.2f' % v in marker)) for k, v in kw.items())


@case
def evaluator(p):
    cls = {'ret': dm.RetrievalEvaluator, 'rec': dm.UserItemRecommenderEvaluator}[p['mod']]
    cfgs = p['cfgs']
    arg = copy.deepcopy(cfgs)
    if p['mod'] == 'rec' and p.get('build'):
        ev = dm.build_evaluator('user_item_recommender', arg, p['vi'])
    else:
        ev = cls(arg, p['vi'])
    given = []
    for ep in p['epochs']:
        kind, batches = ep
        allr = [(a, b) for t, s in batches for a, b in zip(t, s)]
        for t, s in batches:
            T, S = torch.tensor(t), torch.tensor(s)
            (ev.validate_add_batch if kind == 'v' else ev.test_add_batch)(T, S)
        if kind == 'v':
            res = ev.validate_epoch_res()
            w = [per_sample(p['mod'], cfgs[p['vi']], a, b)[0] for a, b in allr]
            need(near(float(res), sum(w) / len(w)), 'validation result %s want %s', res, sum(w) / len(w))
        else:
            res = ev.test_epoch_res()
            need(len(res) == len(cfgs), 'test results %s for %d metrics', sorted(res), len(cfgs))
            names = list(res)
            for i, c in enumerate(cfgs):
                need(has(names[i], c), 'result %d is labelled %r, the metric is %s', i, names[i], c)
                w = [per_sample(p['mod'], c, a, b) for a, b in allr]
                got = res[names[i]]
                if len(w[0]) == 2:
                    for j in (0, 1):
                        need_array(got[j], np.mean([x[j] for x in w], axis=0), 'test result %s[%d]' % (names[i], j))
                else:
                    need(near(float(got), float(np.mean([x[0] for x in w]))), 'test result %s: %s want %s', names[i], got, float(np.mean([x[0] for x in w])))
            for old, snap in given:
                need(old == snap, 'the result of an earlier epoch changed: %s was %s', old, snap)
            given.append((res, copy.deepcopy(res)))
    need(arg == cfgs, 'the configuration of the caller changed')


@case
def evaluator_cls(p):
    kind = p['kind']
    cfgs = ['accuracy', {'f1_score': {'average': p['avg']}}, 'confusion_matrix']
    if kind == 'build':
        ev = dm.build_evaluator('graph_vertex_classification', cfgs, p['vi'])
    elif kind == 'buildh':
        ev = dm.build_evaluator('hypergraph_vertex_classification', cfgs, p['vi'])
    else:
        ev = dm.VertexClassificationEvaluator(cfgs, p['vi'])
    y, P = torch.tensor(p['y']), torch.tensor(p['p'])
    pred = [int(np.argmax(q)) for q in p['p']]
    nc = len(p['p'][0])
    acc = float(np.mean([a == b for a, b in zip(p['y'], pred)]))
    cls = sorted(set(p['y']) | set(pred))
    tp = {c: sum(a == c and b == c for a, b in zip(p['y'], pred)) for c in cls}
    pp = {c: sum(b == c for b in pred) for c in cls}
    tt = {c: sum(a == c for a in p['y']) for c in cls}
    f = {c: 2 * tp[c] / (pp[c] + tt[c]) if pp[c] + tt[c] else 0.0 for c in cls}
    f1 = sum(f.values()) / len(cls) if p['avg'] == 'macro' else acc
    cm = [[sum(x == a and z == b for x, z in zip(p['y'], pred)) for b in cls] for a in cls]
    for Q in (P, P.argmax(dim=1)):
        v = ev.validate(y, Q)
        if p['vi'] < 2:
            need(near(float(v), [acc, f1][p['vi']]), 'validation with %s: %s want %s', cfgs[p['vi']], v, [acc, f1][p['vi']])
        else:
            need_array(v, cm, 'validation with the confusion matrix')
        res = ev.test(y, Q)
        names = list(res)
        need(len(names) == 3 and all(has(m, c) for m, c in zip(names, cfgs)), 'labels %s', names)
        need(near(float(res[names[0]]), acc), 'accuracy %s want %s', res[names[0]], acc)
        need(near(float(res[names[1]]), f1), 'f1 %s want %s', res[names[1]], f1)
        need_array(res[names[2]], cm, 'confusion matrix')


@case
def evaluator_bad(p):
    for bad in (['nonsense'], [{'nonsense': {'k': 1}}]):
        with raises('the metric %s' % bad):
            dm.RetrievalEvaluator(bad)
        with raises('the metric %s' % bad):
            dm.UserItemRecommenderEvaluator(bad)
        with raises('the metric %s' % bad):
            dm.VertexClassificationEvaluator(bad)
    for vi in (-1, 2, 5):
        with raises('the validation index %d' % vi):
            dm.RetrievalEvaluator(['precision', 'recall'], vi)
    with raises('an unknown task'):
        dm.build_evaluator('nonsense', ['precision'])


@generator('P20')
def gen_p20(r, tier):
    yield 'evaluator_bad', {}
    while True:
        if r.random() < 0.2:
            n, c = r.randint(1, 8), r.randint(2, 4)
            yield 'evaluator_cls', dict(kind=r.choice(['build', 'buildh', 'x']), vi=r.randrange(3), avg=r.choice(['macro', 'micro']), y=[r.randrange(c) for _ in range(n)],
                                        p=[[x / 40 for x in r.sample(range(40), c)] for _ in range(n)])
            continue
        mod = r.choice(['ret', 'rec'])
        names = ['precision', 'recall', 'ndcg'] if mod == 'rec' else ['precision', 'recall', 'ndcg', 'map', 'mrr', 'pr_curve']
        n = r.randint(2, 6) if r.random() < 0.95 else 20
        cfgs, seen = [], set()
        for _ in range(r.randint(1, 4)):
            nm = r.choice(names)
            c = nm
            if r.random() < 0.6:
                kw = {}
                if r.random() < 0.7:
                    kw['k'] = r.randint(1, n)
                elif r.random() < 0.6:
                    kw['ratio'] = r.choice([0.25, 0.5, 1.0])
                if nm in ('map', 'pr_curve') and r.random() < 0.5:
                    kw['method'] = r.choice(['legacy', 'pascal_voc'])
                if kw:
                    c = {nm: kw}
            if str(c) in seen:
                continue
            seen.add(str(c))
            cfgs.append(c)
        scal = [i for i, c in enumerate(cfgs) if 'pr_curve' not in str(c)]
        if not scal:
            continue
        vi = r.choice(scal)
        eps = []
        for _ in range(r.randint(1, 4)):
            bs = []
            for _ in range(r.randint(1, 4)):
                t, s = rnd_rows(r, n=n)
                bs.append([t, s])
            eps.append([r.choice('vt'), bs])
        yield 'evaluator', dict(mod=mod, cfgs=cfgs, vi=vi, epochs=eps, build=r.random() < 0.5)
