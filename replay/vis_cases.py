"""P28: drawing arguments and layouts."""
import random

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import torch
import dhg
from dhg.visualization.structure import defaults as D
from dhg.visualization.structure import layout as L
import dhg.visualization.structure.draw as DR
from dhg.visualization.structure.utils import edge_list_to_incidence_matrix, init_pos

from common import *


def scalar_or_list(v, base, k):
    if v is None:
        return [base] * k
    if isinstance(v, list):
        return [base * x for x in v]
    return [base * float(v)] * k


def colour(v, default, k):
    if v is None:
        return [default] * k
    if isinstance(v, str):
        return [v] * k
    if isinstance(v[0], (str, tuple, list)):
        return list(v)
    return [v] * k


def bad_len(v, k):
    return isinstance(v, list) and len(v) != k


def bad_col(v, k):
    return isinstance(v, list) and isinstance(v[0], (str, tuple, list)) and len(v) != k


def same_list(a, b, what):
    need(isinstance(a, list) and len(a) == len(b), '%s: %s want %s', what, a, b)
    for x, y in zip(a, b):
        if isinstance(y, float):
            need(near(float(x), y), '%s: %s want %s', what, a, b)
        else:
            need(x == y, '%s: %s want %s', what, a, b)


@case
def style(p):
    nu, nv, ne, a = p['nu'], p['nv'], p['ne'], p['args']
    a = {k: (tuple(v) if False else v) for k, v in a.items()}
    for fn, names in ((D.default_style, 'v e f'), (D.default_hypergraph_style, 'v e f'), (D.default_bipartite_style, 'u v e f')):
        cnt = {'u': nu, 'v': nv, 'e': ne, 'f': ne}
        key = {'u': 'u_color', 'v': 'v_color', 'e': 'e_color', 'f': 'e_fill_color'}
        dft = {'u': 'm', 'v': 'r', 'e': 'gray', 'f': 'whitesmoke'}
        kw = {key[x]: a[key[x]] for x in names.split() if key[x] in a}
        args = (nu, nv, ne) if fn is D.default_bipartite_style else (nv, ne)
        if any(bad_col(a.get(key[x]), cnt[x]) for x in names.split()):
            with raises('a colour list of a wrong length'):
                fn(*args, **kw)
            continue
        kw0 = json.dumps(kw)
        got = fn(*args, **kw)
        need(json.dumps(kw) == kw0, 'arguments were changed')
        for x, g in zip(names.split(), got):
            same_list(g, colour(a.get(key[x], dft[x]), dft[x], cnt[x]), '%s of %s' % (key[x], fn.__name__))


@case
def size(p):
    nu, nv, ne, a = p['nu'], p['nv'], p['ne'], p['args']
    el = [(0, 0)] * ne
    b = {'v_size': 1 / np.sqrt(nv + 10) * 0.1, 'v_line_width': np.exp(-nv / 50), 'e_line_width': np.exp(-ne / 120)}
    cnt = {'v_size': nv, 'v_line_width': nv, 'e_line_width': ne, 'u_size': nu, 'u_line_width': nu}
    names = ['v_size', 'v_line_width', 'e_line_width']
    kw = {k: a[k] for k in names if k in a}
    if any(bad_len(v, cnt[k]) for k, v in kw.items()):
        with raises('a size list of a wrong length'):
            D.default_size(nv, el, **kw)
    else:
        got = D.default_size(nv, el, **kw)
        for k, g in zip(names, got):
            same_list(g, [float(x) for x in scalar_or_list(kw.get(k, 1.0), b[k], cnt[k])], k)
        fs = a.get('font_size', 1.0)
        need(near(float(D.default_size(nv, el, font_size=fs)[3]), 20 * np.exp(-nv / 100) * (1.0 if fs is None else fs)), 'font size')
    b = {'u_size': 1 / np.sqrt(nu + 12) * 0.08, 'u_line_width': np.exp(-nu / 50), 'v_size': 1 / np.sqrt(nv + 12) * 0.08, 'v_line_width': np.exp(-nv / 50), 'e_line_width': np.exp(-ne / 50)}
    names = ['u_size', 'u_line_width', 'v_size', 'v_line_width', 'e_line_width']
    kw = {k: a[k] for k in names if k in a}
    if any(bad_len(v, cnt[k]) for k, v in kw.items()):
        with raises('a size list of a wrong length'):
            D.default_bipartite_size(nu, nv, el, **kw)
        return
    got = D.default_bipartite_size(nu, nv, el, **kw)
    for k, g in zip(names, got):
        same_list(g, [float(x) for x in scalar_or_list(kw.get(k, 1.0), b[k], cnt[k])], 'bipartite ' + k)


@case
def fillers(p):
    k, v = p['k'], p['v']
    if isinstance(v, list) and len(v) != k:
        with raises('a list of a wrong length'):
            D.fill_sizes(v, 2.0, k)
    else:
        same_list(D.fill_sizes(v, 2.0, k), [float(x) for x in scalar_or_list(v, 2.0, k)], 'fill_sizes')
    with raises('a string as size'):
        D.fill_sizes('x', 1.0, k)
    with raises('a number as colour'):
        D.fill_color(1.0, 'r', k)
    need(D.fill_strength(None, 0.5) == 0.5 and near(D.fill_strength(3.0, 0.5), 1.5), 'fill_strength')


@case
def strengths(p):
    s = p['s']
    E = [(0, 1)]
    base = {D.default_strength: (2, [0.006, 0.0, 0.045, 0.01]), D.default_hypergraph_strength: (2, [0.006, 0.008, 0.007, 0.001]),
            D.default_bipartite_strength: (3, [0.005, 0.005, 0.0, 0.03, 0.04, 0.04])}
    for fn, (na, b) in base.items():
        args = ((2, E) if na == 2 else (2, 2, E))
        ss = s[:len(b)]
        got = fn(*args, *ss)
        need(len(got) == len(b), 'number of strengths')
        for g, d, x in zip(got, b, ss):
            need(near(float(g), d if x is None else d * x), '%s: %s', fn.__name__, got)


def positions(c, n, what):
    c = np.asarray(c)
    need(c.shape == (n, 2), '%s: shape %s for %s vertices', what, c.shape, n)
    need(np.isfinite(c).all(), '%s: position not finite: %s', what, c.tolist())
    need((c >= -1e-9).all() and (c <= 1 + 1e-9).all(), '%s: position outside of the drawing area: %s', what, c.tolist())


@case
def layout(p):
    np.random.seed(p['seed'])
    kind, n, m, es = p['kind'], p['n'], p.get('m'), [tuple(e) for e in p['es']]
    e0 = list(es)
    if kind == 'b':
        s = D.default_bipartite_strength(n, m, es)
        u, v = L.bipartite_force_layout(n, m, es, s[0], s[1], None, *s[3:])
        positions(u, n, 'bipartite layout, u')
        positions(v, m, 'bipartite layout, v')
        need(np.vstack([u, v]).max() <= 0.9 + 1e-9, 'layout margin')
    else:
        s = D.default_hypergraph_strength(n, es) if kind == 'h' else D.default_strength(n, es)
        c = L.force_layout(n, es, s[0], s[1] if kind == 'h' else None, s[2], s[3])
        positions(c, n, 'layout')
    need(es == e0, 'edge list changed')


@case
def incidence(p):
    n, es = p['n'], [tuple(e) for e in p['es']]
    H = edge_list_to_incidence_matrix(n, es)
    W = np.zeros((n, len(es)))
    for j, e in enumerate(es):
        for v in e:
            W[v, j] = 1
    need_array(H, W, 'incidence matrix')
    c = init_pos(n, center=(5, 0), scale=4.5)
    need(c.shape == (n, 2) and (abs(c[:, 0] - 5) <= 4.5).all() and (abs(c[:, 1]) <= 4.5).all(), 'initial positions')


@case
def drawing(p):
    """Drawing puts one disc of the requested size and colour per vertex, labels in order."""
    np.random.seed(p['seed'])
    kind, n, m, es = p['kind'], p['n'], p.get('m'), p['es']
    g = {'g': lambda: dhg.Graph(n, es), 'd': lambda: dhg.DiGraph(n, es), 'b': lambda: dhg.BiGraph(n, m, es), 'h': lambda: dhg.Hypergraph(n, es)}[kind]()
    e_before = json.dumps(g.e)
    kw = dict(p['kw'])
    plt.close('all')
    bad = p.get('bad')
    try:
        if bad:
            with raises('a drawing argument list of a wrong length (%s)' % bad):
                g.draw(**kw)
            return
        g.draw(**kw)
        need(json.dumps(g.e) == e_before, 'drawing changed the structure')
        ax = plt.gcf().axes[0]
        from matplotlib.collections import PatchCollection
        pcs = [c for c in ax.collections if isinstance(c, PatchCollection)]
        need(len(pcs) == 1, 'vertex collections: %s', len(pcs))
        tot = n + (m or 0)
        paths = pcs[0].get_paths()
        need(len(paths) == tot, '%s discs for %s vertices', len(paths), tot)
        widths = [float(q.vertices[:, 0].max() - q.vertices[:, 0].min()) / 2 for q in paths]
        if kind == 'b':
            want = scalar_or_list(kw.get('u_size', 1.0), 1 / np.sqrt(n + 12) * 0.08, n) + scalar_or_list(kw.get('v_size', 1.0), 1 / np.sqrt(m + 12) * 0.08, m)
            col = colour(kw.get('u_color', 'm'), 'm', n) + colour(kw.get('v_color', 'r'), 'r', m)
            lab = kw.get('u_label', [''] * n) + kw.get('v_label', [''] * m)
            lw = scalar_or_list(kw.get('u_line_width', 1.0), np.exp(-n / 50), n) + scalar_or_list(kw.get('v_line_width', 1.0), np.exp(-m / 50), m)
        else:
            want = scalar_or_list(kw.get('v_size', 1.0), 1 / np.sqrt(n + 10) * 0.1, n)
            col = colour(kw.get('v_color', 'r'), 'r', n)
            lab = kw.get('v_label')
            lw = scalar_or_list(kw.get('v_line_width', 1.0), np.exp(-n / 50), n)
        got = list(pcs[0].get_linewidths())
        need_array(got if len(got) == tot else got * tot, [float(x) for x in lw], 'line widths of the vertices')
        ne = len(g.e[0])
        ew = scalar_or_list(kw.get('e_line_width', 1.0), np.exp(-ne / (50 if kind == 'b' else 120)), ne)
        ec = colour(kw.get('e_color', 'gray'), 'gray', ne)
        if kind != 'h' and kw.get('e_style') != 'circle':
            from matplotlib.patches import FancyArrow
            fa = [q for q in ax.patches if isinstance(q, FancyArrow)]
            need(len(fa) == ne, '%s arrows for %s edges', len(fa), ne)
            need_array([q.get_linewidth() for q in fa], ew, 'line widths of the edges')
            need_array([q.get_edgecolor() for q in fa], matplotlib.colors.to_rgba_array(ec), 'colours of the edges')
            off = np.asarray(pcs[0].get_offsets())
            ctr = [(q.vertices.max(0) + q.vertices.min(0)) / 2 for q in paths]
            for (a, b), q in zip(g.e[0], fa):
                d = np.array([q._dx, q._dy])
                to = ctr[b + (n if kind == 'b' else 0)] - ctr[a]
                if np.linalg.norm(d) > 1e-3 and np.linalg.norm(to) > 1e-3 and np.linalg.norm(to) > float(widths[a] + widths[b + (n if kind == 'b' else 0)]) + 1e-3:
                    need(abs(d[0] * to[1] - d[1] * to[0]) < 1e-3 * np.linalg.norm(d) * np.linalg.norm(to) and d @ to > 0, 'the arrow of %s does not point from its first to its second vertex', (a, b))
        need_array(widths, [float(x) for x in want], 'disc sizes')
        fc = pcs[0].get_facecolors()
        need_array(fc if len(fc) == tot else np.repeat(fc, tot, 0), matplotlib.colors.to_rgba_array(col), 'disc colours')
        need([t.get_text() for t in ax.texts] == [x for x in (lab or []) if x != ''], 'labels %s want %s', [t.get_text() for t in ax.texts], lab)
    finally:
        plt.close('all')


def rnd_struct(r):
    kind = r.choice('gdbh')
    n, m = r.randint(2, 6), r.randint(1, 5)
    if r.random() < 0.1:
        n, m = r.randint(8, 24), r.randint(8, 24)
    if kind == 'b':
        es = [[r.randrange(n), r.randrange(m)] for _ in range(r.randint(1, 6 if n < 7 else 30))]
    elif kind == 'h':
        es = []
        for _ in range(r.randint(1, 4)):
            e = r.sample(range(n), r.randint(1, n))
            es.append(e)
    else:
        es = [r.sample(range(n), 2) for _ in range(r.randint(1, 6 if n < 7 else 30))]
    return {'kind': kind, 'n': n, 'm': m if kind == 'b' else None, 'es': es}


@generator('P28')
def gen_p28(r, tier):
    C = ['r', 'b', 'g', 'k', 'gray'] + ['#%02x%02x7f' % (7 * i, 250 - 9 * i) for i in range(24)]
    for k in range(1, 3):
        for kind in 'gh':
            yield 'layout', {'kind': kind, 'n': k, 'es': [[0] if kind == 'h' else [0, 0]], 'seed': 1}
    while True:
        nu, nv, ne = r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)

        def num(k):
            c = r.random()
            if c < 0.2:
                return None
            if c < 0.35:
                return r.choice([1, 2])
            if c < 0.5:
                return r.choice([0.5, 1.5, 0.0])
            return [r.choice([0.5, 1.0, 2.0, 3, 0.0, 0]) for _ in range(k if c < 0.9 else k + r.choice([-1, 1, 2]))]

        def col(k):
            c = r.random()
            if c < 0.2:
                return None
            if c < 0.35:
                return r.choice(C)
            if c < 0.5:
                return [0.5, 0.25, 1.0]
            k = max(k if c < 0.9 else k + r.choice([-1, 1, 2]), 1)
            if c < 0.6:
                return [[r.choice([0.0, 0.5, 1.0]) for _ in range(3)] for _ in range(k)]
            return [r.choice(C) for _ in range(k)]
        a = {}
        for k, q in (('v_size', nv), ('v_line_width', nv), ('e_line_width', ne), ('u_size', nu), ('u_line_width', nu)):
            if r.random() < 0.7:
                a[k] = num(q)
        if r.random() < 0.7:
            a['font_size'] = r.choice([None, 1.0, 2.0])
        yield 'size', {'nu': nu, 'nv': nv, 'ne': ne, 'args': a}
        a = {}
        for k, q in (('v_color', nv), ('u_color', nu), ('e_color', ne), ('e_fill_color', ne)):
            if r.random() < 0.7:
                a[k] = col(q)
        yield 'style', {'nu': nu, 'nv': nv, 'ne': ne, 'args': a}
        yield 'fillers', {'k': nu, 'v': num(nu)}
        yield 'strengths', {'s': [r.choice([None, 0.5, 1.0, 2.0]) for _ in range(6)]}
        s = rnd_struct(r)
        yield 'layout', dict(s, seed=r.randrange(1000))
        yield 'incidence', {'n': s['n'] + (s['m'] or 0), 'es': s['es']}
        s = rnd_struct(r)
        kw, bad = {}, None
        pre = ['u', 'v'] if s['kind'] == 'b' else ['v']
        for x in pre:
            k = s['n'] if x == 'u' or s['kind'] != 'b' else s['m']
            d = 0
            if bad is None and r.random() < 0.06:
                d, bad = r.choice([-1, 1]), r.choice(['label', 'size', 'color'])
                if k + d == 0:
                    d = 1
            if r.random() < 0.6 or bad == 'size':
                kw[x + '_size'] = [r.choice([0.5, 1.0, 2.0]) for _ in range(k + (d if bad == 'size' else 0))] if r.random() < 0.7 or bad == 'size' else r.choice([0.5, 2.0])
            if r.random() < 0.6 or bad == 'color':
                kw[x + '_color'] = [r.choice(C) for _ in range(k + (d if bad == 'color' else 0))] if r.random() < 0.7 or bad == 'color' else r.choice(C)
            if r.random() < 0.4:
                kw[x + '_line_width'] = [r.choice([0.5, 1.0, 2.0]) for _ in range(k)] if r.random() < 0.7 else r.choice([0.5, 2.0])
            if bad == 'label' and d:
                kw[x + '_label'] = ['a%d' % i for i in range(k + d)]
                for y in pre:
                    kw.setdefault(y + '_label', ['b%d' % i for i in range(s['n'] if y == 'u' or s['kind'] != 'b' else s['m'])])
        ne = len({tuple(e) if s['kind'] in 'db' else tuple(sorted(e)) for e in s['es']})
        if r.random() < 0.4:
            kw['e_line_width'] = [r.choice([0.5, 1.0, 2.0]) for _ in range(ne)] if r.random() < 0.7 else r.choice([0.5, 2.0])
        if r.random() < 0.4:
            kw['e_color'] = [r.choice(C) for _ in range(ne)] if r.random() < 0.7 else r.choice(C)
        if s['kind'] == 'b' and bad is None and r.random() < 0.15:
            x, k = r.choice([('u', s['n']), ('v', s['m'])])    # labels of one side only
            kw[x + '_label'] = ['%s%d' % (x, i) for i in range(k)]
        elif s['kind'] == 'b' and bad is None and s['m'] > 1 and r.random() < 0.1:
            bad = 'labels, one side too long and the other too short'
            kw['u_label'] = ['u%d' % i for i in range(s['n'] + 1)]
            kw['v_label'] = ['v%d' % i for i in range(s['m'] - 1)]
        if 'v_label' not in kw and 'u_label' not in kw and r.random() < 0.6:
            for x in pre:
                kw[x + '_label'] = [x + str(i) if r.random() < 0.8 else '' for i in range(s['n'] if x == 'u' or s['kind'] != 'b' else s['m'])]
        yield 'drawing', dict(s, kw=kw, seed=r.randrange(1000), bad=bad)
