"""P28: drawing arguments.  Colours are arbitrary texts, sizes arbitrary numbers; numbers of vertices and edges are arbitrary."""
from pyvc.spec import *
from contracts.structs import *
from contracts.structs import list_eq

D = 'dhg.visualization.structure.defaults:'
L = 'dhg.visualization.structure.layout:'
T = 'dhg.visualization.structure.utils:'


def colours(ex, nm, m):
    q = fresh('q')
    return ListV((Loop(q, lift(m), (Item(app(nm, q, sort='U')),)),), frozen='the colour list ' + nm)


def numbers(ex, nm, m):
    q = fresh('q')
    return ListV((Loop(q, lift(m), (Item(app(nm, q, sort='R')),)),), frozen='the list ' + nm)


def broadcast(ex, label, r, n, v):
    """r is a list of n entries, all equal to v."""
    if not isinstance(r, ListV):
        ex.fail(label, 'not a list')
        return
    for c in lib.leaves(r.nodes) if hasattr(lib, 'leaves') else leaves(r.nodes):
        ex.check(label + ': the value', veq_any(ex, c[2], v))
    ex.check(label + ': one per element', eq(nlen(r.nodes), lift(n)))


def veq_any(ex, a, b):
    if isinstance(a, (Term, int, float, Fraction, str)) and isinstance(b, (Term, int, float, Fraction, str)):
        if isinstance(a, str) or isinstance(b, str):
            return STR.enc(a)[0] is STR.enc(b)[0] if not (isinstance(a, Term) or isinstance(b, Term)) else eq(STR.enc(a)[0], STR.enc(b)[0])
        return eq_any(lift(a), lift(b))
    return a is b


def kept(ex, label, r, n, nm):
    """r is the list nm of n entries as it was given."""
    list_eq(ex, label, r, n, lambda p: app(nm, lift(p), sort='U'))


# ------------------------------------------------------------------ colours
@contract('fill_color', ['P28'], [D + 'fill_color'])
def _(ex):
    n, m = isym(ex, 'n', 0), isym(ex, 'm', 1)
    dflt = app('default', sort='U')
    broadcast(ex, 'no colour: the default', callq(ex, D + 'fill_color', None, dflt, n), n, dflt)
    broadcast(ex, 'a name for all', callq(ex, D + 'fill_color', 'red', dflt, n), n, 'red')
    rgb = ListV((Item(app('r', sort='R')), Item(app('g', sort='R')), Item(app('b', sort='R'))))
    broadcast(ex, 'one colour given by numbers', callq(ex, D + 'fill_color', rgb, dflt, n), n, rgb)
    k, r = raises(ex, lambda: callq(ex, D + 'fill_color', 3.5, dflt, n))
    ex.check('other values are rejected', k == 'ValueError')
    for mk in (lambda q: (app('r', q, sort='R'), app('g', q, sort='R'), app('b', q, sort='R')), lambda q: ListV((Item(app('r', q, sort='R')), Item(app('g', q, sort='R'))))):
        q = fresh('q')
        c = ListV((Loop(q, m, (Item(mk(q)),)),))
        k, r = raises(ex, lambda: callq(ex, D + 'fill_color', c, dflt, n))
        if k:
            ex.check('rejected exactly for a wrong length', ne(m, n))
        else:
            ex.check('accepted only with the right length', eq(m, n))
            ex.check('colours given by numbers are kept', r is c)


@contract('fill_color, per element', ['P28'], [D + 'fill_color'])
def _(ex):
    n, m = isym(ex, 'n', 0), isym(ex, 'm', 1)
    dflt = app('default', sort='U')
    c = colours(ex, 'col', m)
    k, r = raises(ex, lambda: callq(ex, D + 'fill_color', c, dflt, n))
    if k:
        ex.check('rejected exactly for a wrong length', ne(m, n))
    else:
        ex.check('accepted only with the right length', eq(m, n))
        kept(ex, 'kept as they are, in order', r, n, 'col')


# ------------------------------------------------------------------ sizes
@contract('fill_sizes', ['P28'], [D + 'fill_sizes'])
def _(ex):
    n, m = isym(ex, 'n', 0), isym(ex, 'm', 0)
    b, s, i = rsym(ex, 'base'), rsym(ex, 'scale'), isym(ex, 'iscale')
    broadcast(ex, 'nothing: the default', callq(ex, D + 'fill_sizes', None, b, n), n, b)
    broadcast(ex, 'one scale for all', callq(ex, D + 'fill_sizes', s, b, n), n, mul(b, s))
    broadcast(ex, 'an integer scale for all', callq(ex, D + 'fill_sizes', i, b, n), n, mul(b, i))
    k, r = raises(ex, lambda: callq(ex, D + 'fill_sizes', 'big', b, n))
    ex.check('other values are rejected', k == 'ValueError')
    c = numbers(ex, 'scales', m)
    k, r = raises(ex, lambda: callq(ex, D + 'fill_sizes', c, b, n))
    if k:
        ex.check('rejected exactly for a wrong length', ne(m, n))
    else:
        ex.check('accepted only with the right length', eq(m, n))
        list_eq(ex, 'one scale per element, in order', r, n, lambda p: mul(b, app('scales', lift(p), sort='R')))


@contract('fill_strength', ['P28'], [D + 'fill_strength'])
def _(ex):
    b, s = rsym(ex, 'base'), rsym(ex, 'scale')
    ex.check('the default', eq_any(lift(callq(ex, D + 'fill_strength', None, b)), b))
    ex.check('the default, scaled', eq_any(lift(callq(ex, D + 'fill_strength', s, b)), mul(b, s)))


# ------------------------------------------------------------------ the defaults of each kind of drawing
STYLES = {'default_style': (['num_v', 'num_e'], [('v_color', 'num_v'), ('e_color', 'num_e'), ('e_fill_color', 'num_e')]),
          'default_hypergraph_style': (['num_v', 'num_e'], [('v_color', 'num_v'), ('e_color', 'num_e'), ('e_fill_color', 'num_e')]),
          'default_bipartite_style': (['num_u', 'num_v', 'num_e'], [('u_color', 'num_u'), ('v_color', 'num_v'), ('e_color', 'num_e'), ('e_fill_color', 'num_e')])}

for _f, (_nums, _outs) in STYLES.items():
    @contract(_f, ['P28'], [D + _f, D + 'fill_color'])
    def _(ex, f=_f, nums=_nums, outs=_outs):
        N = {k: isym(ex, k, 1) for k in nums}
        names = [o for o, _ in outs]
        r = callq(ex, D + f, *[N[k] for k in nums])
        ex.check('one list per argument', len(r) == len(outs))
        for i, (o, k) in enumerate(outs):
            ex.check('%s: one default per element' % o, eq(nlen(lib.iter_nodes(ex, r[i])), N[k]))
        for o in names:                       # one argument given, the others keep their defaults
            base = callq(ex, D + f, *[N[k] for k in nums])
            r = callq(ex, D + f, *[N[k] for k in nums], **{o: 'given'})
            for i, (o2, k) in enumerate(outs):
                vs = [v for _, _, v in leaves(base[i].nodes)]
                broadcast(ex, '%s given: %s' % (o, o2), r[i], N[k], 'given' if o2 == o else vs[0])
        r = callq(ex, D + f, *[N[k] for k in nums], *['colour %d' % i for i in range(len(outs))])
        for i, (o, k) in enumerate(outs):
            broadcast(ex, 'all given in order: ' + o, r[i], N[k], 'colour %d' % i)
        lists = {o: colours(ex, 'c_' + o, N[k]) for o, k in outs}
        r = callq(ex, D + f, *[N[k] for k in nums], **lists)
        for i, (o, k) in enumerate(outs):
            kept(ex, 'one per element: ' + o, r[i], N[k], 'c_' + o)


    @contract(_f + ', wrong lengths', ['P28'], [D + _f, D + 'fill_color'])
    def _(ex, f=_f, nums=_nums, outs=_outs):
        N = {k: isym(ex, k, 1) for k in nums}
        for o, k in outs:
            m = isym(ex, 'm_' + o, 1)
            kind, r = raises(ex, lambda: callq(ex, D + f, *[N[x] for x in nums], **{o: colours(ex, 'c_' + o, m)}))
            ex.check('%s: a list is rejected exactly when it has a wrong length' % o, ne(m, N[k]) if kind else eq(m, N[k]))


SIZES = {'default_size': (['num_v'], [('v_size', 'num_v'), ('v_line_width', 'num_v'), ('e_line_width', 'num_e')], ['font_size']),
         'default_bipartite_size': (['num_u', 'num_v'], [('u_size', 'num_u'), ('u_line_width', 'num_u'), ('v_size', 'num_v'), ('v_line_width', 'num_v'), ('e_line_width', 'num_e')], ['u_font_size', 'v_font_size'])}


def only(ex, label, r):
    vs = [v for _, _, v in leaves(r.nodes)] if isinstance(r, ListV) else []
    if len(vs) != 1 or fv(lift(vs[0])) & {b for bs, _, _ in leaves(r.nodes) for b, _ in bs}:
        ex.undecided(label, 'the default is not one value')
        return None
    return lift(vs[0])


for _f, (_nums, _outs, _fonts) in SIZES.items():
    @contract(_f, ['P28'], [D + _f, D + 'fill_sizes'])
    def _(ex, f=_f, nums=_nums, outs=_outs, fonts=_fonts):
        N = {k: isym(ex, k, 1) for k in ('num_u', 'num_v', 'num_e')}
        q = fresh('q')
        edges = ListV((Loop(q, N['num_e'], (Item((app('e0', q, sort='I'), app('e1', q, sort='I'))),)),), frozen='the edge list')
        call = lambda **kw: callq(ex, D + f, *[N[k] for k in nums], edges, **kw)
        base = call(**{o: None for o, _ in outs}, **{o: None for o in fonts})
        bases = []
        for i, (o, k) in enumerate(outs):
            b = only(ex, o, base[i])
            if b is None:
                return
            broadcast(ex, 'default: ' + o, base[i], N[k], b)
            ex.check('%s is positive' % o, lt(ZERO, b))
            bases.append(b)
        for j, o in enumerate(fonts):
            ex.check('%s is positive' % o, lt(ZERO, lift(base[len(outs) + j])))
        plain = call()
        for i, (o, k) in enumerate(outs):
            broadcast(ex, 'not given: ' + o, plain[i], N[k], bases[i])
        S = {o: rsym(ex, 's_' + o) for o, _ in outs}
        F = {o: rsym(ex, 's_' + o) for o in fonts}
        r = call(**S, **F)
        for i, (o, k) in enumerate(outs):
            broadcast(ex, 'scaled: ' + o, r[i], N[k], mul(bases[i], S[o]))
        for j, o in enumerate(fonts):
            ex.check('scaled: ' + o, eq_any(lift(r[len(outs) + j]), mul(F[o], lift(base[len(outs) + j]))))
        r = callq(ex, D + f, *[N[k] for k in nums], edges, *[S[o] for o in [x[0] for x in outs]])
        for i, (o, k) in enumerate(outs):
            broadcast(ex, 'scaled, in order: ' + o, r[i], N[k], mul(bases[i], S[o]))
        r = call(**{o: numbers(ex, 'n_' + o, N[k]) for o, k in outs})
        for i, (o, k) in enumerate(outs):
            list_eq(ex, 'one per element: ' + o, r[i], N[k], lambda p: mul(bases[i], app('n_' + o, lift(p), sort='R')))


    @contract(_f + ', wrong lengths', ['P28'], [D + _f, D + 'fill_sizes'])
    def _(ex, f=_f, nums=_nums, outs=_outs, fonts=_fonts):
        N = {k: isym(ex, k, 1) for k in ('num_u', 'num_v', 'num_e')}
        q = fresh('q')
        edges = ListV((Loop(q, N['num_e'], (Item((app('e0', q, sort='I'), app('e1', q, sort='I'))),)),), frozen='the edge list')
        for o, k in outs:
            m = isym(ex, 'm_' + o, 0)
            kind, r = raises(ex, lambda: callq(ex, D + f, *[N[x] for x in nums], edges, **{o: numbers(ex, 'n_' + o, m)}))
            ex.check('%s: a list is rejected exactly when it has a wrong length' % o, ne(m, N[k]) if kind else eq(m, N[k]))


STRENGTHS = {'default_strength': (1, ['push_v_strength', 'push_e_strength', 'pull_e_strength', 'pull_center_strength']), 'default_hypergraph_strength': (1, ['push_v_strength', 'push_e_strength', 'pull_e_strength', 'pull_center_strength']),
             'default_bipartite_strength': (2, ['push_u_strength', 'push_v_strength', 'push_e_strength', 'pull_e_strength', 'pull_u_center_strength', 'pull_v_center_strength'])}

for _f, (_k, _outs) in STRENGTHS.items():
    @contract(_f, ['P28'], [D + _f, D + 'fill_strength'])
    def _(ex, f=_f, nk=_k, outs=_outs):
        nums = [isym(ex, 'num%d' % i, 1) for i in range(nk)]
        edges = ListV(())
        base = callq(ex, D + f, *nums, edges, *[None for _ in outs])
        S = [rsym(ex, 's_' + o) for o in outs]
        for r in (callq(ex, D + f, *nums, edges, *S), callq(ex, D + f, *nums, edges, **dict(zip(outs, S)))):
            ex.check('one strength per force', len(r) == len(outs))
            for i, o in enumerate(outs):
                ex.check('%s scales its own default' % o, eq_any(lift(r[i]), mul(lift(base[i]), S[i])))
        plain = callq(ex, D + f, *nums, edges)
        for i, o in enumerate(outs):
            ex.check('%s: the default' % o, eq_any(lift(plain[i]), lift(base[i])))


# ------------------------------------------------------------------ drawing
from contracts.hyper import mk_hyper

W = 'dhg.visualization.structure.draw:'


class Mpl(lib.HostObj):
    """A matplotlib object: any method call is accepted and has no effect on the arguments."""
    always_true = True

    def __init__(self, rec=None):
        self.birth = birth()
        self.rec = rec

    def getattr(self, ex, name):
        def f(ex, a, k):
            if self.rec and name in self.rec:
                return self.rec[name](ex, a, k)
            return None
        return HostFn(name, f)


@external('matplotlib.pyplot.subplots')
def ext_subplots(ex, a, k):
    return (Mpl(), Mpl())


for _n in ('matplotlib.pyplot.xlim', 'matplotlib.pyplot.ylim', 'matplotlib.pyplot.axis'):
    external(_n)(lambda ex, a, k: None)

VL = T + 'draw_vertex'


def capture(ex, got):
    def rec(name, params, defaults=()):
        def f(ex, a, k):
            got.setdefault(name, []).append(dict(zip(params, a), **k))
            return None
        return f
    q = T[:-1]
    sm = {q + ':draw_vertex': rec('vertex', ['ax', 'v_coor', 'v_label', 'font_size', 'font_family', 'v_size', 'v_color', 'v_line_width']),
          q + ':draw_line_edge': rec('edges', ['ax', 'v_coor', 'v_size', 'e_list', 'show_arrow', 'e_color', 'e_line_width']),
          q + ':draw_circle_edge': rec('edges', ['ax', 'v_coor', 'v_size', 'e_list', 'e_color', 'e_fill_color', 'e_line_width'])}

    def fl(ex, a, k):
        d = dict(zip(['num_v', 'e_list'], a), **k)
        got.setdefault('layout', []).append(d)
        return Tensor((lift(d['num_v']), const(2)), lambda i, j: app('coor', i, j, sort='R'), 'f')

    def bfl(ex, a, k):
        d = dict(zip(['num_u', 'num_v', 'e_list'], a), **k)
        got.setdefault('layout', []).append(d)
        return (Tensor((lift(d['num_u']), const(2)), lambda i, j: app('ucoor', i, j, sort='R'), 'f'), Tensor((lift(d['num_v']), const(2)), lambda i, j: app('vcoor', i, j, sort='R'), 'f'))
    sm.update({L + 'force_layout': fl, L + 'bipartite_force_layout': bfl})
    ex.suite.summaries = dict(ex.suite.summaries, **sm)


def lens(ex, label, r, n):
    ex.check(label, eq(nlen(lib.iter_nodes(ex, r)), lift(n)))


def same_list(ex, label, a, b):
    """The same elements, generated in the same way (a sufficient condition)."""
    la, lb = list(leaves(a)), list(leaves(b))
    if len(la) != len(lb) or any(len(x[0]) != len(y[0]) for x, y in zip(la, lb)):
        ex.undecided(label, 'generated in another way')
        return
    for (bs, cs, v), (bs2, cs2, v2) in zip(la, lb):
        m = {x: y for (x, _), (y, _) in zip(bs, bs2)}
        rng = [c for y, h in bs2 for c in (le(ZERO, y), lt(y, h))]
        for (x, h), (y, h2) in zip(bs, bs2):
            ex.check(label + ': how many', eq(subst(h, m), h2))
        c2 = and_(*cs2)
        ex.check(label + ': which', eq(subst(and_(*cs), m), c2), hyps=rng)
        v = vsubst(v, m)
        if not isinstance(v, tuple) or not isinstance(v2, tuple) or len(v) != len(v2):
            ex.undecided(label, 'other elements')
            continue
        for p, q in zip(v, v2):
            ex.check(label, eq_any(lift(p), lift(q)), hyps=rng + [c2])


def drawing(fn, mk, style):
    def run(ex):
        g = mk(ex)
        nv = g.attrs['_num_v'] if '_num_v' in g.attrs else lift(ex.getattr(g, 'num_v'))
        ne_ = lift(ex.getattr(g, 'num_e'))
        ex.assume(lt(ZERO, ne_))
        ex.assume(lt(ZERO, nv))
        lab = colours(ex, 'label', nv)
        got = {}
        capture(ex, got)
        kw = {}
        if style:
            kw['e_style'] = style
        kw.update(v_size=numbers(ex, 'vs', nv), v_color=colours(ex, 'vc', nv), v_line_width=numbers(ex, 'vw', nv), e_color=colours(ex, 'ec', ne_), e_line_width=numbers(ex, 'ew', ne_))
        fill = fn in ('draw_graph', 'draw_hypergraph')
        if fill:
            kw['e_fill_color'] = colours(ex, 'ef', ne_)
        for custom in (True, False):
            got.clear()
            callq(ex, W + fn, g, v_label=lab, **(kw if custom else ({'e_style': style} if style else {})))
            ex.check('vertices and edges are drawn once', len(got.get('vertex', [])) == 1 and len(got.get('edges', [])) == 1 and len(got.get('layout', [])) == 1)
            v, e = got['vertex'][0], got['edges'][0]
            for k in ('v_size', 'v_color', 'v_line_width'):
                lens(ex, '%s: one per vertex' % k, v[k], nv)
            for k in ['e_list', 'e_color', 'e_line_width'] + (['e_fill_color'] if style == 'circle' else []):
                lens(ex, '%s: one per edge' % k, e[k], ne_)
            lens(ex, 'sizes for the edges: one per vertex', e['v_size'], nv)
            ex.check('the labels are used', v['v_label'] is lab)
            teq(ex, 'every vertex at its computed position', v['v_coor'], (nv, const(2)), lambda i, j: app('coor', i, j, sort='R'))
            teq(ex, 'every edge at the positions of its vertices', e['v_coor'], (nv, const(2)), lambda i, j: app('coor', i, j, sort='R'))
            ex.check('the layout is that of all vertices', eq(lift(got['layout'][0]['num_v']), nv))
            if custom:
                kept(ex, 'vertex colours as given', v['v_color'], nv, 'vc')
                kept(ex, 'edge colours as given', e['e_color'], ne_, 'ec')
                if style == 'circle':
                    kept(ex, 'fill colours as given', e['e_fill_color'], ne_, 'ef')
        if fn != 'draw_hypergraph':
            E = ex.getattr(g, 'e')[0]
            same_list(ex, 'the edges of the structure, in order', lib.iter_nodes(ex, e['e_list']), lib.iter_nodes(ex, E))
        unchanged(ex)
    return run


contract('draw_graph, lines', ['P28'], [W + 'draw_graph'])(drawing('draw_graph', mk_graph, 'line'))
contract('draw_graph, circles', ['P28'], [W + 'draw_graph'])(drawing('draw_graph', mk_graph, 'circle'))
contract('draw_digraph', ['P28'], [W + 'draw_digraph'])(drawing('draw_digraph', mk_digraph, None))
contract('draw_hypergraph', ['P28'], [W + 'draw_hypergraph'])(drawing('draw_hypergraph', mk_hyper, 'circle'))


@contract('draw_bigraph', ['P28'], [W + 'draw_bigraph'])
def _(ex):
    g = mk_bigraph(ex)
    nu, nv, ne_ = lift(ex.getattr(g, 'num_u')), lift(ex.getattr(g, 'num_v')), lift(ex.getattr(g, 'num_e'))
    for x in (nu, nv, ne_):
        ex.assume(lt(ZERO, x))
    n = add(nu, nv)
    got = {}
    capture(ex, got)
    kw = {}
    for s, m in (('u', nu), ('v', nv), ('e', ne_)):
        kw[s + '_color'] = colours(ex, s + 'c', m)
        kw[s + '_line_width'] = numbers(ex, s + 'w', m)
        if s != 'e':
            kw[s + '_size'] = numbers(ex, s + 's', m)
    lab = {'u_label': colours(ex, 'ulab', nu), 'v_label': colours(ex, 'vlab', nv)}
    both = lambda a, b: lambda p: ite(lt(lift(p), nu), app(a, lift(p), sort='U'), app(b, add(lift(p), mul(const(-1), nu)), sort='U'))
    for custom in (True, False):
        got.clear()
        callq(ex, W + 'draw_bigraph', g, **(dict(kw, **lab) if custom else {}))
        ex.check('vertices and edges are drawn once', len(got.get('vertex', [])) == 1 and len(got.get('edges', [])) == 1 and len(got.get('layout', [])) == 1)
        v, e = got['vertex'][0], got['edges'][0]
        for k in ('v_size', 'v_color', 'v_line_width'):
            lens(ex, '%s: one per vertex of either side' % k, v[k], n)
        for k in ('e_list', 'e_color', 'e_line_width'):
            lens(ex, '%s: one per edge' % k, e[k], ne_)
        lens(ex, 'sizes for the edges: one per vertex', e['v_size'], n)
        ex.check('the layout is that of both sides', and_(eq(lift(got['layout'][0]['num_u']), nu), eq(lift(got['layout'][0]['num_v']), nv)))
        pos = lambda i, j: ite(lt(i, nu), app('ucoor', i, j, sort='R'), app('vcoor', add(i, mul(const(-1), nu)), j, sort='R'))
        teq(ex, 'every vertex at its computed position', v['v_coor'], (n, const(2)), pos)
        teq(ex, 'every edge at the positions of its vertices', e['v_coor'], (n, const(2)), pos)
        if custom:
            list_eq(ex, 'labels of both sides, in order', v['v_label'], n, both('ulab', 'vlab'))
            list_eq(ex, 'colours of both sides, in order', v['v_color'], n, both('uc', 'vc'))
            kept(ex, 'edge colours as given', e['e_color'], ne_, 'ec')
        else:
            ex.check('no labels', v['v_label'] is None)
        E = ex.getattr(g, 'e')[0]
        same_list(ex, 'the edges of the structure, in order, V-vertices numbered after the U-vertices', lib.iter_nodes(ex, e['e_list']), lib.nmap(lib.iter_nodes(ex, E), lambda p: (p[0], add(lift(p[1]), nu))))
    unchanged(ex)
