"""P21: graph and hypergraph convolution layers in evaluation mode.

The message-passing methods of the structures are used through their contracts (proved under P10, P11 and P26):
mean and sum aggregation and the smoothings are linear maps given by a matrix of the structure; for attention
aggregation the callee's contract is a function of the features and of the score per reported entry, so the call is
recorded and its arguments are compared with the rule."""
from contracts.hyper import *
from contracts.c10_v2v import MAKERS

GQ = 'dhg.structure.graphs.graph:Graph'
N = 'dhg.nn.convs.'


def opt(args, kw, i, name, default):
    return args[i] if len(args) > i else kw.get(name, default)


def zero_rate(ex, d):
    return d is None or isinstance(d, (int, float)) and d == 0 or isinstance(d, Term) and ex.entailed(eq(d, ZERO))


def linear_op(ex, sym, X, nout, nin):
    X = tlib.densify(ex, X)
    ex.check('features have one row per source of %s' % sym, eq(X.shape[0], lift(nin)))
    nout = X.shape[0] if nout is nin else nout
    nin = X.shape[0]
    return Tensor((nout, X.shape[1]), lambda i, c: ssum(nin, lambda k: mul(app(sym, lift(i), k, sort='R'), X.fn(k, c))))


def use(ex, sym, X, nin):
    """(i, c) -> sum_k sym(i, k) X(k, c): the specification side."""
    return lambda i, c: ssum(nin, lambda k: mul(app(sym, lift(i), k, sort='R'), X(k, c)))


def recorded(ex, name, X, w, nout):
    """A call of attention aggregation: the result is the callee's function of these arguments."""
    X = tlib.densify(ex, X)
    k = len(ex.__dict__.setdefault('calls', []))
    ex.calls.append((name, X, w, nout))
    return Tensor((nout, X.shape[1]), lambda i, c: app('%s_out%d' % (name, k), lift(i), lift(c), sort='R'))


def install(ex):
    S = ex.suite.summaries

    def plain(ex, kw, args, i, names):
        for j, n in enumerate(names):
            if not zero_rate(ex, opt(args, kw, i + j, n, None)):
                ex.fail('no option beyond the rule of the layer', '%s is given' % n)

    def gcn(ex, args, kw):
        n = content(ex, args[0]).n
        plain(ex, kw, args, 2, ['drop_rate'])
        return linear_op(ex, 'GCN_' + args[0].name, opt(args, kw, 1, 'X', None), n, n)

    def hgnn(ex, args, kw):
        n = content(ex, args[0]).n
        plain(ex, kw, args, 2, ['drop_rate'])
        return linear_op(ex, 'HGNN', opt(args, kw, 1, 'X', None), n, n)

    def pass_(name, nin, nout, wname, extra):
        def f(ex, args, kw):
            c = content(ex, args[0])
            X, aggr, w = opt(args, kw, 1, 'X', None), opt(args, kw, 2, 'aggr', 'mean'), opt(args, kw, 3, wname, None)
            for n, i in extra.items():
                if not zero_rate(ex, opt(args, kw, i, n, None)):
                    ex.fail('no option beyond the rule of the layer', '%s is given' % n)
            if aggr == 'softmax_then_sum':
                if w is None:
                    raise Unsupported('attention without scores')
                return recorded(ex, name, X, w, nout(c))
            if aggr not in ('mean', 'sum') or w is not None:
                raise Unsupported('aggregation %s' % aggr)
            return linear_op(ex, '%s_%s' % (name, aggr), X, nout(c), nin(c))
        return f
    n_, m_ = (lambda c: c.n), (lambda c: c.m)
    S[GQ + '.smoothing_with_GCN'] = gcn
    S[HQ + '.smoothing_with_HGNN'] = hgnn
    S[GQ + '.v2v'] = pass_('g_v2v', n_, n_, 'e_weight', {'drop_rate': 4})
    S[HQ + '.v2e'] = pass_('v2e', n_, m_, 'v2e_weight', {'e_weight': 4, 'drop_rate': 5})
    S[HQ + '.e2v'] = pass_('e2v', m_, n_, 'e2v_weight', {'drop_rate': 4})

    def v2v(ex, args, kw):
        names = ['X', 'aggr', 'drop_rate', 'v2e_aggr', 'v2e_weight', 'v2e_drop_rate', 'e_weight', 'e2v_aggr', 'e2v_weight', 'e2v_drop_rate']
        o = dict(zip(names, args[1:]))
        o.update(kw)
        a = o.get('aggr', 'mean')
        y = S[HQ + '.v2e'](ex, [args[0], o['X'], o.get('v2e_aggr') or a, o.get('v2e_weight'), o.get('e_weight'), o.get('v2e_drop_rate') or o.get('drop_rate', 0.0)], {})
        return S[HQ + '.e2v'](ex, [args[0], y, o.get('e2v_aggr') or a, o.get('e2v_weight'), o.get('e2v_drop_rate') or o.get('drop_rate', 0.0)], {})
    S[HQ + '.v2v'] = v2v


def affine(lay, X):
    W, b = lay.attrs['weight'], lay.attrs['bias']
    n = W.shape[1]
    return lambda r, c: add(*([ssum(n, lambda k: mul(X(r, k), W.fn(c, k)))] + ([b.fn(c)] if b is not None else [])))


def matvec(sym, X, n):
    return lambda i, c: ssum(n, lambda k: mul(app(sym, lift(i), k, sort='R'), X(k, c)))


def part(ex, o, name):
    v = o.attrs.get(name)
    if not isinstance(v, ObjV):
        ex.undecided('layer parts', 'no part %s' % name)
        raise PathEnd()
    return v


def lin_part(ex, o, name, i, u, bias):
    l = part(ex, o, name)
    W, b = l.attrs['weight'], l.attrs['bias']
    ex.check('%s maps the input width to the output width' % name, and_(eq(W.shape[1], lift(i)), eq(W.shape[0], lift(u))))
    (ex.ok if (b is not None) == bias else ex.fail)('%s has a bias exactly when asked' % name, 'structural')
    return l


def finish(ex, o, Y, act, is_last, use_bn):
    """Activation and optional batch normalisation unless it is the last layer."""
    if is_last:
        return Y
    Z = lambda i, c: act(Y(i, c))
    if not use_bn:
        return Z
    sy = part(ex, o, 'bn').attrs['sym']
    return lambda i, c: app(sy, Z(i, c), lift(c), sort='R')


relu = lambda x: tlib.fn1('relu', x)
elu = lambda x: app('elu', const(1, 'R'), x, sort='R')
leaky = lambda s, x: app('leaky', lift(s), x, sort='R')


def attention(ex, name, X, score, m, nout):
    """The attention call the rule prescribes was made, with these features and scores; its result."""
    calls = ex.__dict__.get('calls', [])
    if len(calls) != 1 or calls[0][0] != name:
        ex.fail('one attention aggregation', '%d calls' % len(calls))
        return None
    _, x, w, no = calls[0]
    teq(ex, 'attention aggregates the transformed features', x, x.shape if x.shape[1] is None else (X[0], X[1]), X[2])
    teq(ex, 'attention scores', w, (m,), score)
    return lambda i, c: app('%s_out0' % name, lift(i), lift(c), sort='R')


def clamp(x):
    lo, hi = const(Fraction(0.001)), const(5)
    return tlib.tmin(tlib.tmax(x, lo), hi)


def score_contract(ex, o, src, dst, m, neg):
    return lambda p: clamp(leaky(neg, add(src(p), dst(p)) if dst else src(p)))


def layer_contract(nm, qual, hyper, rule, act=relu, opts=True, square=False, extra=None, need=(), keys=()):
    for bias in ((True, False) if opts else (True,)):
        for bn in ((True, False) if opts else (False,)):
            for last in ((True, False) if opts else (False,)):
                dflt = bias and not bn and not last

                def run(ex, bias=bias, bn=bn, last=last, dflt=dflt):
                    install(ex)
                    g = mk_hyper(ex) if hyper else MAKERS[GQ](ex, 'g')
                    if hyper:
                        need_groups(ex, g)
                    c = content(ex, g)
                    ci = isym(ex, 'cin', 1)
                    co = ci if square else isym(ex, 'cout', 1)
                    kw = dict(extra or {})
                    if opts and not dflt:
                        kw.update(bias=bias, use_bn=bn, is_last=last)
                    X = tensor(ex, 'X', (c.n, ci))
                    snap = snapshot(g)
                    o = ex.instantiate(getcls(ex, qual), [ci, co], kw)
                    o.attrs['training'] = False
                    got = ex.call(o, [X, g], {})
                    Y = rule(ex, o, g, c, X.fn, ci, co, bias, kw)
                    if Y is None:
                        return
                    teq(ex, 'the propagation rule', got, (c.n, co), finish(ex, o, Y, act, last, bn))
                    same_content(ex, g, snap)
                    unchanged(ex)
                sub = 'default' if dflt else ', '.join(k for k, v in (('no bias', not bias), ('bn', bn), ('last', last)) if v) or 'plain'
                contract('%s.forward[%s]' % (nm, sub), ['P21'], [qual + '.forward', qual + '.__init__'])(run)


def r_gcn(ex, o, g, c, X, ci, co, bias, kw):
    t = lin_part(ex, o, 'theta', ci, co, bias)
    return matvec('GCN_g', affine(t, X), c.n)


def r_sage(ex, o, g, c, X, ci, co, bias, kw):
    t = lin_part(ex, o, 'theta', mul(const(2), ci), co, bias)
    nb = matvec('g_v2v_mean', X, c.n)
    Z = lambda r, k: ite(lt(k, ci), X(r, k), nb(r, add(k, mul(const(-1), ci))))
    return affine(t, Z)


def r_hgnn(ex, o, g, c, X, ci, co, bias, kw):
    return matvec('HGNN', affine(lin_part(ex, o, 'theta', ci, co, bias), X), c.n)


def r_jh(ex, o, g, c, X, ci, co, bias, kw):
    s = r_hgnn(ex, o, g, c, X, ci, co, bias, kw)
    return lambda i, q: add(s(i, q), X(i, q))


def r_hgnnp(ex, o, g, c, X, ci, co, bias, kw):
    return matvec('e2v_mean', matvec('v2e_mean', affine(lin_part(ex, o, 'theta', ci, co, bias), X), c.n), c.m)


def r_hnhn(ex, o, g, c, X, ci, co, bias, kw):
    a = matvec('v2e_mean', affine(lin_part(ex, o, 'theta_v2e', ci, co, bias), X), c.n)
    b = affine(lin_part(ex, o, 'theta_e2v', co, co, bias), lambda i, q: relu(a(i, q)))
    return matvec('e2v_mean', b, c.m)


def r_unisage(ex, o, g, c, X, ci, co, bias, kw):
    t = affine(lin_part(ex, o, 'theta', ci, co, bias), X)
    s = matvec('e2v_sum', matvec('v2e_mean', t, c.n), c.m)
    return lambda i, q: add(s(i, q), t(i, q))


def eps_of(ex, o, kw):
    e = kw.get('eps', 0.0)
    if not kw.get('train_eps'):
        return lift(e)
    p = o.attrs.get('eps')
    if not isinstance(p, Tensor):
        ex.fail('eps is trainable when asked', type(p).__name__)
        return lift(e)
    return p.fn(*[ZERO for _ in p.shape])


def r_unigin(ex, o, g, c, X, ci, co, bias, kw):
    t = affine(lin_part(ex, o, 'theta', ci, co, bias), X)
    s = matvec('e2v_sum', matvec('v2e_mean', t, c.n), c.m)
    e = eps_of(ex, o, kw)
    return lambda i, q: add(mul(add(const(1, 'R'), e), t(i, q)), s(i, q))


def r_gat(ex, o, g, c, X, ci, co, bias, kw):
    t = affine(lin_part(ex, o, 'theta', ci, co, bias), X)
    ws = [lin_part(ex, o, n, co, 1, False).attrs['weight'] for n in ('atten_src', 'atten_dst')]
    src, dst = tlib.densify(ex, ex.getattr(g, 'e_src')), tlib.densify(ex, ex.getattr(g, 'e_dst'))
    sc = lambda W, ix: (lambda p: ssum(co, lambda k: mul(t(ix.fn(p), k), W.fn(ZERO, k))))
    neg = kw.get('atten_neg_slope', 0.2)
    return attention(ex, 'g_v2v', (c.n, co, t), lambda p: clamp(leaky(neg, add(sc(ws[0], src)(p), sc(ws[1], dst)(p)))), src.shape[0], c.n)


def r_unigat(ex, o, g, c, X, ci, co, bias, kw):
    t = matvec('v2e_mean', affine(lin_part(ex, o, 'theta', ci, co, bias), X), c.n)
    W = lin_part(ex, o, 'atten_e', co, 1, False).attrs['weight']
    src = tlib.densify(ex, ex.getattr(g, 'e2v_src'))
    neg = kw.get('atten_neg_slope', 0.2)
    return attention(ex, 'e2v', (c.m, co, t), lambda p: clamp(leaky(neg, ssum(co, lambda k: mul(t(src.fn(p), k), W.fn(ZERO, k))))), src.shape[0], c.n)


G_, H_ = N + 'graphs.', N + 'hypergraphs.'
layer_contract('GCNConv', G_ + 'gcn_conv:GCNConv', False, r_gcn)
layer_contract('GraphSAGEConv', G_ + 'graphsage_conv:GraphSAGEConv', False, r_sage)
layer_contract('GATConv', G_ + 'gat_conv:GATConv', False, r_gat, act=elu)
layer_contract('HGNNConv', H_ + 'hgnn_conv:HGNNConv', True, r_hgnn)
layer_contract('JHConv', H_ + 'dhcf_conv:JHConv', True, r_jh, square=True)
layer_contract('HGNNPConv', H_ + 'hgnnp_conv:HGNNPConv', True, r_hgnnp)
layer_contract('HNHNConv', H_ + 'hnhn_conv:HNHNConv', True, r_hnhn)
layer_contract('UniSAGEConv', H_ + 'unignn_conv:UniSAGEConv', True, r_unisage)
layer_contract('UniGINConv', H_ + 'unignn_conv:UniGINConv', True, r_unigin)
layer_contract('UniGATConv', H_ + 'unignn_conv:UniGATConv', True, r_unigat, act=elu)
layer_contract('UniGINConv eps', H_ + 'unignn_conv:UniGINConv', True, r_unigin, opts=False, extra={'eps': app('eps', sort='R')})
layer_contract('UniGINConv trained eps', H_ + 'unignn_conv:UniGINConv', True, r_unigin, opts=False, extra={'eps': app('eps', sort='R'), 'train_eps': True})
layer_contract('GATConv slope', G_ + 'gat_conv:GATConv', False, r_gat, act=elu, opts=False, extra={'atten_neg_slope': app('slope', sort='R')})
layer_contract('UniGATConv slope', H_ + 'unignn_conv:UniGATConv', True, r_unigat, act=elu, opts=False, extra={'atten_neg_slope': app('slope', sort='R')})


def r_unigcn(ex, o, g, c, X, ci, co, bias, kw):
    """Mean over the hyperedge, scaled by the -1/2 power of the mean (non-zero) degree of its vertices, summed to the vertices, scaled by D_v^-1/2."""
    t = matvec('v2e_mean', affine(lin_part(ex, o, 'theta', ci, co, bias), X), c.n)
    src, dst = tlib.densify(ex, ex.getattr(g, 'v2e_src')), tlib.densify(ex, ex.getattr(g, 'v2e_dst'))    # the incidences (P11)
    z = src.shape[0]
    num = lambda p: ssum(z, lambda k: iverson(eq(dst.fn(k), p), c.aDv(src.fn(k))))
    cnt = lambda p: ssum(z, lambda k: iverson(and_(eq(dst.fn(k), p), not_(eq(c.aDv(src.fn(k)), RZERO))), const(1, 'R')))
    d = lambda p: tlib.fdiv(num(p), cnt(p))
    sc = lambda p: ite(tlib.isinf_t(tlib.tpow(d(p), Fraction(-1, 2))), const(1, 'R'), tlib.tpow(d(p), Fraction(-1, 2)))
    y = matvec('e2v_sum', lambda p, q: mul(sc(p), t(p, q)), c.m)
    return lambda i, q: mul(rs0(c.aDv(i)), y(i, q))


layer_contract('UniGCNConv', H_ + 'unignn_conv:UniGCNConv', True, r_unigcn)


def hypergcn(mediator, cached):
    def r(ex, o, g, c, X, ci, co, bias, kw):
        return matvec('GCN_x', affine(lin_part(ex, o, 'theta', ci, co, bias), X), c.n)
    return r


for _med in (False, True):
    for _cached in (False, True):
        for _bn in (False, True):
            for _last in (False, True):
                def _run(ex, med=_med, cached=_cached, bn=_bn, last=_last):
                    install(ex)
                    hg = mk_hyper(ex)
                    need_groups(ex, hg)
                    c = content(ex, hg)
                    x = MAKERS[GQ](ex, 'x')
                    ex.assume(eq(content(ex, x).n, c.n))
                    calls = []

                    def conv(ex, args, kw):
                        a = list(args)
                        calls.append((a, kw))
                        return x
                    ex.suite.summaries[GQ + '.from_hypergraph_hypergcn'] = conv
                    ci, co = isym(ex, 'cin', 1), isym(ex, 'cout', 1)
                    kw = dict(use_mediator=True) if med else {}
                    if bn or last:
                        kw.update(use_bn=bn, is_last=last)
                    X = tensor(ex, 'X', (c.n, ci))
                    qual = H_ + 'hypergcn_conv:HyperGCNConv'
                    o = ex.instantiate(getcls(ex, qual), [ci, co], kw)
                    o.attrs['training'] = False
                    got = ex.call(o, [X, hg, x] if cached else [X, hg], {})
                    t = affine(lin_part(ex, o, 'theta', ci, co, True), X.fn)
                    if cached:
                        (ex.ok if not calls else ex.fail)('a given expansion graph is used as it is', 'structural')
                    else:
                        if len(calls) != 1:
                            ex.fail('the hypergraph is expanded once', '%d' % len(calls))
                            return
                        a, k = calls[0]
                        a = [v for v in a if isinstance(v, (ObjV, Tensor, bool, int))]
                        h = k.get('hypergraph', a[0] if a else None)
                        f = k.get('feature', a[1] if len(a) > 1 else None)
                        m = k.get('with_mediator', a[2] if len(a) > 2 else False)
                        (ex.ok if h is hg else ex.fail)('the given hypergraph is expanded', 'structural')
                        (ex.ok if m is med else ex.fail)('with mediators exactly when asked', 'structural')
                        teq(ex, 'expansion by the transformed features', f, (c.n, co), t)
                    teq(ex, 'the propagation rule', got, (c.n, co), finish(ex, o, matvec('GCN_x', t, c.n), relu, last, bn))
                    unchanged(ex)
                contract('HyperGCNConv.forward[%s%s%s%s]' % ('mediator' if _med else 'plain', ', cached' if _cached else '', ', bn' if _bn else '', ', last' if _last else ''), ['P21'], [H_ + 'hypergcn_conv:HyperGCNConv.forward', H_ + 'hypergcn_conv:HyperGCNConv.__init__'])(_run)


def gin(mode):
    def run(ex):
        install(ex)
        g = MAKERS[GQ](ex, 'g')
        c = content(ex, g)
        ci = isym(ex, 'cin', 1)
        X = tensor(ex, 'X', (c.n, ci))
        eps = app('eps', sort='R')

        def mlp(ex, a, k):
            x = tlib.densify(ex, a[0])
            ex.__dict__.setdefault('mlp_in', []).append(x)
            return Tensor((c.n, app('cout', sort='I')), lambda i, q: app('mlp_out', lift(i), lift(q), sort='R'))
        kw = {} if mode == 'default' else {'eps': eps}
        if mode == 'train':
            kw['train_eps'] = True
        o = ex.instantiate(getcls(ex, G_ + 'gin_conv:GINConv'), [HostFn('MLP', mlp)], kw)
        o.attrs['training'] = False
        got = ex.call(o, [X, g], {})
        ins = ex.__dict__.get('mlp_in', [])
        if len(ins) != 1:
            ex.fail('the given network is applied once', '%d' % len(ins))
            return
        if mode == 'train' and not isinstance(o.attrs.get('eps'), Tensor):
            ex.fail('eps is trainable when asked', type(o.attrs.get('eps')).__name__)
        e = RZERO if mode == 'default' else eps_of(ex, o, kw)
        if mode == 'train':
            ex.check('a trained eps starts at the given value', eq(e, eps))
        S = matvec('g_v2v_sum', X.fn, c.n)
        teq(ex, 'the vertex weighted by 1 + eps plus the sum over its neighbours', ins[0], (c.n, ci), lambda i, q: add(mul(add(const(1, 'R'), e), X.fn(i, q)), S(i, q)))
        teq(ex, 'the network is applied last', got, (c.n, app('cout', sort='I')), lambda i, q: app('mlp_out', lift(i), lift(q), sort='R'))
        unchanged(ex)
    contract('GINConv.forward[%s]' % mode, ['P21'], [G_ + 'gin_conv:GINConv.forward', G_ + 'gin_conv:GINConv.__init__'])(run)


for _m in ('default', 'given', 'train'):
    gin(_m)

MH = N + 'common:MultiHeadWrapper'


def heads(readout):
    def run(ex):
        install(ex)
        K, d, co = isym(ex, 'K', 1), isym(ex, 'd', 1), isym(ex, 'co', 1)
        g = MAKERS[GQ](ex, 'g')
        n = content(ex, g).n
        o = ex.instantiate(getcls(ex, MH), [K, readout, getcls(ex, G_ + 'gcn_conv:GCNConv')], {'in_channels': d, 'out_channels': co, 'is_last': True})
        o.attrs['training'] = False
        X = tensor(ex, 'X', (n, d))
        kind, got = raises(ex, lambda: ex.call(o, [], {'X': X, 'g': g}))
        if readout == 'other':
            (ex.ok if kind == 'ValueError' else ex.fail)('an unknown readout is rejected', 'structural' if kind == 'ValueError' else 'raised %s' % kind)
            return
        if kind:
            ex.fail('no exception', ex.last_raise)
            return
        s = simple(o.attrs['layers'].attrs['items'].nodes)
        if s is None:
            ex.undecided('heads', 'not a simple list of heads')
            return
        ex.check('as many heads as asked', eq(s[1], K))
        th = s[2].attrs['theta']
        ex.check('heads are built with the given arguments', and_(eq(th.attrs['weight'].shape[0], co), eq(th.attrs['weight'].shape[1], d)))

        def Y(h, i, c):
            t = vsubst(th, {s[0]: lift(h)})
            return matvec('GCN_g', affine(t, X.fn), n)(lift(i), lift(c))
        if readout == 'concat':
            teq(ex, 'concatenated heads', got, (n, mul(K, co)), lambda i, c: Y(idiv(c, co), i, imod(c, co)))
        elif readout == 'max':
            def mx(i, c):
                h = fresh('h')
                return tlib.extremum(ex, 'max', ((h, K),), Y(h, i, c))
            teq(ex, 'maximum over heads', got, (n, co), mx)
        else:
            k = tlib.recip(K) if readout == 'mean' else const(1, 'R')
            teq(ex, readout + ' over heads', got, (n, co), lambda i, c: mul(k, ssum(K, lambda h: Y(h, i, c))))
        unchanged(ex)
    contract('MultiHeadWrapper[%s]' % readout, ['P21'], [MH + '.forward', MH + '.__init__'])(run)


for _r in ('concat', 'mean', 'max', 'sum', 'other'):
    heads(_r)
