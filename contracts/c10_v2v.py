"""P10, P26: message passing on graphs; P07/P08: smoothing."""
from contracts.structs import *
from contracts import c26_dropout

exp = lambda t: tlib.fn1('exp', t)


def base_matrix(ex, g, prop, dense, pat, dims, custom, rowfirst=('e_dst', 'e_src'), wname='w'):
    """The propagation matrix and its stored pattern: stored weights, or caller weights aligned with the reported order."""
    if not custom:
        return None, dense, pat
    dst = ex.getattr(g, rowfirst[0])
    src = ex.getattr(g, rowfirst[1])
    m = tlib.rshape(dst)[0]
    w = tensor(ex, wname, (m,))
    at = lambda t, p: t.fn(p)
    f = lambda i, j: ssum(m, lambda p: iverson(and_(eq(at(dst, p), lift(i)), eq(at(src, p), lift(j))), w.fn(p)))
    return w, f, pat


def thinned(ex, label, rate, dense, pat, dims):
    """What sparse dropout made of the matrix (dense, pat)."""
    d = ex.__dict__.get('dropouts', [])
    if rate is None:
        if d:
            ex.fail(label + ': rate zero uses the exact matrix', 'sparse dropout was applied')
        return dense
    if len(d) != 1:
        ex.fail(label + ': a positive drop rate thins the matrix once', '%d applications of sparse dropout' % len(d))
        return dense
    s, p, fill, keep = d[0]
    ix, rng = indices_for(dims)
    ex.check(label + ': the requested rate is used', and_(eq(p, rate), eq(fill, RZERO)))
    ex.check(label + ': the thinned matrix is the propagation matrix', eq(s.dense(*ix), dense(*ix)), hyps=rng)
    g, w = s.pat(*ix), pat(*ix)
    ex.check(label + ': the thinned matrix has its stored positions', and_(or_(not_(g), w), or_(not_(w), g)), hyps=rng)
    return lambda i, j: iverson(and_(pat(i, j), keep(i, j)), dense(i, j))


def aggregated(aggr, P, pat, X, nin, default_norm=None):
    """(i, c) -> aggregated message, as the property states it."""
    if aggr == 'sum':
        return lambda i, c: ssum(nin, lambda j: mul(P(i, j), X.fn(j, c)))
    if aggr == 'mean':
        den = default_norm or (lambda i: ssum(nin, lambda j: P(i, j)))
        return lambda i, c: mul(inv0(den(i)), ssum(nin, lambda j: mul(P(i, j), X.fn(j, c))))
    return lambda i, c: mul(inv0(ssum(nin, lambda j: iverson(pat(i, j), exp(P(i, j))))), ssum(nin, lambda j: iverson(pat(i, j), mul(exp(P(i, j)), X.fn(j, c)))))


def v2v_contract(nm, props, q, method, dense, pat, nin, nout, order, norm_, extra=(), kwx=None, **opt):
    for aggr in ('mean', 'sum', 'softmax_then_sum'):
        for custom in (False, True):
            for drop in (False, True):
                def run(ex, aggr=aggr, custom=custom, drop=drop):
                    g = MAKERS[q](ex, 'g')
                    c = content(ex, g)
                    nonneg(ex, c)
                    X = tensor(ex, 'X', (nin(c), isym(ex, 'C', 1)))
                    rate = rsym(ex, 'rate') if drop else None
                    if drop:
                        ex.assume(lt(RZERO, rate))
                        ex.assume(le(rate, const(1, 'R')))
                    snap = snapshot(g)
                    D, Pt = (lambda i, j: dense(c, i, j)), (lambda i, j: pat(c, i, j))
                    w, D, Pt = base_matrix(ex, g, None, D, Pt, None, custom, order)
                    kw = dict(kwx or {})                # the defaults are mean aggregation without dropout
                    if aggr != 'mean' or custom:
                        kw['aggr'] = aggr
                    if drop or custom:
                        kw['drop_rate'] = rate if drop else 0.0
                    if custom:
                        kw['e_weight'] = w
                    got = ex.call(ex.getattr(g, method), [X], kw)
                    T = thinned(ex, 'dropout', rate, D, Pt, (nout(c), nin(c)))
                    den = (lambda i: norm_(c, i)) if (aggr == 'mean' and not custom) else None
                    teq(ex, '%s aggregation over exactly the in-neighbours' % aggr, got, (nout(c), X.shape[1]), aggregated(aggr, T, Pt, X, nin(c), den))
                    same_content(ex, g, snap)
                    unchanged(ex)
                contract('%s[%s%s%s]' % (nm, aggr, ', e_weight' if custom else '', ', drop' if drop else ''), props + (['P26'] if drop else []), ['%s.%s' % (q, method)] + list(extra), **opt)(run)


v2v_contract('Graph.v2v', ['P10'], GQ, 'v2v', lambda c, i, j: c.A(i, j), lambda c, i, j: c.Apat(i, j), lambda c: c.n, lambda c: c.n, ('e_dst', 'e_src'), lambda c, i: c.D(i), [GQ + '.e_src', GQ + '.e_dst', GQ + '.e_weight'])

E3 = lambda q, *ks: ['%s.%s' % (q, k) for k in ks]
for _d, _ord, _f, _p, _n in (
        ('dst2src', ('e_src', 'e_dst'), lambda c, i, j: c.A(i, j), lambda c, i, j: c.Apat(i, j), lambda c, i: c.D_out(i)),
        ('src2dst', ('e_dst', 'e_src'), lambda c, i, j: c.A(j, i), lambda c, i, j: c.Apat(j, i), lambda c, i: c.D_in(i))):
    v2v_contract('DiGraph.v2v %s' % _d, ['P10'], DQ, 'v2v', _f, _p, lambda c: c.n, lambda c: c.n, _ord, _n, E3(DQ, 'e_src', 'e_dst', 'e_weight'), {'direction': _d})
v2v_contract('BiGraph.u2v', ['P10'], BQ, 'u2v', lambda c, i, j: c.B(j, i), lambda c, i, j: c.Bpat(j, i), lambda c: c.nu, lambda c: c.nv, ('e_v', 'e_u'), lambda c, i: c.D_v(i), E3(BQ, 'e_u', 'e_v', 'e_weight'))
v2v_contract('BiGraph.v2u', ['P10'], BQ, 'v2u', lambda c, i, j: c.B(i, j), lambda c, i, j: c.Bpat(i, j), lambda c: c.nv, lambda c: c.nu, ('e_u', 'e_v'), lambda c, i: c.D_u(i), E3(BQ, 'e_u', 'e_v', 'e_weight'))


# the reported edge order lists every stored position of the matrix exactly once, with its weight
def order_contract(nm, q, src, dst, A, pat, dims):
    def run(ex):
        g = MAKERS[q](ex, 'g')
        c = content(ex, g)
        s, d, w = (ex.getattr(g, k) for k in (src, dst, 'e_weight'))
        m = tlib.rshape(s)[0]
        ex.check('aligned', and_(eq(tlib.rshape(d)[0], m), eq(tlib.rshape(w)[0], m)))
        ix, rng = indices_for(dims(c))
        cnt = ssum(m, lambda p: iverson(and_(eq(s.fn(p), ix[0]), eq(d.fn(p), ix[1])), ONE))
        ex.check('every adjacent pair once', eq(cnt, iverson(pat(c, *ix), ONE)), hyps=rng)
        wt = ssum(m, lambda p: iverson(and_(eq(s.fn(p), ix[0]), eq(d.fn(p), ix[1])), w.fn(p)))
        ex.check('weights aligned with the edges', eq(wt, iverson(pat(c, *ix), A(c, *ix))), hyps=rng)
        q_ = fresh('p')
        r2 = [le(ZERO, q_), lt(q_, m)]
        ex.check('indices in range', and_(le(ZERO, s.fn(q_)), lt(s.fn(q_), dims(c)[0]), le(ZERO, d.fn(q_)), lt(d.fn(q_), dims(c)[1])), hyps=r2)
        for k in (s, d, w):
            if k.frozen:
                ex.fail('fresh', 'returns a view of the cached matrix')
        unchanged(ex)
    contract('%s.%s/%s/e_weight' % (nm, src, dst), ['P10', 'P04'], E3(q, src, dst, 'e_weight'))(run)


order_contract('Graph', GQ, 'e_src', 'e_dst', lambda c, i, j: c.A(i, j), lambda c, i, j: c.Apat(i, j), lambda c: (c.n, c.n))
order_contract('DiGraph', DQ, 'e_src', 'e_dst', lambda c, i, j: c.A(i, j), lambda c, i, j: c.Apat(i, j), lambda c: (c.n, c.n))
order_contract('BiGraph', BQ, 'e_u', 'e_v', lambda c, i, j: c.B(i, j), lambda c, i, j: c.Bpat(i, j), lambda c: (c.nu, c.nv))


def bad_args(nm, q, method, nin):
    def run(ex):
        g = MAKERS[q](ex, 'g')
        c = content(ex, g)
        X = tensor(ex, 'X', (nin(c), isym(ex, 'C', 1)))
        k, _ = raises(ex, lambda: ex.call(ex.getattr(g, method), [X], {'aggr': 'median'}))
        (ex.ok if k else ex.fail)('unknown aggregation rejected', 'structural' if k else 'accepted')
        m = tlib.rshape(ex.getattr(g, 'e_weight'))[0]
        l = isym(ex, 'l', 0)
        ex.assume(ne(l, m))
        w = tensor(ex, 'w', (l,))
        k, _ = raises(ex, lambda: ex.call(ex.getattr(g, method), [X], {'aggr': 'sum', 'e_weight': w}))
        (ex.ok if k else ex.fail)('edge weights of the wrong length rejected', 'structural' if k else 'accepted')
    contract('%s.%s arguments' % (nm, method), ['P10'], ['%s.%s' % (q, method)])(run)


for _q, _m, _n in ((GQ, 'v2v', lambda c: c.n), (DQ, 'v2v', lambda c: c.n), (BQ, 'u2v', lambda c: c.nu), (BQ, 'v2u', lambda c: c.nv)):
    bad_args(_q.split(':')[1], _q, _m, _n)


# ---------------------------------------------------------------- smoothing
def smoothing_gcn(nm, q, props):
    for drop in (False, True):
        def run(ex, drop=drop):
            g = MAKERS[q](ex, 'g')
            c = content(ex, g)
            nonneg(ex, c)
            X = tensor(ex, 'X', (c.n, isym(ex, 'C', 1)))
            rate = rsym(ex, 'rate') if drop else None
            if drop:
                ex.assume(lt(RZERO, rate))
                ex.assume(le(rate, const(1, 'R')))
            snap = snapshot(g)
            L = specs(ex, g)['L_GCN'].dense
            got = ex.call(ex.getattr(g, 'smoothing_with_GCN'), [X], {'drop_rate': rate} if drop else {})
            if drop:
                s = (ex.__dict__.get('dropouts') or [[None]])[0][0]
                T = thinned(ex, 'dropout', rate, L, s.pat if s is not None else None, (c.n, c.n))
            else:
                T = thinned(ex, 'dropout', None, L, None, (c.n, c.n))
            teq(ex, 'smoothing is the GCN matrix times the features', got, (c.n, X.shape[1]), lambda i, k: ssum(c.n, lambda j: mul(T(i, j), X.fn(j, k))))
            same_content(ex, g, snap)
            unchanged(ex)
        contract('%s.smoothing_with_GCN%s' % (nm, ' drop' if drop else ''), props + (['P26'] if drop else []), [q + '.smoothing_with_GCN'])(run)


smoothing_gcn('Graph', GQ, ['P07'])
smoothing_gcn('BiGraph', BQ, ['P08'])


def smoothing(nm, q, props):
    def run(ex):
        g = MAKERS[q](ex, 'g')
        c = content(ex, g)
        X = tensor(ex, 'X', (c.n, isym(ex, 'C', 1)))
        M = tlib.mk_sparse((c.n, c.n), lambda i, j: app('M_v', lift(i), lift(j), sort='R'), lambda i, j: app('M_p', lift(i), lift(j), sort='B'))
        M = tlib.mk_sparse((c.n, c.n), lambda i, j: iverson(M._pat(i, j), app('M_v', lift(i), lift(j), sort='R')), M._pat)
        M.frozen = 'the matrix'
        lam = rsym(ex, 'lamb')
        got = ex.call(ex.getattr(g, 'smoothing'), [X, M, lam])
        teq(ex, 'smoothing is X + lambda L X', got, (c.n, X.shape[1]), lambda i, k: add(X.fn(i, k), mul(lam, ssum(c.n, lambda j: mul(M.dense(i, j), X.fn(j, k))))))
        unchanged(ex)
    contract('%s.smoothing' % nm, props, [q + '.smoothing', BG + '.smoothing'])(run)


smoothing('Graph', GQ, ['P07'])
smoothing('DiGraph', DQ, ['P08'])
smoothing('BiGraph', BQ, ['P08'])
