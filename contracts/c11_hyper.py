"""P11, P26: message passing on hypergraphs, per group and overall; P09: smoothing with the HGNN Laplacian."""
from types import SimpleNamespace

from contracts.hyper import *
from contracts import c26_dropout
from contracts.c10_v2v import aggregated, E3


def hname(k, grp):
    return k + '_of_group' if grp else k


def call(ex, o, k, g, args, kw=None):
    return ex.call(ex.getattr(o, hname(k, g is not None)), ([g] if g is not None else []) + list(args), kw or {})


def read(ex, o, k, g):
    return ex.call(ex.getattr(o, k + '_of_group'), [g], {}) if g is not None else ex.getattr(o, k)


class Side:
    """The two directions: vertices to hyperedges and hyperedges to vertices, for one group or all of them."""

    def __init__(self, ex, o, g, way):
        c = content(ex, o)
        H, Hp, De, Dv, w, ne_ = (lambda i, p: c.H(g, i, p), lambda i, p: c.Hpat(g, i, p), lambda p: c.De(g, p), lambda i: c.Dv(g, i), lambda p: c.wp(g, p), c.ne(g)) if g is not None else (c.aH, c.aHpat, c.aDe, c.aDv, c.aw, c.m)
        self.w = w
        if way == 'v2e':
            self.nin, self.nout = c.n, ne_
            self.M, self.pat, self.den = (lambda p, i: H(i, p)), (lambda p, i: Hp(i, p)), (lambda p: R_(De(p)))
        else:
            self.nin, self.nout = ne_, c.n
            self.M, self.pat, self.den = H, Hp, Dv


def rate_sym(ex, name):
    r = rsym(ex, name)
    ex.assume(lt(RZERO, r))
    ex.assume(le(r, const(1, 'R')))
    return r


def matrix(ex, o, g, way, s, custom):
    """Caller weights for the incidences, in the order the library reports them, and the matrix they describe."""
    if not custom:
        return None, s.M
    dst, src = read(ex, o, way + '_dst', g), read(ex, o, way + '_src', g)
    m = tlib.rshape(dst)[0]
    w = tensor(ex, way + 'w', (m,))
    return w, (lambda i, j: ssum(m, lambda p: iverson(and_(eq(dst.fn(p), lift(i)), eq(src.fn(p), lift(j))), w.fn(p))))


def thin(ex, label, k, rate, dense, pat, dims):
    """What the k-th sparse dropout made of the matrix."""
    d = ex.__dict__.get('dropouts', [])
    if rate is None:
        return dense
    if k >= len(d):
        ex.fail(label + ': a positive drop rate thins the matrix', '%d applications of sparse dropout' % len(d))
        return dense
    s, p, fill, keep = d[k]
    ix, rng = indices_for(dims)
    ex.check(label + ': the requested rate is used', and_(eq(p, rate), eq(fill, RZERO)))
    ex.check(label + ': the thinned matrix is the incidence matrix', eq(s.dense(*ix), dense(*ix)), hyps=rng)
    a, b = s.pat(*ix), pat(*ix)
    ex.check(label + ': the thinned matrix has its stored positions', and_(or_(not_(a), b), or_(not_(b), a)), hyps=rng)
    return lambda i, j: iverson(and_(pat(i, j), keep(i, j)), dense(i, j))


def drops(ex, n):
    k = len(ex.__dict__.get('dropouts', []))
    (ex.ok if k == n else ex.fail)('sparse dropout is applied exactly where asked', 'structural' if k == n else '%d applications, %d asked for' % (k, n))


def stage(ex, s, way, k, rate, aggr, custom, D, X):
    T = thin(ex, way + ' dropout', k, rate, D, s.pat, (s.nout, s.nin))
    return aggregated(aggr, T, s.pat, X, s.nin, s.den if aggr == 'mean' and not custom else None)


def title(nm, grp, aggr, custom, drop, extra=''):
    return 'Hypergraph.%s[%s%s%s%s]' % (hname(nm, grp), aggr, ', weights' if custom else '', ', drop' if drop else '', extra)


def begin(ex, grp):
    o = mk_hyper(ex)
    need_groups(ex, o)
    hg_nonneg(ex)
    g = the_group(ex, o) if grp else None
    return o, g


def reps(way, *ks):
    r = []
    for k in ks:
        r += ['%s.%s' % (HQ, k), '%s.%s_of_group' % (HQ, k)]
    return r


def stage_contracts(way):
    for meth in ('aggregation', ''):
        nm = way + '_' + meth if meth else way
        for grp in (False, True):
            for aggr in ('mean', 'sum', 'softmax_then_sum'):
                for custom in (False, True):
                    for drop in (False, True):
                        def run(ex, nm=nm, meth=meth, grp=grp, aggr=aggr, custom=custom, drop=drop):
                            o, g = begin(ex, grp)
                            snap = snapshot(o)
                            s = Side(ex, o, g, way)
                            X = tensor(ex, 'X', (s.nin, isym(ex, 'C', 1)))
                            rate = rate_sym(ex, 'rate') if drop else None
                            w, D = matrix(ex, o, g, way, s, custom)
                            kw = {}                # the defaults are mean aggregation without dropout
                            if aggr != 'mean':
                                kw['aggr'] = aggr
                            if drop:
                                kw['drop_rate'] = rate
                            if custom:
                                kw[way + '_weight'] = w
                            ew = None
                            if way == 'v2e' and not meth and custom:
                                ew = tensor(ex, 'ew', (s.nout,))
                                kw['e_weight'] = ew
                            got = call(ex, o, nm, g, [X], kw)
                            drops(ex, int(drop))
                            A = stage(ex, s, way, 0, rate, aggr, custom, D, X)
                            want = A
                            if way == 'v2e' and not meth:
                                want = lambda p, c: mul(ew.fn(p) if ew is not None else s.w(p), A(p, c))
                            teq(ex, '%s aggregation over exactly the incidences' % aggr, got, (s.nout, X.shape[1]), want)
                            same_content(ex, o, snap)
                            cache_valid(ex, o)
                            unchanged(ex)
                        contract(title(nm, grp, aggr, custom, drop), ['P11'] + (['P26'] if drop else []), ['%s.%s' % (HQ, hname(nm, grp))])(run)


stage_contracts('v2e')
stage_contracts('e2v')


# ---------------------------------------------------------------- update steps
for _grp in (False, True):
    for _custom in (False, True):
        def _run(ex, grp=_grp, custom=_custom):
            o, g = begin(ex, grp)
            s = Side(ex, o, g, 'v2e')
            Y = tensor(ex, 'Y', (s.nout, isym(ex, 'C', 1)))
            ew = tensor(ex, 'ew', (s.nout,)) if custom else None
            got = call(ex, o, 'v2e_update', g, [Y], {'e_weight': ew} if custom else {})
            teq(ex, 'every hyperedge message is scaled by its weight', got, Y.shape, lambda p, c: mul(ew.fn(p) if custom else s.w(p), Y.fn(p, c)))
            unchanged(ex)
        contract('Hypergraph.%s%s' % (hname('v2e_update', _grp), ' e_weight' if _custom else ''), ['P11'], ['%s.%s' % (HQ, hname('v2e_update', _grp))])(_run)

    def _run(ex, grp=_grp):
        o, g = begin(ex, grp)
        s = Side(ex, o, g, 'e2v')
        Y = tensor(ex, 'Y', (s.nout, isym(ex, 'C', 1)))
        got = call(ex, o, 'e2v_update', g, [Y])
        teq(ex, 'vertex messages are passed on', got, Y.shape, lambda i, c: Y.fn(i, c))
        unchanged(ex)
    contract('Hypergraph.%s' % hname('e2v_update', _grp), ['P11'], ['%s.%s' % (HQ, hname('e2v_update', _grp))])(_run)


# ---------------------------------------------------------------- both stages
AGG = ('mean', 'sum', 'softmax_then_sum')
# (aggr, v2e_aggr, e2v_aggr, custom weights, drop_rate, v2e_drop_rate, e2v_drop_rate): None leaves the argument out
V2V = [(a, None, None, cu, d, None, None) for a in AGG for cu in (False, True) for d in (None, 'rate')]
V2V += [('mean', a, b, False, None, None, None) for a in AGG for b in AGG if (a, b) != ('mean', 'mean')]
V2V += [('sum', 'mean', None, False, 'rate', 'zero', None), ('sum', None, 'mean', False, 'rate', None, 'zero'), ('sum', None, None, False, None, 'r1', 'r2'), ('mean', None, 'sum', True, None, 'r1', None), ('mean', None, None, False, 'rate', 'r1', 'r2')]

for _grp in (False, True):
    for _case in V2V:
        def _run(ex, grp=_grp, case=_case):
            aggr, va, ea, custom, dr, vd, ed = case
            o, g = begin(ex, grp)
            snap = snapshot(o)
            s1, s2 = Side(ex, o, g, 'v2e'), Side(ex, o, g, 'e2v')
            X = tensor(ex, 'X', (s1.nin, isym(ex, 'C', 1)))
            rates = {None: None, 'zero': 0.0}
            kw = {'aggr': aggr} if (aggr, va) != ('mean', None) else {}
            for k, r in (('drop_rate', dr), ('v2e_drop_rate', vd), ('e2v_drop_rate', ed)):
                if r is not None:
                    if r not in rates:
                        rates[r] = rate_sym(ex, r)
                    kw[k] = rates[r]
            for k, a in (('v2e_aggr', va), ('e2v_aggr', ea)):
                if a is not None:
                    kw[k] = a
            w1, D1 = matrix(ex, o, g, 'v2e', s1, custom)
            w2, D2 = matrix(ex, o, g, 'e2v', s2, custom)
            ew = None
            if custom:
                ew = tensor(ex, 'ew', (s1.nout,))
                kw.update(v2e_weight=w1, e2v_weight=w2, e_weight=ew)
            got = call(ex, o, 'v2v', g, [X], kw)
            pick = lambda own: (None if own == 'zero' else rates[own]) if own is not None else rates[dr]
            r1, r2 = pick(vd), pick(ed)
            drops(ex, (r1 is not None) + (r2 is not None))
            A = stage(ex, s1, 'v2e', 0, r1, va or aggr, custom, D1, X)
            Yf = lambda p, c: mul(ew.fn(p) if custom else s1.w(p), A(p, c))
            Y = SimpleNamespace(fn=Yf)
            B = stage(ex, s2, 'e2v', int(r1 is not None), r2, ea or aggr, custom, D2, Y)
            teq(ex, 'two-stage aggregation over exactly the incidences', got, (s2.nout, X.shape[1]), B)
            same_content(ex, o, snap)
            unchanged(ex)
        _x = ''.join(', %s=%s' % kv for kv in (('v2e_aggr', _case[1]), ('e2v_aggr', _case[2]), ('v2e_drop', _case[5]), ('e2v_drop', _case[6])) if kv[1])
        contract(title('v2v', _grp, _case[0], _case[3], _case[4], _x), ['P11'] + (['P26'] if any(_case[4:]) else []), ['%s.%s' % (HQ, hname('v2v', _grp))])(_run)


# ---------------------------------------------------------------- reported incidence order
def order_contract(way, grp):
    def run(ex):
        o, g = begin(ex, grp)
        c = content(ex, o)
        s = Side(ex, o, g, way)
        src, dst, w = (read(ex, o, '%s_%s' % (way, k), g) for k in ('src', 'dst', 'weight'))
        m = tlib.rshape(src)[0]
        ex.check('aligned', and_(eq(tlib.rshape(dst)[0], m), eq(tlib.rshape(w)[0], m)))
        ix, rng = indices_for((s.nout, s.nin))
        cnt = ssum(m, lambda p: iverson(and_(eq(dst.fn(p), ix[0]), eq(src.fn(p), ix[1])), ONE))
        ex.check('every incidence once', eq(cnt, iverson(s.pat(*ix), ONE)), hyps=rng)
        wt = ssum(m, lambda p: iverson(and_(eq(dst.fn(p), ix[0]), eq(src.fn(p), ix[1])), w.fn(p)))
        ex.check('weights aligned with the incidences', eq(wt, s.M(*ix)), hyps=rng)
        q = fresh('p')
        r2 = [le(ZERO, q), lt(q, m)]
        ex.check('indices in range', and_(le(ZERO, dst.fn(q)), lt(dst.fn(q), s.nout), le(ZERO, src.fn(q)), lt(src.fn(q), s.nin)), hyps=r2)
        for k in (src, dst, w):
            if k.frozen:
                ex.fail('fresh', 'returns a view of the cached matrix')
        unchanged(ex)
    contract('Hypergraph.%s/%s/%s' % tuple(hname('%s_%s' % (way, k), grp) for k in ('src', 'dst', 'weight')), ['P11', 'P04'], ['%s.%s' % (HQ, hname('%s_%s' % (way, k), grp)) for k in ('src', 'dst', 'weight')])(run)


for _w in ('v2e', 'e2v'):
    for _g in (False, True):
        order_contract(_w, _g)


# ---------------------------------------------------------------- rejected arguments
def bad_args(way, grp):
    def run(ex):
        o, g = begin(ex, grp)
        s = Side(ex, o, g, way)
        X = tensor(ex, 'X', (s.nin, isym(ex, 'C', 1)))
        bad = lambda label, f: (lambda k: (ex.ok if k else ex.fail)(label, 'structural' if k else 'accepted'))(raises(ex, f)[0])
        bad('unknown aggregation rejected', lambda: call(ex, o, way, g, [X], {'aggr': 'median'}))
        m = tlib.rshape(read(ex, o, way + '_weight', g))[0]
        l = isym(ex, 'l', 0)
        ex.assume(ne(l, m))
        bad('incidence weights of the wrong length rejected', lambda: call(ex, o, way, g, [X], {'aggr': 'sum', way + '_weight': tensor(ex, 'w', (l,))}))
        if way == 'v2e':
            l2 = isym(ex, 'l2', 0)
            ex.assume(ne(l2, s.nout))
            bad('hyperedge weights of the wrong length rejected', lambda: call(ex, o, way, g, [X], {'aggr': 'sum', 'e_weight': tensor(ex, 'w2', (l2,))}))
        if grp:
            h = app('unknown', sort='U')
            ex.assume(not_(content(ex, o).G.ghas(h)))
            bad('unknown groups rejected', lambda: call(ex, o, way, h, [X]))
    contract('Hypergraph.%s arguments' % hname(way, grp), ['P11'], ['%s.%s' % (HQ, hname(way, grp))])(run)


for _w in ('v2e', 'e2v'):
    for _g in (False, True):
        bad_args(_w, _g)


# ---------------------------------------------------------------- smoothing
for _grp in (False, True):
    for _drop in (False, True):
        def _run(ex, grp=_grp, drop=_drop):
            o, g = begin(ex, grp)
            c = content(ex, o)
            X = tensor(ex, 'X', (c.n, isym(ex, 'C', 1)))
            rate = rate_sym(ex, 'rate') if drop else None
            L = (gspecs(c, g) if grp else specs(ex, o))['L_HGNN']
            got = call(ex, o, 'smoothing_with_HGNN', g, [X], {'drop_rate': rate} if drop else {})
            drops(ex, int(drop))
            d = ex.__dict__.get('dropouts') or [[None]]
            T = thin(ex, 'dropout', 0, rate, L.dense, d[0][0].pat if d[0][0] is not None else None, (c.n, c.n))
            teq(ex, 'smoothing is the HGNN matrix times the features', got, (c.n, X.shape[1]), lambda i, k: ssum(c.n, lambda j: mul(T(i, j), X.fn(j, k))))
            cache_valid(ex, o)
            unchanged(ex)
        contract('Hypergraph.%s%s' % (hname('smoothing_with_HGNN', _grp), ' drop' if _drop else ''), ['P09'] + (['P26'] if _drop else []), ['%s.%s' % (HQ, hname('smoothing_with_HGNN', _grp))])(_run)


def _smooth(ex):
    o, g = begin(ex, False)
    c = content(ex, o)
    X = tensor(ex, 'X', (c.n, isym(ex, 'C', 1)))
    M = tlib.mk_sparse((c.n, c.n), lambda i, j: iverson(app('M_p', lift(i), lift(j), sort='B'), app('M_v', lift(i), lift(j), sort='R')), lambda i, j: app('M_p', lift(i), lift(j), sort='B'))
    M.frozen = 'the matrix'
    lam = rsym(ex, 'lamb')
    got = ex.call(ex.getattr(o, 'smoothing'), [X, M, lam])
    teq(ex, 'smoothing is X + lambda L X', got, (c.n, X.shape[1]), lambda i, k: add(X.fn(i, k), mul(lam, ssum(c.n, lambda j: mul(M.dense(i, j), X.fn(j, k))))))
    unchanged(ex)


contract('Hypergraph.smoothing', ['P09'], [HQ + '.smoothing', BH + '.smoothing'])(_smooth)
