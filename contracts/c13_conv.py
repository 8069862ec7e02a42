"""P13: conversions between structures; the closed forms of constructed content."""
from contracts.ctors import *
from contracts.c12_graphs import ite_b, WalkRec


# ---------------------------------------------------------------- lemmas: the fold of insertions in closed form
def closed_lemma(q, op):
    """By induction on the number of inserted edges: the fold of add_step over the list is the closed form used for callers."""
    def run(ex):
        l = isym(ex, 'l', 0)
        A, B, W = (lambda p: app('src', lift(p), sort='I')), (lambda p: app('dst', lift(p), sort='I')), (lambda p: const(1, 'R') if op == 'ones' else app('w', lift(p), sort='R'))

        def form(n, one_more=False):
            # one_more: the first n + 1 edges, by the definition of bounded quantification and summation
            def mk(match):
                has = lambda *k: or_(exists_(n, lambda p: match(p, *k)), match(n, *k) if one_more else FALSE)
                if op == 'ones':
                    return Abs(has, lambda *k: const(1, 'R'))
                return Abs(has, lambda *k: add(ssum(n, lambda p: iverson(match(p, *k), W(p))), iverson(match(n, *k), W(n)) if one_more else RZERO))
            out = {EATTR: mk(lambda p, i, j: matches(q, A(p), B(p), i, j))}
            if q != BQ:
                out[SATTR] = mk(lambda p, i: and_(eq(A(p), B(p)), eq(A(p), i)))
            return out
        mg = merge_of('sum' if op == 'once' else 'mean' if op == 'ones' else op)
        k2 = [fresh('k'), fresh('k')]
        ex.check('no edge inserted: empty', not_(form(ZERO)[EATTR].has(*k2)))
        now, nxt = form(l), form(l, True)
        want = add_step(q, A(l), B(l), W(l), mg)(now)
        for a in now:
            ks = [fresh('k') for _ in range(AR[a])]
            x, y = nxt[a].has(*ks), want[a].has(*ks)
            ex.check('one more edge: membership', eqb(x, y))
            none = not_(now[a].has(*ks))
            if op == 'sum':
                # an edge that is not stored has no listed weight
                ex.check('no listed edge, no weight', implies(none, eq(now[a].get(*ks), RZERO)))
            ex.check('one more edge: weights', eq_any(nxt[a].get(*ks), want[a].get(*ks)), hyps=[x, y] + ([implies(none, eq(now[a].get(*ks), RZERO))] if op == 'sum' else []))
    contract('%s constructor closed form [%s]' % (nm(q), op), ['P13', PROP[q]], ADDF[q])(run)


for _q in (GQ, DQ, BQ):
    for _op in ('sum', 'ones'):
        closed_lemma(_q, _op)


# ---------------------------------------------------------------- adjacency lists
def adj_input(ex, d0, d1):
    L = isym(ex, 'lines', 0)
    ln, at = (lambda l: app('ln', l, sort='I')), (lambda l, r: app('at', l, r, sort='I'))
    ex.th.axiom('ln', lambda l: [le(ZERO, ln(l))])
    ex.th.axiom('at', lambda l, r: [implies(and_(le(ZERO, l), lt(l, L), le(ZERO, r), lt(r, ln(l))), and_(le(ZERO, at(l, r)), lt(at(l, r), ite(eq(r, ZERO), d0, d1))))])
    l, r = fresh('l'), fresh('r')
    line = ListV((Loop(r, ln(l), (Item(at(l, r)),)),), frozen='a line of the caller list')
    return L, ln, at, ListV((Loop(l, L, (Item(line),)),), frozen='the caller adjacency list')


def from_adj(q):
    def run(ex):
        n = [isym(ex, 'n%d' % i, 1) for i in range(2 if q == BQ else 1)]
        use_ctors(ex, q)
        L, ln, at, al = adj_input(ex, n[0], n[-1])
        X = bsym(ex, 'X')
        kw = {} if q == BQ else {'extra_selfloop': X}
        g = ex.call(ex.getattr(getcls(ex, q), 'from_adj_list'), list(n) + [al], kw)
        i, j = fresh('x'), fresh('x')
        l, r = fresh('l'), fresh('r')
        some = lambda f: exists(((l, L), (r, add(ln(l), const(-1)))), f(at(l, ZERO), at(l, add(r, ONE))))  # entry 0 is the source, entries 1.. its neighbours
        E = MapView(ex, g.attrs[EATTR], 2)
        want = some(lambda a, b: matches(q, a, b, i, j))
        ex.check('exactly the listed edges', eqb(E.has(i, j), want))
        ex.check('with weight one', eq_any(E.get(i, j), const(1, 'R')), hyps=[want])
        if q != BQ:
            S = MapView(ex, g.attrs[SATTR], 1)
            ex.check('exactly the listed self-loops', eqb(S.has(i), some(lambda a, b: and_(eq(a, b), eq(a, i)))))
            ex.check('extra self-loop setting', eqb(tb(g.attrs['_has_extra_selfloop']), X))
        ex.check('vertices', and_(eq(lift(g.attrs['_num_v']), n[-1]), eq(lift(g.attrs['_num_u']), n[0]) if q == BQ else TRUE))
        unchanged(ex)
    contract('%s.from_adj_list' % nm(q), ['P13'], [q + '.from_adj_list'])(run)


for _q in (GQ, DQ, BQ):
    from_adj(_q)


# ---------------------------------------------------------------- star and clique expansion
def begin_h(ex):
    o = mk_hyper(ex)
    need_groups(ex, o)
    hg_nonneg(ex)
    c = content(ex, o)
    ex.assume(le(ONE, c.m))
    return o, c


for _w in (False, True):
    def _run(ex, w=_w):
        o, c = begin_h(ex)
        use_ctors(ex, GQ)
        snap = snapshot(o)
        r = ex.call(ex.getattr(getcls(ex, GQ), 'from_hypergraph_star'), [o], {'weighted': True} if w else {})
        if not (isinstance(r, tuple) and len(r) == 2):
            ex.fail('result', 'not a pair')
            return
        g, mask = r
        i, j = fresh('x'), fresh('x')
        ex.check('one vertex per vertex and per hyperedge', eq(lift(g.attrs['_num_v']), add(c.n, c.m)))
        E = MapView(ex, g.attrs[EATTR], 2)
        rng = [le(ZERO, i), lt(i, j), lt(j, add(c.n, c.m))]
        want = and_(lt(i, c.n), le(c.n, j), c.aHpat(i, add(j, neg(c.n))))
        ex.check('a vertex is linked exactly to its hyperedges', eqb(E.has(i, j), want), hyps=rng)
        ex.check('links have weight one', eq_any(E.get(i, j), const(1, 'R')), hyps=rng + [want])
        S = MapView(ex, g.attrs[SATTR], 1)
        ex.check('no self-loops', not_(S.has(i)))
        ex.check('no extra self-loops', not_(tb(g.attrs['_has_extra_selfloop'])))
        teq(ex, 'the mask selects the original vertices', mask, (add(c.n, c.m),), lambda x: lt(x, c.n))
        same_content(ex, o, snap)
        cache_valid(ex, o)
        unchanged(ex)
    contract('Graph.from_hypergraph_star%s' % (' weighted' if _w else ''), ['P13', 'P05'], [GQ + '.from_hypergraph_star'])(_run)

    def _run(ex, w=_w):
        o, c = begin_h(ex)
        use_ctors(ex, GQ)
        snap = snapshot(o)
        miu = rsym(ex, 'miu')
        g = ex.call(ex.getattr(getcls(ex, GQ), 'from_hypergraph_clique'), [o], {'weighted': True, 'miu': miu} if w else {})
        i, j = fresh('x'), fresh('x')
        ex.check('same vertices', eq(lift(g.attrs['_num_v']), c.n))
        E = MapView(ex, g.attrs[EATTR], 2)
        rng = [le(ZERO, i), lt(i, j), lt(j, c.n)]
        want = exists_(c.m, lambda p: and_(c.aHpat(i, p), c.aHpat(j, p)))
        ex.check('exactly the pairs sharing a hyperedge', eqb(E.has(i, j), want), hyps=rng)
        wt = mul(miu, ssum(c.m, lambda p: mul(c.aH(i, p), c.aH(j, p)))) if w else const(1, 'R')
        ex.check('weighted by the number of shared hyperedges', eq_any(E.get(i, j), wt), hyps=rng + [want])
        S = MapView(ex, g.attrs[SATTR], 1)
        ex.check('no self-loops', not_(S.has(i)))
        same_content(ex, o, snap)
        cache_valid(ex, o)
        unchanged(ex)
    contract('Graph.from_hypergraph_clique%s' % (' weighted' if _w else ''), ['P13', 'P05'], [GQ + '.from_hypergraph_clique'])(_run)


# ---------------------------------------------------------------- bipartite graphs
for _U in (True, False):
    for _w in (False, True):
        def _run(ex, U=_U, w=_w):
            o, c = begin_h(ex)
            use_ctors(ex, BQ)
            snap = snapshot(o)
            kw = {} if U else {'vertex_as_U': False}
            if w:
                kw['weighted'] = True
            g = ex.call(ex.getattr(getcls(ex, BQ), 'from_hypergraph'), [o], kw)
            i, p = fresh('x'), fresh('x')
            ex.check('sides', and_(*[eq(lift(g.attrs[k]), x) for k, x in zip(('_num_u', '_num_v') if U else ('_num_v', '_num_u'), (c.n, c.m))]))
            E = MapView(ex, g.attrs[EATTR], 2)
            at = (lambda f: f(i, p)) if U else (lambda f: f(p, i))
            rng = [le(ZERO, i), lt(i, c.n), le(ZERO, p), lt(p, c.m)]
            want = c.aHpat(i, p)
            ex.check('exactly the incident pairs', eqb(at(E.has), want), hyps=rng)
            ex.check('weights', eq_any(at(E.get), c.aw(p) if w else const(1, 'R')), hyps=rng + [want])
            same_content(ex, o, snap)
            cache_valid(ex, o)
            unchanged(ex)
        contract('BiGraph.from_hypergraph%s%s' % ('' if _U else ' edges as U', ' weighted' if _w else ''), ['P13', 'P05'], [BQ + '.from_hypergraph'])(_run)


# ---------------------------------------------------------------- hypergraphs from graphs
def once(ns, f):
    """How many listed elements satisfy f."""
    return add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [f(v)])), ONE)) for bs, cs, v in leaves(ns)]))


HKINDS = ('from', 'add')


def hyper_target(ex, kind, n):
    """The constructor or add_hyperedges (by their contracts), as seen by the conversion."""
    use_ctors(ex, HQ)
    ex.suite.summaries[HQ + '.add_hyperedges'] = record_add
    ex.disabled.discard(HQ + '.add_hyperedges')
    if kind == 'add':
        return obj(ex, HQ, _num_v=n, device=dev())
    return None


def hyper_built(ex, kind, r, o, n):
    if kind == 'from':
        ex.check('same vertices', eq(lift(r.attrs['_num_v']), n))
        return r.built
    ad = ex.__dict__.get('added', [])
    if len(ad) != 1 or ad[0].target is not o:
        ex.fail('one addition to the hypergraph', 'not one')
        return None
    return ad[0]


for _k in HKINDS:
    def _run(ex, kind=_k):
        g = mk_graph(ex)
        c = content(ex, g)
        snap = snapshot(g)
        o = hyper_target(ex, kind, c.n)
        r = ex.call(ex.getattr(getcls(ex, HQ), 'from_graph'), [g], {}) if kind == 'from' else ex.call(ex.getattr(o, 'add_hyperedges_from_graph'), [g], {'group_name': 'other'})
        h = hyper_built(ex, kind, r, o, c.n)
        if h is None:
            return
        if kind == 'add':
            ex.check('group', const(h.group == 'other'))
        ns = weighted_edges(ex, ListV(h.nodes), None if h.weights is None else ListV(h.weights))
        i, j = fresh('x'), fresh('x')
        E = MapView(ex, g.attrs[EATTR], 2)
        _, num_, tot = listed(ns, lambda v: matches(GQ, v[0], v[1], i, j))
        rng = [le(ZERO, i), lt(i, j), lt(j, c.n)]
        ex.check('every edge is listed exactly once', eq(num_, iverson(E.has(i, j), ONE)), hyps=rng)
        ex.check('with its weight', eq_any(tot, E.get(i, j)), hyps=rng + [E.has(i, j)])
        S = MapView(ex, g.attrs[SATTR], 1)
        _, num_, tot = listed(ns, lambda v: and_(eq(v[0], v[1]), eq(v[0], i)))
        X = tb(g.attrs['_has_extra_selfloop'])
        rng = [le(ZERO, i), lt(i, c.n)]
        ex.check('self-loops are listed once, extra self-loops once more', eq(num_, add(iverson(S.has(i), ONE), iverson(X, ONE))), hyps=rng)
        ex.check('with their weights', eq_any(tot, add(iverson(S.has(i), S.get(i)), iverson(X, const(1, 'R')))), hyps=rng)
        same_content(ex, g, snap)
        unchanged(ex)
    contract('Hypergraph.%s' % ('from_graph' if _k == 'from' else 'add_hyperedges_from_graph'), ['P13'], [HQ + ('.from_graph' if _k == 'from' else '.add_hyperedges_from_graph')])(_run)

    for _U in (True, False, None):
        def _run(ex, kind=_k, Uarg=_U):
            g = mk_bigraph(ex)
            c = content(ex, g)
            snap = snapshot(g)
            U = (kind == 'from') if Uarg is None else Uarg
            n, m = (c.nu, c.nv) if U else (c.nv, c.nu)
            kw = {} if Uarg is None else {'U_as_vertex': Uarg}
            o = hyper_target(ex, kind, n)
            r = ex.call(ex.getattr(getcls(ex, HQ), 'from_bigraph'), [g], kw) if kind == 'from' else ex.call(ex.getattr(o, 'add_hyperedges_from_bigraph'), [g], kw)
            h = hyper_built(ex, kind, r, o, n)
            if h is None:
                return
            if kind == 'add':
                ex.check('group', const(h.group == 'main'))
            ex.check('no weights', const(h.weights is None))
            pat = c.Bpat if U else (lambda i, p: c.Bpat(p, i))
            # exactly one hyperedge per node of the other side that has a neighbour, in order
            ls = list(leaves(h.nodes))
            if len(ls) != 1 or len(ls[0][0]) != 1:
                ex.fail('one hyperedge per linked node', 'listing of another form')
                return
            (bs, cs, v), = ls
            p, i = bs[0][0], fresh('x')
            ex.check('one hyperedge per node of the other side', eq(bs[0][1], m))
            rng = [le(ZERO, p), lt(p, m)]
            ex.check('nodes without neighbours give no hyperedge', eqb(and_(*cs), le(ONE, ssum(n, lambda q: iverson(pat(q, p), ONE)))), hyps=rng)
            ns = elements(ex, v)
            ex.check('the hyperedge is exactly the neighbourhood', eq(once(ns, lambda x: eq(lift(x), i)), iverson(pat(i, p), ONE)), hyps=rng + [le(ZERO, i), lt(i, n)])
            same_content(ex, g, snap)
            unchanged(ex)
        contract('Hypergraph.%s%s' % ('from_bigraph' if _k == 'from' else 'add_hyperedges_from_bigraph', {True: ' U', False: ' V', None: ' default'}[_U]), ['P13'],
                 [HQ + ('.from_bigraph' if _k == 'from' else '.add_hyperedges_from_bigraph'), HQ + '._e_list_from_bigraph'])(_run)


# ---------------------------------------------------------------- k-hop neighbourhoods
def opaque_adjacency(ex, g, c):
    """The callers only rely on which entries of the adjacency matrix are stored; its definition (contract of Graph.A) stays folded."""
    adj = lambda i, j: app('adjacent', lift(i), lift(j), sort='B')
    old = ex.suite.summaries[GQ + '.A']

    def f(ex2, args, kw):
        o = args[0]
        if o is not g:
            return old(ex2, args, kw)
        cache_valid(ex2, o, 'cache invariant before reading A')
        return PatMatrix(c.dims, adj).mk(ex2, frozen='the cached value A')
    ex.suite.summaries[GQ + '.A'] = f
    c.Apat = adj


def over_matrices(loop):
    return len(loop.body) == 1 and isinstance(loop.body[0], Item) and isinstance(loop.body[0].val, Sparse)


class Hops(WalkRec):
    def match(self, ex, loop, locs, frame):
        return not over_matrices(loop) and WalkRec.match(self, ex, loop, locs, frame)


class Join(LoopSpec):
    """`total = total + M` over a list of matrices: after l of them an entry is stored when the first total or one of them stores it."""

    def __init__(self, c, elem):
        self.c, self.elem = c, elem

    def match(self, ex, loop, locs, frame):
        out = [l for l in locs.values() if isinstance(l.old, Sparse)]
        return len(out) == 1 and over_matrices(loop)

    def locs(self, locs):
        out = [l for l in locs.values() if isinstance(l.old, Sparse)]
        self.loc = out[0] if len(out) == 1 else None
        return out if len(out) == 1 else []

    def state(self, l):
        def pat(i, j):
            q = fresh('q')
            return or_(self.start.pat(i, j), exists(((q, lift(l)),), self.elem(q, i, j)))
        return PatMatrix(self.c.dims, pat)

    def init(self, ex, v, hi):
        self.start = self.loc.old

    def enter(self, ex, v):
        self.loc.put(ex, self.state(v).mk(ex))

    def leave(self, ex, v):
        PatMatrix(self.c.dims, lambda i, j: or_(self.state(v).pat(i, j), self.elem(v, i, j))).check(ex, 'joining loop: one more matrix', self.loc.get())

    def finish(self, ex, n):
        self.loc.put(ex, self.state(n).mk(ex))


for _k in HKINDS:
    for _only in (False, True):
        def _run(ex, kind=_k, only=_only):
            g = mk_graph(ex)
            c = content(ex, g)
            k = isym(ex, 'k', 1)
            snap = snapshot(g)
            o = hyper_target(ex, kind, c.n)
            # walks of q + 2 edges: one of q + 1 edges and one more
            opaque_adjacency(ex, g, c)
            step = lambda q, i, j: exists_(c.n, lambda m: and_(ite_b(eq(q, ZERO), c.Apat(i, m), walk(c, add(q, ONE), i, m)), c.Apat(m, j)))
            ex.loop_specs.append(Hops(c, k))
            if not only:
                ex.loop_specs.append(Join(c, step))
            kw = {'only_kHop': True} if only else {}
            r = ex.call(ex.getattr(getcls(ex, HQ), 'from_graph_kHop'), [g, k], kw) if kind == 'from' else ex.call(ex.getattr(o, 'add_hyperedges_from_graph_kHop'), [g, k], dict(kw, group_name='other'))
            h = hyper_built(ex, kind, r, o, c.n)
            if h is None:
                return
            ex.check('no weights', const(h.weights is None))
            ls = list(leaves(h.nodes))
            if len(ls) != 1 or len(ls[0][0]) != 1:
                ex.fail('one hyperedge per vertex', 'listing of another form')
                return
            (bs, cs, v), = ls
            p, j = bs[0][0], fresh('x')
            ex.check('one hyperedge per vertex', and_(eq(bs[0][1], c.n), *cs))
            rng = [le(ZERO, p), lt(p, c.n), le(ZERO, j), lt(j, c.n)]
            q = fresh('q')
            reach = walk(c, k, p, j) if only else or_(c.Apat(p, j), exists(((q, add(k, const(-1))),), step(q, p, j)))
            members = once(elements(ex, v), lambda x: eq(lift(x), j))
            ex.check('the vertex itself and what it reaches', eq(members, iverson(or_(eq(p, j), reach), ONE)), hyps=rng)
            same_content(ex, g, snap)
            cache_valid(ex, g)
            unchanged(ex)
        contract('Hypergraph.%s%s' % ('from_graph_kHop' if _k == 'from' else 'add_hyperedges_from_graph_kHop', ' exactly k' if _only else ''), ['P13', 'P05'],
                 [HQ + ('.from_graph_kHop' if _k == 'from' else '.add_hyperedges_from_graph_kHop'), HQ + '._e_list_from_graph_kHop'])(_run)


# ---------------------------------------------------------------- nearest neighbours
for _k in HKINDS:
    def _run(ex, kind=_k):
        n, d, k = isym(ex, 'n', 1), isym(ex, 'd', 1), isym(ex, 'k', 1)
        ex.assume(le(k, n))
        X = Tensor((n, d), lambda i, f: app('feat', lift(i), lift(f), sort='R'), 'f')
        X.frozen = 'the caller features'
        o = hyper_target(ex, kind, n)
        r = ex.call(ex.getattr(getcls(ex, HQ), 'from_feature_kNN'), [X, k], {}) if kind == 'from' else ex.call(ex.getattr(o, 'add_hyperedges_from_feature_kNN'), [X, k], {'group_name': 'other'})
        h = hyper_built(ex, kind, r, o, n)
        if h is None:
            return
        ex.check('no weights', const(h.weights is None))
        t, dim, idx, nm = tlib.order_fn(ex, tlib.t_cdist(ex, [X, X], {}), -1, False)
        ls = list(leaves(h.nodes))
        if len(ls) != 1 or len(ls[0][0]) != 1:
            ex.fail('one hyperedge per vertex', 'listing of another form')
            return
        (bs, cs, v), = ls
        p, j = bs[0][0], fresh('x')
        ex.check('one hyperedge per vertex', and_(eq(bs[0][1], n), *cs))
        rng = [le(ZERO, p), lt(p, n), le(ZERO, j), lt(j, n)]
        ex.check('exactly the k nearest', eq(once(elements(ex, v), lambda x: eq(lift(x), j)), iverson(lt(app(nm + '_pos', p, j, sort='I'), k), ONE)), hyps=rng)
        unchanged(ex)
    contract('Hypergraph.%s' % ('from_feature_kNN' if _k == 'from' else 'add_hyperedges_from_feature_kNN'), ['P13'],
             [HQ + ('.from_feature_kNN' if _k == 'from' else '.add_hyperedges_from_feature_kNN'), HQ + '._e_list_from_feature_kNN'])(_run)
