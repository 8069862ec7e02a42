"""P15: random generators.  A draw is an arbitrary admissible value; the structures are built through their constructors, whose own contracts (P01, P02, P03) say
that the contents are the given edges, so the obligations are on the number of vertices and the edge list handed over."""
from pyvc.spec import *
from pyvc.loops import WhileSpec, GrowSpec, once
from pyvc import lib

GR, DG, BG, HG = ('dhg.random.graphs.graph', 'dhg.random.graphs.directed_graph', 'dhg.random.graphs.bipartite_graph', 'dhg.random.hypergraphs.hypergraph')
CTOR = {'Graph': 'dhg.structure.graphs.graph:Graph.__init__', 'DiGraph': 'dhg.structure.graphs.directed_graph:DiGraph.__init__',
        'BiGraph': 'dhg.structure.graphs.bipartite_graph:BiGraph.__init__', 'Hypergraph': 'dhg.structure.hypergraphs.hypergraph:Hypergraph.__init__'}


def builders(ex, cls):
    """Construction is recorded: (vertex counts, edge list)."""
    made = []

    def init(ex, a, k):
        from pyvc.core import Unsupported
        names = {'BiGraph': ['num_u', 'num_v', 'e_list', 'e_weight']}.get(cls, ['num_v', 'e_list', 'e_weight'])
        b = dict(zip(names, a[1:]), **k)
        if len(a) - 1 > len(names) or set(b) - set(names) or b.get('e_weight') is not None:
            raise Unsupported('constructor arguments')
        made.append((a[0], [b.get(x) for x in names if x.startswith('num')], b.get('e_list')))
        return None
    ex.suite.summaries[CTOR[cls]] = init
    return made


def built(ex, made, r, nums):
    if len(made) != 1 or r is not made[0][0]:
        ex.undecided('the result is the constructed structure', '%d structures constructed' % len(made))
        return None
    o, got, es = made[0]
    for k, (x, y) in enumerate(zip(got, nums)):
        ex.check('requested number of vertices%s' % ('' if len(nums) == 1 else ' (%s)' % 'uv'[k]), eq(num(x), y))
    return () if es is None else lib.iter_nodes(ex, es)


def num(x):
    return lift(x)


def rng_of(bs, cs):
    return [x for b, h in bs for x in (le(ZERO, b), lt(b, h))] + list(cs)


def simple_edges(ex, ns, ok, code):
    """Every listed edge is as required and no edge is listed twice; code(value): what two equal edges share."""
    ls = list(leaves(ns))
    done = []
    for bs, cs, v in ls:
        if not (isinstance(v, tuple) and len(v) == 2):
            ex.undecided('edges are pairs', type(v).__name__)
            return False
        h = rng_of(bs, cs)
        ex.check('end points are in range, no self-loop', ok(*map(num, v)), hyps=h)
        c = code(*map(num, v))
        for c2, h2 in done:
            ex.check('no edge twice', not_(and_(*[eq(x, y) for x, y in zip(c, c2)])), hyps=h + h2)
        m = {b: fresh('d') for b, _ in bs}
        if bs:
            ex.check('no edge twice', implies(and_(*[eq(x, subst(x, m)) for x in c]), and_(*[eq(b, m[b]) for b, _ in bs])), hyps=h + [subst(x, m) for x in h] + once(ex, c, m))
        done.append((c, h))
    return True


def listed(ns, code, want):
    return or_(*[exists(bs, and_(*(list(cs) + [eq(x, y) for x, y in zip(code(*map(num, v)), want)]))) for bs, cs, v in leaves(ns)])


UND = lambda a, b: (ite(le(a, b), a, b), ite(le(a, b), b, a))
DIR = lambda a, b: (a, b)
KINDS = {'graph': (GR, 'Graph', UND), 'digraph': (DG, 'DiGraph', DIR), 'bigraph': (BG, 'BiGraph', DIR)}


def params(ex, kind):
    if kind == 'bigraph':
        nums = [isym(ex, 'num_u', 2), isym(ex, 'num_v', 2)]
    else:
        nums = [isym(ex, 'num_v', 2)]
    inr = lambda a, b: and_(le(ZERO, a), lt(a, nums[0]), le(ZERO, b), lt(b, nums[-1]), TRUE if kind == 'bigraph' else ne(a, b))
    return nums, inr


def total(kind, nums):
    if kind == 'bigraph':
        return mul(nums[0], nums[1])
    t = mul(nums[0], sub(nums[0], ONE))
    return t if kind == 'digraph' else idiv(t, const(2))


def sub(a, b):
    return add(a, mul(const(-1), b))


def probability(ex, case):
    p = rsym(ex, 'prob')
    ex.assume(and_(le(RZERO, p), le(p, const(1, 'R'))))
    if case == 'zero':
        ex.assume(eq(p, RZERO))
        return 0
    if case == 'one':
        return 1
    return p


def edge_cases(ex, kind, case, ns, inr, code):
    if case == 'zero':
        for bs, cs, v in leaves(ns):
            ex.check('no edge at probability zero', FALSE, hyps=rng_of(bs, cs))
        ex.ok('no edge at probability zero')
    if case == 'one':
        a, b = fresh('a'), fresh('b')
        h = [inr(a, b)] + ([lt(a, b)] if kind == 'graph' else [])
        ex.check('every possible edge at probability one', listed(ns, code, (a, b)), hyps=h)


for _kind in KINDS:
    for _case in ('any', 'zero', 'one'):
        @contract('%s_Gnp[probability %s]' % (_kind, _case), ['P15', 'P27'], [KINDS[_kind][0] + ':%s_Gnp' % _kind])
        def _(ex, kind=_kind, case=_case):
            mod, cls, code = KINDS[kind]
            nums, inr = params(ex, kind)
            made = builders(ex, cls)
            r = callq(ex, mod + ':%s_Gnp' % kind, *nums, probability(ex, case))
            ns = built(ex, made, r, nums)
            if ns is not None and simple_edges(ex, ns, inr, code):
                edge_cases(ex, kind, case, ns, inr, code)

    @contract('%s_Gnm' % _kind, ['P15', 'P27'], [KINDS[_kind][0] + ':%s_Gnm' % _kind])
    def _(ex, kind=_kind):
        mod, cls, code = KINDS[kind]
        nums, inr = params(ex, kind)
        m = isym(ex, 'num_e')
        ex.assume(and_(le(ONE, m), le(m, total(kind, nums))))
        made = builders(ex, cls)
        size = lambda sz: list(sz.values())

        def inv(ex, vals, entry, sz):
            # the number of edges so far, counted by the set itself and by any counter that started at zero
            cnt = [eq(v, size(sz)[0]) for k, v in vals.items() if entry[k] is ZERO] if size(sz) else []
            return and_(*([le(size(sz)[0], m)] + cnt)) if size(sz) else TRUE

        def elem(ex, vals, entry, ks):
            return and_(inr(*ks), lt(ks[0], ks[1]) if kind == 'graph' else TRUE)
        ex.loop_specs.append(GrowSpec(inv, elem, name='drawing edges'))
        r = callq(ex, mod + ':%s_Gnm' % kind, *(nums + [m]))
        ns = built(ex, made, r, nums)
        if ns is not None and simple_edges(ex, ns, inr, code):
            ex.check('requested number of edges', eq(nlen(ns), m))

    @contract('%s_Gnm, more edges than possible' % _kind, ['P15', 'P27'], [KINDS[_kind][0] + ':%s_Gnm' % _kind])
    def _(ex, kind=_kind):
        mod, cls, code = KINDS[kind]
        nums, inr = params(ex, kind)
        m = isym(ex, 'num_e')
        ex.assume(lt(total(kind, nums), m))
        made = builders(ex, cls)
        kd, _ = raises(ex, lambda: callq(ex, mod + ':%s_Gnm' % kind, *(nums + [m])))
        (ex.ok if kd else ex.fail)('refused', 'accepted')


def lexle(a, b, v, w):
    return or_(lt(a, v), and_(eq(a, v), le(b, w)))


def skipping(ex, kind, n):
    """Geometric skipping: the position (v, w) only moves forward through the pairs w < v, listed row by row."""
    turn = [0]

    class Outer(GrowSpec):
        def while_(self, ex, frame, s):
            if not self.grown(frame, s):
                return False
            turn[0] += 1
            k = turn[0]
            return GrowSpec(inv, lambda *a: elem(k, *a), name=self.name).while_(ex, frame, s)

    def inv(ex, vals, entry, sz):
        v, w = vals['v'], vals['w']
        return and_(le(ONE, v), le(const(-1), w), implies(lt(v, n), lt(w, v)))

    def elem(turn, ex, vals, entry, ks):
        v, w = vals['v'], vals['w']
        hi, lo = ks
        if kind == 'graph':
            return and_(le(ZERO, lo), lt(lo, hi), lt(hi, n), lexle(hi, lo, v, w))
        inr = and_(le(ZERO, lo), le(ZERO, hi), lt(lo, n), lt(hi, n))
        if turn == 1:
            return and_(inr, lt(hi, lo), lexle(lo, hi, v, w))
        return and_(inr, ne(lo, hi), implies(lt(lo, hi), lexle(hi, lo, v, w)))

    class Inner(WhileSpec):
        def while_(self, ex, frame, s):
            self.v0, self.w0 = lift(frame.env['v']), lift(frame.env['w'])
            return WhileSpec.while_(self, ex, frame, s)
    def inv2(ex, vals):
        v, w = vals['v'], vals['w']
        return and_(le(ONE, v), le(ZERO, w), or_(lt(inner.v0, v), and_(eq(inner.v0, v), le(inner.w0, w))))
    outer, inner = Outer(inv, None, name='skipping through the pairs'), Inner(inv2, 'next row')
    ex.loop_specs += [outer, inner]


for _kind in ('graph', 'digraph'):
    for _case in ('any', 'zero', 'one'):
        @contract('%s_Gnp_fast[probability %s]' % (_kind, _case), ['P15', 'P27'], [KINDS[_kind][0] + ':%s_Gnp_fast' % _kind, KINDS[_kind][0] + ':%s_Gnp' % _kind])
        def _(ex, kind=_kind, case=_case):
            mod, cls, code = KINDS[kind]
            nums, inr = params(ex, kind)
            made = builders(ex, cls)
            skipping(ex, kind, nums[0])
            r = callq(ex, mod + ':%s_Gnp_fast' % kind, *(nums + [probability(ex, case)]))
            ns = built(ex, made, r, nums)
            if ns is not None and simple_edges(ex, ns, inr, code):
                edge_cases(ex, kind, case, ns, inr, code)


def hyperedges(ex, ns, n, size):
    """Every hyperedge has the size required and vertices in range, in ascending order; none is listed twice."""
    done = []
    for bs, cs, v in leaves(ns):
        if not isinstance(v, VTup):
            ex.undecided('hyperedges are tuples', type(v).__name__)
            return False
        h = rng_of(bs, cs)
        x = fresh('x')
        ex.check('vertices in range', implies(app('vmem', v.t, x, sort='B'), and_(le(ZERO, x), lt(x, n))), hyps=h)
        ex.check('hyperedge size', size(app('vlen', v.t, sort='I')), hyps=h)
        ex.check('vertices in canonical order', eq(app('canon', v.t, sort='U'), v.t), hyps=h)
        for c2, h2 in done:
            ex.check('no hyperedge twice', ne(v.t, c2), hyps=h + h2)
        m = {b: fresh('d') for b, _ in bs}
        if bs:
            ex.check('no hyperedge twice', implies(eq(v.t, subst(v.t, m)), and_(*[eq(b, m[b]) for b, _ in bs])), hyps=h + [subst(y, m) for y in h] + once(ex, [v.t], m))
        done.append((v.t, h))
    return True


for _case in ('any', 'zero', 'one'):
    @contract('uniform_hypergraph_Gnp[probability %s]' % _case, ['P15', 'P27'], [HG + ':uniform_hypergraph_Gnp'])
    def _(ex, case=_case):
        n, k = isym(ex, 'num_v', 2), isym(ex, 'k', 2)
        made = builders(ex, 'Hypergraph')
        r = callq(ex, HG + ':uniform_hypergraph_Gnp', k, n, probability(ex, case))
        ns = built(ex, made, r, [n])
        if ns is None or not hyperedges(ex, ns, n, lambda s: eq(s, k)):
            return
        if case == 'zero':
            for bs, cs, v in leaves(ns):
                ex.check('no hyperedge at probability zero', FALSE, hyps=rng_of(bs, cs))
            ex.ok('no hyperedge at probability zero')
        if case == 'one':
            comb = [e for e in ex.events if e[0] == 'combinations']
            if len(comb) != 1:
                return ex.undecided('every possible hyperedge at probability one', 'no single enumeration of the combinations')
            _, nm, cnt, has, rng, kk = comb[0]
            ex.check('combinations of the requested size', eq(lift(kk), k))
            ex.check('combinations of all vertices', and_(eq(num(rng.lo), ZERO), eq(num(rng.hi), n)))
            t = app('any_tuple', sort='U')
            ex.check('every possible hyperedge at probability one', or_(*[exists(bs, and_(*(list(cs) + [eq(v.t, t)]))) for bs, cs, v in leaves(ns)]), hyps=[has(t)])


def drawing(ex, n, m, size):
    size_ = lambda sz: list(sz.values())

    def inv(ex, vals, entry, sz):
        return le(size_(sz)[0], m)

    def elem(ex, vals, entry, ks):
        t, = ks
        return and_(size(app('vlen', t, sort='I')), eq(app('canon', t, sort='U'), t))
    inr = lambda v: and_(le(ZERO, v), lt(v, n))

    def also(ks):
        x = fresh('x')
        return implies(app('vmem', ks[0], x, sort='B'), inr(x))
    known = lambda ex, has: ex.th.axiom('vmem', lambda t, v: [implies(and_(has(t), app('vmem', t, v, sort='B')), inr(v))])
    ex.loop_specs.append(GrowSpec(inv, elem, codec=lib.VT, name='drawing hyperedges', also=also, known=known))


@contract('uniform_hypergraph_Gnm', ['P15', 'P27'], [HG + ':uniform_hypergraph_Gnm'])
def _(ex):
    n, k, m = isym(ex, 'num_v', 2), isym(ex, 'k', 2), isym(ex, 'num_e', 1)
    ex.assume(le(k, n))
    made = builders(ex, 'Hypergraph')
    drawing(ex, n, m, lambda s: eq(s, k))
    r = callq(ex, HG + ':uniform_hypergraph_Gnm', k, n, m)
    ns = built(ex, made, r, [n])
    if ns is not None and hyperedges(ex, ns, n, lambda s: eq(s, k)):
        ex.check('requested number of hyperedges', eq(nlen(ns), m))


@contract('C is at least one', ['P15', 'P27'], ['dhg.utils.math:C'])
def _(ex):
    n, m = isym(ex, 'n', 0), isym(ex, 'm', 0)
    ex.assume(le(m, n))
    from pyvc import lib as L

    def exp(ex, a, k):
        s = lift(a[0])
        if s.op == 'sum' and len(s.args[0]) == 1:
            (v, h), = s.args[0]
            logs = [x for x in ir.subterms(s.args[1]) if x.op == 'app' and x.args[0] == 'log']
            mono = [implies(and_(lt(RZERO, x.args[1]), le(x.args[1], y.args[1])), le(x, y)) for x in logs for y in logs if x is not y]
            if ex.check('every factor is at least one', le(ZERO, s.args[1]), hyps=[le(ZERO, v), lt(v, h)] + mono):
                ex.assume(le(ZERO, s))      # a sum of non-negative terms
        return L.e_mathexp(ex, a, k)
    ex.suite.externals['math.exp'] = exp
    r = callq(ex, 'dhg.utils.math:C', n, m)
    ex.check('at least one', le(ONE, lift(r)))


def C_summary(ex, a, k):
    n, m = map(lift, a)
    if not ex.entailed(and_(le(ZERO, m), le(m, n))):
        from pyvc.core import Unsupported
        raise Unsupported('C outside its precondition')
    ex.th.axiom('C', lambda x, y: [le(ONE, app('C', x, y, sort='I'))])
    return app('C', n, m, sort='I')


for _method in ('uniform', 'low_order_first', 'high_order_first', 'custom'):
    @contract('hypergraph_Gnm[%s]' % _method, ['P15', 'P27'], [HG + ':hypergraph_Gnm'])
    def _(ex, method=_method):
        n, m = isym(ex, 'num_v', 2), isym(ex, 'num_e', 1)
        made = builders(ex, 'Hypergraph')
        ok = lambda s: and_(le(const(2), s), le(s, n))
        drawing(ex, n, m, ok)
        kw = {}
        ex.suite.summaries['dhg.utils.math:C'] = C_summary
        if method == 'custom':
            q = fresh('q')
            kw['prob_k_list'] = ListV((Loop(q, sub(n, ONE), (Item(app('given_prob', q, sort='R')),)),), frozen='the given probabilities')
            ex.th.axiom('given_prob', lambda p: [le(RZERO, app('given_prob', p, sort='R'))])
            ex.assume(lt(RZERO, ssum(sub(n, ONE), lambda p: app('given_prob', p, sort='R'))))
        r = callq(ex, HG + ':hypergraph_Gnm', n, m, method, **kw)
        ns = built(ex, made, r, [n])
        if ns is not None and hyperedges(ex, ns, n, ok):
            ex.check('requested number of hyperedges', eq(nlen(ns), m))
        unchanged(ex)
