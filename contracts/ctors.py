"""Contracts of the constructors for callers: the content built from a list of edges, in closed form.

The closed forms are derived from the fold contracts of c01_mutators/c03_hyper by the lemmas proved in c13_conv
(`closed form` contracts): an edge is stored when some listed edge names it; with `sum` merging its weight is the sum of
the listed weights; without weights it is one; with any merging, an edge listed once has the listed weight."""
from contracts.c01_mutators import *
from contracts.hyper import *

CPAR = {GQ: ['num_v', 'e_list', 'e_weight', 'extra_selfloop', 'merge_op', 'device'], DQ: ['num_v', 'e_list', 'e_weight', 'extra_selfloop', 'merge_op', 'device'],
        BQ: ['num_u', 'num_v', 'e_list', 'e_weight', 'merge_op', 'device'], HQ: ['num_v', 'e_list', 'e_weight', 'v_weight', 'merge_op', 'device']}
CDEF = {'e_list': None, 'e_weight': None, 'extra_selfloop': False, 'v_weight': None, 'merge_op': 'mean'}


def pair(ex, x):
    """The two endpoints of a listed edge."""
    if isinstance(x, tuple) and len(x) == 2:
        return lift(x[0]), lift(x[1])
    ns = elements(ex, x)
    if len(ns) == 2 and all(isinstance(n, Item) for n in ns):
        return lift(ns[0].val), lift(ns[1].val)
    t = tlib.densify(ex, x if isinstance(x, (Tensor, tlib.RTensor)) else tlib.from_nodes(ex, ns))
    if isinstance(t, Tensor) and len(t.shape) == 1 and ex.entailed(eq(t.shape[0], const(2))):
        return t.fn(ZERO), t.fn(ONE)
    raise Unsupported('edge of another form')


def weighted_edges(ex, el, wl):
    """Skeleton of (a, b, w)."""
    ns = nohole(elements(ex, el)) if el is not None else ()
    if wl is None:
        return nmap(ns, lambda x: pair(ex, x) + (const(1, 'R'),))
    ws = nohole(elements(ex, wl))
    z = nzip(ns, ws)
    if z is None:
        z = lib.b_zip(ex, [ListV(ns), ListV(ws)], {}).nodes
        ex.check('as many weights as edges', eq(nlen(ns), nlen(ws)))
    return nmap(z, lambda x: pair(ex, x[0]) + (lift(x[1]),))


def matches(q, a, b, i, j):
    if q == GQ:
        return and_(lt(i, j), or_(and_(eq(a, i), eq(b, j)), and_(eq(a, j), eq(b, i))))
    if q == DQ:
        return and_(ne(i, j), eq(a, i), eq(b, j))
    return and_(eq(a, i), eq(b, j))


def listed(ns, match):
    """(some entry matches, number of matches, total weight of the matches)."""
    ls = list(leaves(ns))
    some = or_(*[exists(bs, and_(*(list(cs) + [match(v)]))) for bs, cs, v in ls])
    num = add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [match(v)])), ONE)) for bs, cs, v in ls]))
    tot = add(*([RZERO] + [sum_(bs, iverson(and_(*(list(cs) + [match(v)])), v[2])) for bs, cs, v in ls]))
    return some, num, tot


def bind_ctor(q, args, kw):
    a = dict(CDEF)
    a.update(zip(CPAR[q], args))
    a.update(kw)
    return a


def graph_ctor(q):
    def build(ex, args, kw):
        a = bind_ctor(q, args, kw)
        ns = weighted_edges(ex, a['e_list'], a['e_weight'])
        dims = (lift(a['num_u']), lift(a['num_v'])) if q == BQ else (lift(a['num_v']), lift(a['num_v']))
        ex.check('the constructor is given at least one vertex', and_(*[le(ONE, d) for d in dims]))
        for bs, cs, v in leaves(ns):
            rng = [x for b, h in bs for x in (le(ZERO, b), lt(b, h))] + list(cs)
            ex.check('edges handed to the constructor are in range', and_(le(ZERO, v[0]), lt(v[0], dims[0]), le(ZERO, v[1]), lt(v[1], dims[1])), hyps=rng)
        op, one = a['merge_op'], a['e_weight'] is None

        def get(match, ks):
            some, num, tot = listed(ns, match)
            if op == 'sum':
                return tot
            if one and op in ('mean', 'max'):
                return const(1, 'R')
            if not ex.check('weighted edges are listed once', le(num, ONE)):
                raise Unsupported('merged weights')
            return tot
        nm_ = uniq('built')
        E = MapState(INT_PAIR, lambda i, j: listed(ns, lambda v: matches(q, v[0], v[1], i, j))[0], lambda i, j: get(lambda v: matches(q, v[0], v[1], i, j), (i, j)), app(nm_ + '_n', sort='I'))
        S = MapState(INT, lambda i: listed(ns, lambda v: and_(eq(v[0], v[1]), eq(v[0], i)))[0] if q != BQ else FALSE, lambda i: get(lambda v: and_(eq(v[0], v[1]), eq(v[0], i)), (i,)), app(nm_ + '_sn', sort='I'))
        at = dict(_num_v=dims[1], _raw_e_dict=DictV(st=E), _raw_selfloop_dict=DictV(st=S) if q != BQ else DictV({}), _has_extra_selfloop=a['extra_selfloop'], device=a.get('device', dev()), cache=DictV({}))
        if q == BQ:
            at['_num_u'] = dims[0]
        o = obj(ex, q, **at)
        o.listed = ns
        return o
    return build


class HList:
    """What a hypergraph was built from."""

    def __init__(self, nodes, weights, op):
        self.nodes, self.weights, self.op = nodes, weights, op


def record_hyper(ex, args, kw):
    a = bind_ctor(HQ, args, kw)
    o = obj(ex, HQ, _num_v=lift(a['num_v']), device=a.get('device', dev()))
    o.built = HList(nohole(elements(ex, a['e_list'])) if a['e_list'] is not None else None, None if a['e_weight'] is None else nohole(elements(ex, a['e_weight'])), a['merge_op'])
    o.v_weight = a['v_weight']
    return o


def record_add(ex, args, kw):
    a = {'e_weight': None, 'merge_op': 'mean', 'group_name': 'main'}
    a.update(zip(['self', 'e_list', 'e_weight', 'merge_op', 'group_name'], args))
    a.update(kw)
    h = HList(nohole(elements(ex, a['e_list'])), None if a['e_weight'] is None else nohole(elements(ex, a['e_weight'])), a['merge_op'])
    h.target, h.group = a['self'], a['group_name']
    ex.__dict__.setdefault('added', []).append(h)
    return None


def use_ctors(ex, *quals):
    for q in quals:
        ex.suite.summaries[q] = record_hyper if q == HQ else graph_ctor(q)
        ex.disabled.discard(q)
