"""P16: edge lists, adjacency lists, relabelling."""
from pyvc.spec import *
from pyvc import lib
from contracts.structs import elements
from contracts.hyper import nodes_same

U = 'dhg.utils.structure'



def edges(ex, frozen='the caller edge list'):
    L = isym(ex, 'L', 0)
    a, b = (lambda p: app('a', lift(p), sort='I')), (lambda p: app('b', lift(p), sort='I'))
    p = fresh('p')
    return L, a, b, ListV((Loop(p, L, (Item((a(p), b(p))),)),), frozen=frozen)


def lines(ex, sort='I'):
    """Adjacency lists of any number and length."""
    n = isym(ex, 'lines', 0)
    ln, at = (lambda l: app('ln', lift(l), sort='I')), (lambda l, r: app('at', lift(l), lift(r), sort=sort))
    ex.th.axiom('ln', lambda l: [le(ZERO, ln(l))])
    l, r = fresh('l'), fresh('r')
    line = ListV((Loop(r, ln(l), (Item(at(l, r)),)),), frozen='a line of the caller list')
    return n, ln, at, ListV((Loop(l, n, (Item(line),)),), frozen='the caller adjacency list')


@contract('edge_list_to_adj_dict', ['P16'], [U + ':edge_list_to_adj_dict'])
def _(ex):
    L, a, b, lst = edges(ex)
    d = ex.call(getcls(ex, U + ':edge_list_to_adj_dict'), [lst], {})
    s = fresh('x')
    ks = lib.iter_nodes(ex, d)
    cnt = add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [eq(lift(k), s)])), ONE)) for bs, cs, k in leaves(ks)]))
    ex.check('every source is a key, once', eq(cnt, iverson(exists_(L, lambda p: eq(a(p), s)), ONE)))
    p = fresh('p')
    for bs, cs, (k, l) in leaves(lib.dict_items(ex, d)):
        nodes_same(ex, 'the targets of a source, in order', elements(ex, l), (Loop(p, L, (If(eq(a(p), lift(k)), (Item(b(p)),)),)),), hyps=list(cs) + [x for v, h in bs for x in (le(ZERO, v), lt(v, h))])
    unchanged(ex)


def pairs_in(ex, ns, s, t):
    """How many (s, t) pairs adjacency lists hold (entry 0 of a line is the source)."""
    out = []
    for bs, cs, line in leaves(ns):
        els = nohole(elements(ex, line))
        head, rest = els[0], els[1:]
        if not isinstance(head, Item):
            raise Unsupported('line of another form')
        for b2, c2, x in leaves(rest):
            out.append(sum_(tuple(bs) + tuple(b2), iverson(and_(*(list(cs) + list(c2) + [eq(lift(head.val), s), eq(lift(x), t)])), ONE)))
    return add(*([ZERO] + out))


@contract('edge_list_to_adj_list', ['P16'], [U + ':edge_list_to_adj_list', U + ':edge_list_to_adj_dict'])
def _(ex):
    L, a, b, lst = edges(ex)
    r = ex.call(getcls(ex, U + ':edge_list_to_adj_list'), [lst], {})
    s, t = fresh('x'), fresh('x')
    ns = lib.iter_nodes(ex, r)
    ex.check('every pair is kept with its multiplicity', eq(pairs_in(ex, ns, s, t), ssum(L, lambda p: iverson(and_(eq(a(p), s), eq(b(p), t)), ONE))))
    heads = add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [eq(lift(elements(ex, l)[0].val), s)])), ONE)) for bs, cs, l in leaves(ns)]))
    ex.check('one line per source', eq(heads, iverson(exists_(L, lambda p: eq(a(p), s)), ONE)))
    for bs, cs, l in leaves(ns):
        els = nohole(elements(ex, l))
        p = fresh('p')
        nodes_same(ex, 'the targets of a source, in order', els[1:], (Loop(p, L, (If(eq(a(p), lift(els[0].val)), (Item(b(p)),)),)),), hyps=list(cs) + [x for v, h in bs for x in (le(ZERO, v), lt(v, h))])
    unchanged(ex)


@contract('adj_list_to_edge_list', ['P16'], [U + ':adj_list_to_edge_list'])
def _(ex):
    n, ln, at, lst = lines(ex)
    r = ex.call(getcls(ex, U + ':adj_list_to_edge_list'), [lst], {})
    ns = lib.iter_nodes(ex, r)
    l, q = fresh('l'), fresh('r')
    s, t = fresh('x'), fresh('x')
    got = add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [eq(lift(v[0]), s), eq(lift(v[1]), t)])), ONE)) for bs, cs, v in leaves(ns)]))
    ex.check('exactly the pairs of the lines', eq(got, sum_(((l, n), (q, add(ln(l), const(-1)))), iverson(and_(eq(at(l, ZERO), s), eq(at(l, add(q, ONE)), t)), ONE))))
    l, q = fresh('l'), fresh('r')
    nodes_same(ex, 'in order', ns, (Loop(l, n, (If(lt(ONE, ln(l)), (Loop(q, add(ln(l), const(-1)), (Item((at(l, ZERO), at(l, add(q, ONE)))),)),)),)),))
    unchanged(ex)


@contract('edge list to adjacency list and back', ['P16'], [U + ':edge_list_to_adj_list', U + ':adj_list_to_edge_list'])
def _(ex):
    L, a, b, lst = edges(ex)
    r = ex.call(getcls(ex, U + ':adj_list_to_edge_list'), [ex.call(getcls(ex, U + ':edge_list_to_adj_list'), [lst], {})], {})
    s, t = fresh('x'), fresh('x')
    got = add(*([ZERO] + [sum_(bs, iverson(and_(*(list(cs) + [eq(lift(v[0]), s), eq(lift(v[1]), t)])), ONE)) for bs, cs, v in leaves(lib.iter_nodes(ex, r))]))
    ex.check('the same pairs with the same multiplicity', eq(got, ssum(L, lambda p: iverson(and_(eq(a(p), s), eq(b(p), t)), ONE))))
    unchanged(ex)
