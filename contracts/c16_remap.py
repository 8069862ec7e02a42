"""P16: relabelling of edge lists and adjacency lists. Every label is numbered by its text; the numbers of a map are
0, 1, 2, ..., one per label; the relabelled lists have the shape of the given ones."""
from pyvc.spec import *
from pyvc import lib
from pyvc.core import Star
from contracts.structs import elements
from contracts.hyper import nodes_same

U = 'dhg.utils.structure'


def given(ex, adj, many, bip):
    """The argument, and its (binder, bound) lists with the text of the entry for the two sides."""
    pre = []
    K = isym(ex, 'lists', 0) if many else None
    t = fresh('t')
    out = [(t, K)] if many else []
    P = (lambda: (t,)) if many else (lambda: ())
    n = app('n', *P(), sort='I')
    ex.th.axiom('n', lambda *a: [le(ZERO, app('n', *a, sort='I'))])
    l, r = fresh('l'), fresh('r')
    ln = app('ln', *(P() + (l,)), sort='I')
    ex.th.axiom('ln', lambda *a: [le(ONE if bip else ZERO, app('ln', *a, sort='I'))])
    at = lambda i: app('at', *(P() + (l, lift(i))), sort='I')
    if bip and not adj:
        line = (at(0), at(1))
        sides = [((), at(0)), ((), at(1))]
    else:
        line = ListV((Loop(r, ln, (Item(at(r)),)),), frozen='a line of the caller list')
        if bip:
            q = fresh('r')
            sides = [((), at(0)), (((q, add(ln, const(-1))),), at(add(q, ONE)))]
        else:
            sides = [(((r, ln),), at(r))]
    lst = ListV((Loop(l, n, (Item(line),)),), frozen='the caller list')
    base = ([(t, K)] if many else []) + [(l, n)]
    if many:
        lst = ListV((Loop(t, K, (Item(lst),)),))
    return lst, [(tuple(base) + tuple(bs), app('str', x, sort='U')) for bs, x in sides]


def deep(ex, v):
    """Nested list as nested skeletons with numbers at the leaves: [(binders, conditions, value)]."""
    out = []

    def go(bs, cs, x):
        if isinstance(x, (ListV, tuple)) or hasattr(x, 'nodes'):
            ns = nohole(elements(ex, x)) if not isinstance(x, tuple) else tuple(Item(y) for y in x)
            for k, nd in enumerate(ns):
                for b2, c2, y in leaves((nd,)):
                    go(bs + tuple(b2), cs + tuple(c2), y)
        else:
            out.append((bs, cs, lift(x)))
    go((), (), v)
    return out


def case(ex, name, adj, many, bip):
    f = getcls(ex, U + ':' + name)
    lst, sides = given(ex, adj, many, bip)
    args = [Star(lst)] if many else [lst]
    full = ex.call(f, args, {'bipartite_graph': bip, 'ret_map': True})
    if not isinstance(full, tuple) or len(full) != 1 + len(sides):
        ex.structural('the list and %d map%s' % (len(sides), 's' if len(sides) > 1 else ''), isinstance(full, tuple) and len(full) == 1 + len(sides))
        return
    res, maps = full[0], full[1:]
    s, i = fresh('x', 'U'), fresh('i')
    for (bs, txt), m, nm in zip(sides, maps, ('u', 'v') if bip else ('',)):
        its = list(leaves(lib.dict_items(ex, m)))
        cnt = lambda c: add(*([ZERO] + [sum_(b, iverson(and_(*(list(cs) + [c(k, v)])), ONE)) for b, cs, (k, v) in its]))
        have = exists(bs, eq(txt, s))
        ex.check('the map %s has every label once and no other' % nm, eq(cnt(lambda k, v: eq(lift(k), s)), iverson(have, ONE)))
        size = cnt(lambda k, v: TRUE)
        ex.check('the map %s uses the numbers from 0, each once' % nm, eq(cnt(lambda k, v: eq(lift(v), i)), iverson(and_(le(ZERO, i), lt(i, size)), ONE)))
    # the relabelled entries, in place
    vals = deep(ex, res)
    if len(vals) != len(sides):
        ex.undecided('the relabelled list', 'of another form')
        return
    for (bs, txt), (b2, c2, v), m, nm in zip(sides, vals, maps, ('u', 'v') if bip else ('',)):
        if len(bs) != len(b2) or c2:
            ex.undecided('the relabelled list', 'differently nested')
            return
        mp, hyps = {}, []
        for (x, hx), (y, hy) in zip(bs, b2):
            mp[y] = x
            ex.check('the shape is kept', eq(subst(hy, mp), hx), hyps=hyps)
            hyps += [le(ZERO, x), lt(x, hx)]
        w = subst(v, mp)
        its = list(leaves(lib.dict_items(ex, m)))
        ex.check('every entry %s becomes the number of its label' % nm, eq(add(*([ZERO] + [sum_(b, iverson(and_(*(list(cs) + [eq(lift(k), txt), eq(lift(x), w)])), ONE)) for b, cs, (k, x) in its])), ONE), hyps=hyps)
    plain = ex.call(f, args, {'bipartite_graph': bip})
    vals2 = deep(ex, plain)
    if len(vals2) != len(vals):
        ex.undecided('without the map', 'of another form')
    for (b1, c1, v1), (b2, c2, v2) in zip(vals, vals2):
        mp, hyps = {}, []
        if len(b1) != len(b2) or c1 or c2:
            ex.undecided('without the map', 'of another form')
            continue
        for (x, hx), (y, hy) in zip(b1, b2):
            mp[y] = x
            ex.check('without the map: the same shape', eq(subst(hy, mp), hx), hyps=hyps)
            hyps += [le(ZERO, x), lt(x, hx)]
        ex.check('without the map: the same numbers', eq(subst(v2, mp), v1), hyps=hyps)
    unchanged(ex)


for adj in (False, True):
    for many in (False, True):
        for bip in (False, True):
            nm = ('remap_adj_list' if adj else 'remap_edge_list') + ('s' if many else '')

            @contract('%s%s' % (nm, ', bipartite' if bip else ''), ['P16'], [U + ':' + nm])
            def _(ex, nm=nm, adj=adj, many=many, bip=bip):
                case(ex, nm, adj, many, bip)
