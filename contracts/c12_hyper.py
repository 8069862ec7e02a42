"""P12: degrees, sizes and neighbour queries of hypergraphs; P03/P04: plain accessors."""
from contracts.hyper import *
from contracts.c11_hyper import begin, call, hname, Side


def vertex(ex, c, name='v'):
    v = isym(ex, name, 0)
    ex.assume(lt(v, c.n))
    return v


# ---------------------------------------------------------------- sizes and plain accessors
@contract('Hypergraph accessors', ['P12', 'P03', 'P04'], [HQ + '.' + k for k in ('num_v', 'num_e', 'v', 'v_weight', 'num_groups', 'group_names', 'num_e_of_group')] + [BH + '.' + k for k in ('num_v', 'num_e', 'v', 'num_groups', 'group_names', 'num_e_of_group')])
def accessors(ex):
    o, g = begin(ex, True)
    c = content(ex, o)
    snap = snapshot(o)
    ex.check('num_v', eq(lift(ex.getattr(o, 'num_v')), c.n))
    list_eq(ex, 'v', ex.getattr(o, 'v'), c.n, lambda i: i)
    list_eq(ex, 'v_weight', ex.getattr(o, 'v_weight'), c.n, c.vweight)
    ex.check('num_groups', eq(lift(ex.getattr(o, 'num_groups')), c.G.gn))
    ex.check('num_e is the number of stored hyperedges', eq(lift(ex.getattr(o, 'num_e')), c.m))
    ex.check('num_e_of_group is the number of hyperedges of the group', eq(lift(ex.call(ex.getattr(o, 'num_e_of_group'), [g], {})), c.ne(g)))
    got = ex.getattr(o, 'group_names')
    q = fresh('q')
    nodes_same(ex, 'group_names', lib.iter_nodes(ex, got), (Loop(q, c.G.gn, (Item(c.gname(q)),)),))
    same_content(ex, o, snap)
    cache_valid(ex, o)
    unchanged(ex)


def degrees(key, grp):
    def run(ex):
        o, g = begin(ex, grp)
        c = content(ex, o)
        snap = snapshot(o)
        if key == 'deg_v':
            n, f = c.n, (lambda i: c.Dv(g, i)) if grp else c.aDv
        else:
            n, f = (c.ne(g), lambda p: c.De(g, p)) if grp else (c.m, c.aDe)
        got = ex.call(ex.getattr(o, key + '_of_group'), [g], {}) if grp else ex.getattr(o, key)
        list_eq(ex, key, got, n, lambda i: R_(f(i)))
        same_content(ex, o, snap)
        unchanged(ex)
    contract('Hypergraph.%s' % hname(key, grp), ['P12', 'P09'], ['%s.%s' % (HQ, hname(key, grp))])(run)


for _k in ('deg_v', 'deg_e'):
    for _g in (False, True):
        degrees(_k, _g)


# ---------------------------------------------------------------- neighbours in one group
@contract('Hypergraph.N_e_of_group/nbr_e_of_group', ['P12'], [HQ + '.N_e_of_group', HQ + '.nbr_e_of_group'])
def ne_group(ex):
    o, g = begin(ex, True)
    c = content(ex, o)
    v = vertex(ex, c)
    snap = snapshot(o)
    for k in ('N_e_of_group', 'nbr_e_of_group'):
        got = ex.call(ex.getattr(o, k), [v, g], {})
        members_once(ex, k, got, c.ne(g), lambda p: c.Hpat(g, v, p))
    same_content(ex, o, snap)
    cache_valid(ex, o)
    unchanged(ex)


@contract('Hypergraph.N_v_of_group/nbr_v_of_group', ['P12'], [HQ + '.N_v_of_group', HQ + '.nbr_v_of_group'])
def nv_group(ex):
    o, g = begin(ex, True)
    c = content(ex, o)
    e = isym(ex, 'e', 0)
    ex.assume(lt(e, c.ne(g)))
    snap = snapshot(o)
    for k in ('N_v_of_group', 'nbr_v_of_group'):
        got = ex.call(ex.getattr(o, k), [e, g], {})
        members_once(ex, k, got, c.n, lambda i: c.Hpat(g, i, e))
    same_content(ex, o, snap)
    cache_valid(ex, o)
    unchanged(ex)


# ---------------------------------------------------------------- neighbours over all groups
@contract('Hypergraph.N_e/nbr_e', ['P12'], [HQ + '.N_e', HQ + '.nbr_e'])
def ne_all(ex):
    o, _ = begin(ex, False)
    c = content(ex, o)
    v = vertex(ex, c)
    snap = snapshot(o)
    for k in ('N_e', 'nbr_e'):
        got = ex.call(ex.getattr(o, k), [v], {})
        q, p, u = fresh('q'), fresh('p'), fresh('u')
        off = sum_(((u, q),), c.ne(c.gname(u)))
        want = (Loop(q, c.G.gn, (Loop(p, c.ne(c.gname(q)), (If(c.Hpat(c.gname(q), v, p), (Item(add(off, p)),)),)),)),)
        nodes_same(ex, '%s lists the positions of the hyperedges containing the vertex, group after group' % k, elements(ex, got), want)
    same_content(ex, o, snap)
    cache_valid(ex, o)
    unchanged(ex)


class Locate(LoopSpec):
    """Search for the group of an overall position: the remaining index is the position minus the sizes of the groups passed."""

    def __init__(self, c, e):
        self.c, self.e, self.hit = c, e, False

    def match(self, ex, loop, locs, frame):
        return bool(self.locs(locs))

    def locs(self, locs):
        out = [l for l in locs.values() if isinstance(l.old, Term) and l.old is self.e]
        self.loc = out[0] if len(out) == 1 else None
        return out if len(out) == 1 else []

    def left(self, v):
        u = fresh('u')
        return add(self.e, neg(sum_(((u, lift(v)),), self.c.ne(self.c.gname(u)))))

    def init(self, ex, v, hi):
        ex.check('group search: the index starts in range', le(ZERO, self.e))

    def enter(self, ex, v):
        self.loc.put(ex, self.left(v))
        ex.assume(le(ZERO, self.left(v)))

    def leave(self, ex, v):
        got = lift(self.loc.get())
        ex.check('group search: one step subtracts the size of the group', eq(got, add(self.left(v), neg(self.c.ne(self.c.gname(v))))))
        ex.check('group search: the index stays in range', le(ZERO, got))

    def finish(self, ex, n):
        self.loc.put(ex, self.left(n))
        ex.assume(le(ZERO, self.left(n)))

    def exit(self, ex, w, path):
        c, self.hit = self.c, True
        p = c.at(self.e)[1]
        nm = p.args[0][:-2]
        q = app(nm + '_q', self.e, sort='I')
        pos = app(nm + '_pos', lift(w), self.left(w), sort='I')
        has = and_(le(ZERO, lift(w)), lt(lift(w), c.G.gn), le(ZERO, self.left(w)), lt(self.left(w), c.ne(c.gname(w))))
        if ex.check('group search: the group found holds the position', and_(has, eq(pos, self.e))):
            # equal positions have equal group and index (congruence; the group at position pos(w, l) is w, its index l)
            ex.assume(and_(eq(q, app(nm + '_q', pos, sort='I')), eq(p, app(nm + '_p', pos, sort='I'))))


@contract('Hypergraph.N_v/nbr_v', ['P12'], [HQ + '.N_v', HQ + '.nbr_v'])
def nv_all(ex):
    o, _ = begin(ex, False)
    c = content(ex, o)
    e = isym(ex, 'e', 0)
    ex.assume(lt(e, c.m))
    sp = Locate(c, e)
    ex.loop_specs.append(sp)
    snap = snapshot(o)
    for k in ('N_v', 'nbr_v'):
        sp.hit = False
        got = ex.call(ex.getattr(o, k), [e], {})
        if not sp.hit:
            ex.undecided('%s: group search' % k, 'the search for the group has another form')
            continue
        members_once(ex, '%s lists the vertices of the hyperedge' % k, got, c.n, lambda i: c.aHpat(i, e))
    same_content(ex, o, snap)
    cache_valid(ex, o)
    unchanged(ex)


# ---------------------------------------------------------------- rejected queries
@contract('Hypergraph neighbour queries reject unknown elements', ['P12'], [HQ + '.' + k for k in ('N_e', 'N_v', 'N_e_of_group', 'N_v_of_group', 'nbr_e_of_group', 'nbr_v_of_group', 'deg_v_of_group', 'deg_e_of_group')])
def rejects(ex):
    o, g = begin(ex, True)
    c = content(ex, o)
    h = app('unknown', sort='U')
    ex.assume(not_(c.G.ghas(h)))
    v, e, big = vertex(ex, c), isym(ex, 'e', 0), isym(ex, 'big', 0)
    bad = lambda label, f: (lambda k: (ex.ok if k else ex.fail)(label, 'structural' if k else 'accepted'))(raises(ex, f)[0])
    m = lambda k, *a: (lambda: ex.call(ex.getattr(o, k), list(a), {}))
    ex.assume(le(c.n, big))
    bad('N_e: vertex out of range', m('N_e', big))
    bad('N_e_of_group: vertex out of range', m('N_e_of_group', big, g))
    ex.assume(le(c.m, e))
    bad('N_v: hyperedge out of range', m('N_v', e))
    e2 = isym(ex, 'e2', 0)
    ex.assume(le(c.ne(g), e2))
    bad('N_v_of_group: hyperedge out of range', m('N_v_of_group', e2, g))
    for k in ('N_e_of_group', 'nbr_e_of_group', 'N_v_of_group', 'nbr_v_of_group'):
        bad('%s: unknown group' % k, m(k, ZERO, h))
    for k in ('deg_v_of_group', 'deg_e_of_group'):
        bad('%s: unknown group' % k, m(k, h))
