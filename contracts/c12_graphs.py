"""P12: degree and neighbour queries of graphs; P04: plain accessors."""
from contracts.structs import *


class WalkRec(LoopSpec):
    """State of the k-hop loop: after l iterations the running product has the pattern of walks of length l + 1."""

    def __init__(self, c, n):
        self.c, self.n = c, n

    def match(self, ex, loop, locs, frame):
        return bool(self.locs(locs))

    def locs(self, locs):
        out = [l for l in locs.values() if isinstance(l.old, Sparse)]
        self.loc = out[0] if len(out) == 1 else None
        return out if len(out) == 1 else []

    def state(self, l):
        return PatMatrix(self.c.dims, lambda i, j: walk(self.c, l, i, j)).mk(None)

    def init(self, ex, v, hi):
        PatMatrix(self.c.dims, self.c.Apat).check(ex, 'k-hop loop: starts at the adjacency pattern', self.loc.old)

    def enter(self, ex, v):
        c, l = self.c, add(v, ONE)
        self.loc.put(ex, PatMatrix(c.dims, lambda i, j: ite_b(eq(v, ZERO), c.Apat(i, j), walk(c, l, i, j))).mk(ex))
        self.cur = lambda i, j: ite_b(eq(v, ZERO), c.Apat(i, j), walk(c, l, i, j))

    def leave(self, ex, v):
        c = self.c
        PatMatrix(c.dims, lambda i, j: exists_(c.n, lambda k: and_(self.cur(i, k), c.Apat(k, j)))).check(ex, 'k-hop loop: one iteration extends every walk by one edge', self.loc.get())

    def finish(self, ex, n):
        self.loc.put(ex, self.state(add(lift(n), ONE)))


def ite_b(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


@contract('Graph.N_v one hop', ['P12'], [GQ + '.N_v', GQ + '.nbr_v'])
def nv1(ex):
    g = mk_graph(ex)
    c = content(ex, g)
    v = isym(ex, 'v', 0)
    ex.assume(lt(v, c.n))
    snap = snapshot(g)
    got = ex.call(ex.getattr(g, 'N_v'), [v], {})
    members_once(ex, 'N_v', got, c.n, lambda j: c.Apat(v, j))
    got = ex.call(ex.getattr(g, 'nbr_v'), [v], {})
    members_once(ex, 'nbr_v', got, c.n, lambda j: c.Apat(v, j))
    same_content(ex, g, snap)
    cache_valid(ex, g)
    unchanged(ex)


@contract('Graph.N_v k hops', ['P12', 'P04'], [GQ + '.N_v', GQ + '.nbr_v'])
def nvk(ex):
    g = mk_graph(ex)
    c = content(ex, g)
    v, h = isym(ex, 'v', 0), isym(ex, 'hop', 2)
    ex.assume(lt(v, c.n))
    ex.loop_specs.append(WalkRec(c, h))
    snap = snapshot(g)
    got = ex.call(ex.getattr(g, 'N_v'), [v, h], {})
    members_once(ex, 'vertices reachable by a walk of exactly hop edges', got, c.n, lambda j: walk(c, h, v, j))
    same_content(ex, g, snap)
    cache_valid(ex, g)
    unchanged(ex)


@contract('Graph.N_v rejects hop < 1', ['P12'], [GQ + '.N_v'])
def nv0(ex):
    g = mk_graph(ex)
    v, h = isym(ex, 'v', 0), isym(ex, 'hop')
    ex.assume(lt(v, content(ex, g).n))
    ex.assume(lt(h, ONE))
    k, _ = raises(ex, lambda: ex.call(ex.getattr(g, 'N_v'), [v, h], {}))
    (ex.ok if k else ex.fail)('rejected', 'structural' if k else 'accepted')


def nbr(q, names, dim, n, member):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        v = isym(ex, 'v', 0)
        ex.assume(lt(v, dim(c)))
        snap = snapshot(g)
        for k in names:
            got = ex.call(ex.getattr(g, k), [v], {})
            members_once(ex, k, got, n(c), lambda j: member(c, v, j))
        same_content(ex, g, snap)
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.%s' % (q.split(':')[1], names[0]), ['P12'], [q + '.' + k for k in names])(run)


nbr(DQ, ('N_v_out', 'nbr_v_out'), lambda c: c.n, lambda c: c.n, lambda c, v, j: c.Apat(v, j))
nbr(DQ, ('N_v_in', 'nbr_v_in'), lambda c: c.n, lambda c: c.n, lambda c, v, j: c.Apat(j, v))
nbr(BQ, ('N_v', 'nbr_v'), lambda c: c.nu, lambda c: c.nv, lambda c, v, j: c.Bpat(v, j))
nbr(BQ, ('N_u', 'nbr_u'), lambda c: c.nv, lambda c: c.nu, lambda c, v, j: c.Bpat(j, v))


def degrees(q, name, n, f, props=('P12',)):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        snap = snapshot(g)
        got = ex.getattr(g, name)
        list_eq(ex, name, got, n(c), lambda i: f(c, i))
        same_content(ex, g, snap)
        unchanged(ex)
    contract('%s.%s' % (q.split(':')[1], name), list(props), ['%s.%s' % (q, name)])(run)


degrees(GQ, 'deg_v', lambda c: c.n, lambda c, i: c.D(i), ('P12', 'P07'))
degrees(DQ, 'deg_v_in', lambda c: c.n, lambda c, i: c.D_in(i), ('P12', 'P08'))
degrees(DQ, 'deg_v_out', lambda c: c.n, lambda c, i: c.D_out(i), ('P12', 'P08'))
degrees(BQ, 'deg_u', lambda c: c.nu, lambda c, i: c.D_u(i), ('P12', 'P08'))
degrees(BQ, 'deg_v', lambda c: c.nv, lambda c, i: c.D_v(i), ('P12', 'P08'))


def accessors(q):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        nv = c.nv if q == BQ else c.n
        ex.check('num_v', eq(lift(ex.getattr(g, 'num_v')), nv))
        list_eq(ex, 'v', ex.getattr(g, 'v'), nv, lambda i: i)
        ex.check('num_e', eq(lift(ex.getattr(g, 'num_e')), c.num_e()))
        if q == BQ:
            ex.check('num_u', eq(lift(ex.getattr(g, 'num_u')), c.nu))
            list_eq(ex, 'u', ex.getattr(g, 'u'), c.nu, lambda i: i)
        unchanged(ex)
    contract('%s accessors' % q.split(':')[1], ['P02' if q != GQ else 'P01', 'P04'], [q + '.' + k for k in ('num_v', 'v', 'num_e')] + [BG + '.' + k for k in ('num_v', 'v', 'num_e')] + ([BQ + '.u', BQ + '.num_u'] if q == BQ else []))(run)


for _q in (GQ, DQ, BQ):
    accessors(_q)
