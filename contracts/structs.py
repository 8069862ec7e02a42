"""Specification of the structures: abstract content, defining formulas, representation and cache invariants, symbolic instances.

content:   Content reads the representation fields of an object; the formulas below are written over it only.
cache:     CacheV stands for an arbitrary cache satisfying the invariant `every entry equals its formula over the content`;
           a hit yields a value satisfying the formula over the content the cache was created for, a miss yields nothing.
summaries: a property read is replaced by its formula after checking that the cache invariant holds for that object.
"""
from pyvc.spec import *
from pyvc.lib import HostObj, HostFn

GQ = 'dhg.structure.graphs.graph:Graph'
DQ = 'dhg.structure.graphs.directed_graph:DiGraph'
BQ = 'dhg.structure.graphs.bipartite_graph:BiGraph'
HQ = 'dhg.structure.hypergraphs.hypergraph:Hypergraph'
BG = 'dhg.structure.base:BaseGraph'
BH = 'dhg.structure.base:BaseHypergraph'

inv0 = lambda t: app('inv0', t, sort='R')
rs0 = lambda t: app('rsqrt0', t, sort='R')
neg = lambda t: mul(const(-1), t)


def tb(x):
    return x if isinstance(x, Term) else const(bool(x))


def mapstate(ex, d):
    """Functional view of a dictionary value."""
    lib.norm_dict(ex, d)
    return d


class MapView:
    """has/get over a DictV with integer-pair or integer keys."""

    def __init__(self, ex, d, ar):
        lib.norm_dict(ex, d)
        self.ex, self.ar = ex, ar
        self.st = d.st
        self.items = None if d.d is None else list(d.d.items())

    def key(self, k):
        return k if isinstance(k, tuple) else (k,)

    def has(self, *a):
        if self.st is not None:
            return self.st.has(*a)
        return or_(*[and_(*[eq(lift(x), y) for x, y in zip(self.key(k), a)]) for k, _ in self.items])

    def get(self, *a):
        if self.st is not None:
            return self.st.get(*a)
        r = RZERO
        for k, v in self.items:
            r = ite(and_(*[eq(lift(x), y) for x, y in zip(self.key(k), a)]), lift(v), r)
        return r

    def len(self):
        return self.st.n if self.st is not None else const(len(self.items))

    def nodes(self):
        if self.st is not None:
            return self.st.nodes(self.ex.th)
        return tuple(Item(kv) for kv in self.items)

    def ident(self):
        return id(self.st) if self.st is not None else tuple((k, v if not isinstance(v, Term) else v.id) for k, v in self.items)


# ------------------------------------------------------------------------------------------- simple graphs
class GraphContent:
    kind = 'graph'

    def __init__(self, ex, o):
        a = o.attrs
        self.ex = ex
        self.n = lift(a['_num_v'])
        self.E = MapView(ex, a['_raw_e_dict'], 2)
        self.S = MapView(ex, a['_raw_selfloop_dict'], 1)
        self.X = tb(a['_has_extra_selfloop'])
        self.dims = (self.n, self.n)

    def ident(self):
        return (self.n.id, self.E.ident(), self.S.ident(), self.X.id)

    def w(self, i, j):
        """Weight of the (off-diagonal) edge entered as (i, j)."""
        return iverson(self.E.has(i, j), self.E.get(i, j))

    def A(self, i, j):
        i, j = lift(i), lift(j)
        return add(self.w(i, j), self.w(j, i), iverson(eq(i, j), add(iverson(self.S.has(i), self.S.get(i)), iverson(self.X, ONE))))

    def Apat(self, i, j):
        i, j = lift(i), lift(j)
        return or_(self.E.has(i, j), self.E.has(j, i), and_(eq(i, j), or_(self.S.has(i), self.X)))

    def D(self, i):
        return ssum(self.n, lambda j: self.A(i, j))

    def A0(self, i, j):
        i, j = lift(i), lift(j)
        return add(self.w(i, j), self.w(j, i))

    def D0(self, i):
        return ssum(self.n, lambda j: self.A0(i, j))

    def A1(self, i, j):
        """With one extra self-loop on every vertex."""
        i, j = lift(i), lift(j)
        return add(self.A0(i, j), iverson(eq(i, j), add(iverson(self.S.has(i), self.S.get(i)), ONE)))

    def D1(self, i):
        return ssum(self.n, lambda j: self.A1(i, j))

    def edge_nodes(self):
        """Reported edges: stored edges, self-loops, extra self-loops."""
        ns = nmap(self.E.nodes(), lambda kv: ((lift(kv[0][0]), lift(kv[0][1])), lift(kv[1])))
        ns += nmap(self.S.nodes(), lambda kv: ((lift(kv[0]), lift(kv[0])), lift(kv[1])))
        ns += if_nodes(self.X, ntensor(self.n, lambda q: ((q, q), const(1, 'R'))))
        return ns

    def both_nodes(self):
        return self.edge_nodes() + nrefresh(nmap(self.E.nodes(), lambda kv: ((lift(kv[0][1]), lift(kv[0][0])), lift(kv[1]))))

    def count(self, a, b):
        """Multiplicity of (a, b) in the reported edge list, and its total weight."""
        d = eq(a, b)
        return add(iverson(self.E.has(a, b)), iverson(d, add(iverson(self.S.has(a)), iverson(self.X))))

    def weight(self, a, b):
        d = eq(a, b)
        return add(self.w(a, b), iverson(d, add(iverson(self.S.has(a), self.S.get(a)), iverson(self.X, ONE))))

    def num_e(self):
        return add(self.E.len(), self.S.len(), iverson(self.X, self.n))


def if_nodes(c, nodes):
    if c is TRUE:
        return tuple(nodes)
    if c is FALSE:
        return ()
    return (If(c, nodes),)


class DiContent:
    kind = 'digraph'

    def __init__(self, ex, o):
        a = o.attrs
        self.ex = ex
        self.n = lift(a['_num_v'])
        self.E = MapView(ex, a['_raw_e_dict'], 2)
        self.S = MapView(ex, a['_raw_selfloop_dict'], 1)
        self.X = tb(a['_has_extra_selfloop'])
        self.dims = (self.n, self.n)

    ident = GraphContent.ident
    w = GraphContent.w
    edge_nodes = GraphContent.edge_nodes
    count = GraphContent.count
    weight = GraphContent.weight
    num_e = GraphContent.num_e

    def A(self, i, j):
        return self.weight(lift(i), lift(j))

    def Apat(self, i, j):
        i, j = lift(i), lift(j)
        return or_(self.E.has(i, j), and_(eq(i, j), or_(self.S.has(i), self.X)))

    def D_out(self, i):
        return ssum(self.n, lambda j: self.A(i, j))

    def D_in(self, i):
        return ssum(self.n, lambda j: self.A(j, i))


class BiContent:
    kind = 'bigraph'

    def __init__(self, ex, o):
        a = o.attrs
        self.ex = ex
        self.nu, self.nv = lift(a['_num_u']), lift(a['_num_v'])
        self.n = add(self.nu, self.nv)
        self.E = MapView(ex, a['_raw_e_dict'], 2)
        self.dims = (self.nu, self.nv)

    def ident(self):
        return (self.nu.id, self.nv.id, self.E.ident())

    w = GraphContent.w

    def B(self, i, j):
        return self.w(lift(i), lift(j))

    def Bpat(self, i, j):
        return self.E.has(lift(i), lift(j))

    def A(self, i, j):
        i, j = lift(i), lift(j)
        sh = lambda x: add(x, neg(self.nu))
        return add(iverson(and_(lt(i, self.nu), le(self.nu, j)), self.w(i, sh(j))), iverson(and_(lt(j, self.nu), le(self.nu, i)), self.w(j, sh(i))))

    def Apat(self, i, j):
        i, j = lift(i), lift(j)
        sh = lambda x: add(x, neg(self.nu))
        return or_(and_(lt(i, self.nu), le(self.nu, j), self.E.has(i, sh(j))), and_(lt(j, self.nu), le(self.nu, i), self.E.has(j, sh(i))))

    def D_u(self, i):
        return ssum(self.nv, lambda j: self.B(i, j))

    def D_v(self, j):
        return ssum(self.nu, lambda i: self.B(i, j))

    def A1(self, i, j):
        return add(self.A(i, j), iverson(eq(lift(i), lift(j)), ONE))

    def D1(self, i):
        """Row sum of A + I: by blocks."""
        i = lift(i)
        return add(ONE, ite(lt(i, self.nu), self.D_u(i), self.D_v(add(i, neg(self.nu)))))

    def edge_nodes(self):
        return nmap(self.E.nodes(), lambda kv: ((lift(kv[0][0]), lift(kv[0][1])), lift(kv[1])))

    def count(self, a, b):
        return iverson(self.E.has(a, b))

    def weight(self, a, b):
        return self.w(a, b)

    def num_e(self):
        return self.E.len()


CONTENT = {GQ: GraphContent, DQ: DiContent, BQ: BiContent}


def content(ex, o):
    return CONTENT[o.cls.qual](ex, o)


# ------------------------------------------------------------------------------------------- specifications of cached values
class Matrix:
    """A sparse matrix given by its entries (and, if pat is given, its exact stored pattern)."""

    def __init__(self, dims, dense, pat=None, diag=False, coal=True):
        self.dims, self.dense, self.pat, self.diag, self.coal = dims, dense, pat, diag, coal     # coal=False: stored once, in unspecified order

    def mk(self, ex, frozen=None):
        d = self.dense
        if self.diag:
            n = self.dims[0]
            q = fresh('q')
            s = Sparse((Loop(q, n, (Item((q, q, d(q, q))),)),), self.dims, True, lambda i, j: iverson(eq(lift(i), lift(j)), d(lift(i), lift(i))), lambda i, j: eq(lift(i), lift(j)))
            s.nodes = (Loop(q, n, (Item((q, q, d(q, q))),)),)
        else:
            s = tlib.mk_sparse(self.dims, lambda i, j: d(lift(i), lift(j)), self.pat or (lambda i, j: app('somepat', lift(i), lift(j), sort='B')))
            if self.pat is None:
                s = None
        if s is None:
            s = tlib.mk_sparse(self.dims, lambda i, j: d(lift(i), lift(j)), unknown_pattern(ex, self.dims, d))
        s.coal = self.coal
        s.uniq_ = True
        s.frozen = frozen
        return s

    def check(self, ex, label, got):
        if not isinstance(got, Sparse):
            ex.fail(label, 'not a sparse matrix: %s' % type(got).__name__)
            return
        speq(ex, label, got, self.dims, self.dense)
        if self.pat is not None or self.diag:
            ix, rng = indices_for(self.dims)
            want = eq(ix[0], ix[1]) if self.diag else self.pat(*ix)
            g = got.pat(*ix)
            ex.check(label + ': stored positions', and_(or_(not_(g), want), or_(not_(want), g)), hyps=rng)
            if not (got.coal or (not self.coal and getattr(got, 'uniq_', False))) and got.pat(*ix) is not FALSE:
                ex.fail(label + ': coalesced', 'the stored matrix is not coalesced')
            else:
                ex.ok(label + ': coalesced')


def unknown_pattern(ex, dims, dense):
    """Stored pattern nothing is known about, except that every non-zero entry is stored."""
    nm = uniq('pat')

    def ax(i, j):
        return [implies(ne(dense(i, j), RZERO), app(nm, i, j, sort='B'))]
    ex.th.axiom(nm, ax)
    return lambda i, j: app(nm, lift(i), lift(j), sort='B')


class EdgeList:
    """A pair (edges, weights), position by position, with given multiset."""

    def __init__(self, nodes, count, weight, total, dims):
        self.nodes, self.count, self.weight, self.total, self.dims = nodes, count, weight, total, dims

    def mk(self, ex, frozen=None):
        ns = nrefresh(self.nodes)
        return (ListV(nmap(ns, lambda e: e[0]), frozen=frozen), ListV(nmap(ns, lambda e: e[1]), frozen=frozen))

    def check(self, ex, label, got):
        edge_list_is(ex, label, got, self.count, self.weight, self.total, self.dims)


def edge_list_is(ex, label, got, count, weight, total, dims):
    if not (isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, (ListV, SymTuple)) for x in got)):
        ex.fail(label, 'not a pair of lists')
        return
    z = nzip(got[0].nodes, got[1].nodes)
    if z is None:
        ex.undecided(label, 'edges and weights are not aligned by construction')
        return
    ex.check(label + ': length', eq(nlen(got[0].nodes), total))
    (a, b), rng = indices_for(dims)
    cnt, wt = ZERO, RZERO
    for bs, cs, (e, w) in leaves(z):
        if isinstance(e, ListV):
            e = tuple(n.val for n in e.nodes)
        c = and_(*(cs + [eq(lift(e[0]), a), eq(lift(e[1]), b)]))
        cnt = add(cnt, sum_(bs, iverson(c)))
        wt = add(wt, sum_(bs, iverson(c, lift(w))))
    ex.check(label + ': every edge exactly once', eq(cnt, count(a, b)), hyps=rng)
    ex.check(label + ': weights belong to their edges', eq(wt, weight(a, b)), hyps=rng)


def eye(i, j):
    return eq(lift(i), lift(j))


class PatMatrix:
    """A sparse matrix of which only the stored pattern is specified."""

    def __init__(self, dims, pat):
        self.dims, self.pat = dims, pat

    def mk(self, ex, frozen=None):
        nm = uniq('pv')
        s = tlib.mk_sparse(self.dims, lambda i, j: iverson(self.pat(i, j), app(nm, lift(i), lift(j), sort='R')), self.pat)
        s.frozen = frozen
        return s

    def check(self, ex, label, got):
        if not isinstance(got, Sparse):
            ex.fail(label, 'not a sparse matrix')
            return
        ex.check(label + ': shape', and_(*[eq(a, lift(b)) for a, b in zip(got.dims, self.dims)]))
        ix, rng = indices_for(self.dims)
        g, w = got.pat(*ix), self.pat(*ix)
        ex.check(label + ': stored positions', and_(or_(not_(g), w), or_(not_(w), g)), hyps=rng)


WALKS = {}


def walk_name(c):
    return WALKS.setdefault(c.ident(), 'walk%d' % len(WALKS))


def walk(c, l, i, j):
    """There is a walk of exactly l edges from i to j.  walk(1) is the adjacency pattern, walk(l+1)(i,j) = exists k. walk(l)(i,k) and adjacent(k,j)."""
    l = lift(l)
    if l is ONE:
        return c.Apat(i, j)
    return app(walk_name(c), l, lift(i), lift(j), sort='B')


def hop_cache(c):
    def f(k):
        if isinstance(k, Term) and k.op == 'app' and k.args[0] == 'fmt:A_{}':
            h = k.args[1]
            return PatMatrix(c.dims, lambda i, j: walk(c, h, i, j))
        return None
    return f


def graph_specs(c):
    n = c.n
    d = (n, n)
    dg = lambda f: Matrix(d, lambda i, j: iverson(eye(i, j), f(lift(i))), diag=True)
    both = lambda a, b: add(c.count(a, b), iverson(c.E.has(b, a)))
    bothw = lambda a, b: add(c.weight(a, b), c.w(b, a))
    return {
        '?': hop_cache(c),
        'e': EdgeList(c.edge_nodes(), c.count, c.weight, c.num_e(), c.dims),
        'e_both_side': EdgeList(c.both_nodes(), both, bothw, add(c.num_e(), c.E.len()), c.dims),
        'A': Matrix(d, c.A, c.Apat),
        'D_v': dg(c.D), 'D_v_neg_1': dg(lambda i: inv0(c.D(i))), 'D_v_neg_1_2': dg(lambda i: rs0(c.D(i))),
        'L': Matrix(d, lambda i, j: add(iverson(eye(i, j), c.D0(lift(i))), neg(c.A0(i, j)))),
        'L_sym': Matrix(d, lambda i, j: add(iverson(eye(i, j), const(1, 'R')), neg(mul(rs0(c.D0(i)), c.A0(i, j), rs0(c.D0(j)))))),
        'L_rw': Matrix(d, lambda i, j: add(iverson(eye(i, j), const(1, 'R')), neg(mul(inv0(c.D0(i)), c.A0(i, j))))),
        'L_GCN': Matrix(d, lambda i, j: mul(rs0(c.D1(i)), c.A1(i, j), rs0(c.D1(j)))),
    }


def digraph_specs(c):
    n = c.n
    d = (n, n)
    dg = lambda f: Matrix(d, lambda i, j: iverson(eye(i, j), f(lift(i))), diag=True)
    return {
        'e': EdgeList(c.edge_nodes(), c.count, c.weight, c.num_e(), c.dims),
        'A': Matrix(d, c.A, c.Apat), 'A_T': Matrix(d, lambda i, j: c.A(j, i), lambda i, j: c.Apat(j, i)),
        'D_v_in': dg(c.D_in), 'D_v_in_neg_1': dg(lambda i: inv0(c.D_in(i))),
        'D_v_out': dg(c.D_out), 'D_v_out_neg_1': dg(lambda i: inv0(c.D_out(i))),
    }


def bigraph_specs(c):
    dg = lambda n, f: Matrix((n, n), lambda i, j: iverson(eye(i, j), f(lift(i))), diag=True)
    N = (c.n, c.n)
    return {
        'e': EdgeList(c.edge_nodes(), c.count, c.weight, c.num_e(), c.dims),
        'B': Matrix((c.nu, c.nv), c.B, c.Bpat), 'B_T': Matrix((c.nv, c.nu), lambda i, j: c.B(j, i), lambda i, j: c.Bpat(j, i)),
        'A': Matrix(N, c.A, c.Apat),
        'D_u': dg(c.nu, c.D_u), 'D_v': dg(c.nv, c.D_v), 'D_u_neg_1': dg(c.nu, lambda i: inv0(c.D_u(i))), 'D_v_neg_1': dg(c.nv, lambda i: inv0(c.D_v(i))),
        'L_GCN': Matrix(N, lambda i, j: mul(rs0(c.D1(i)), c.A1(i, j), rs0(c.D1(j)))),
    }


SPECS = {GQ: graph_specs, DQ: digraph_specs, BQ: bigraph_specs}


def specs(ex, o):
    return SPECS[o.cls.qual](content(ex, o))


# ------------------------------------------------------------------------------------------- the cache invariant
class CacheV(HostObj):
    """An arbitrary cache in which every entry equals its specification over the content it was created for."""

    def __init__(self, name, table_specs, ident, vals=None, has=None):
        self.birth = birth()
        self.name, self.specs, self.ident = name, table_specs, ident
        self.vals = Env(vals or {})
        self.has = has or name

    def key(self, ex, k):
        if isinstance(k, str):
            return k
        return k

    def lookup(self, ex, k):
        """Value under k, or MISSING."""
        if k in self.vals:
            return self.vals[k]
        sp = self.specs.get(k) if isinstance(k, str) else None
        if sp is None and not callable(self.specs.get('?')):
            if isinstance(k, str):
                return MISSING      # part of the invariant: only specified keys are stored
            raise Unsupported('cache key %r without a specification' % (k,))
        if sp is None:
            sp = self.specs['?'](k)
            if sp is None:
                if isinstance(k, str):
                    return MISSING
                raise Unsupported('cache key %r without a specification' % (k,))
        hit = ex.decide(app('cached:%s:%s' % (self.has, k if isinstance(k, str) else show(k)), sort='B'))
        v = sp.mk(ex, frozen='the cached value %s' % (k,)) if hit else MISSING
        self.vals[k] = v
        return v

    def getattr(self, ex, name):
        if name == 'get':
            def get(ex, a, k):
                v = self.lookup(ex, a[0])
                return (a[1] if len(a) > 1 else k.get('default')) if v is MISSING else v
            return HostFn('cache.get', get)
        if name == 'copy':
            return HostFn('cache.copy', lambda ex, a, k: CacheV(self.name, self.specs, self.ident, dict(self.vals), self.has))
        if name == 'clear':
            raise Unsupported('cache.clear')
        raise Unsupported('cache.%s' % name)

    def getitem(self, ex, k):
        v = self.lookup(ex, k)
        if v is MISSING:
            raise PyRaise('KeyError', str(k), ex.where)
        return v

    def contains(self, ex, k):
        return self.lookup(ex, k) is not MISSING

    def setitem(self, ex, k, v):
        ex.setitem(self.vals, k, v)
        w = ex.__dict__.setdefault('cache_writes', [])
        w.append((self, k))

    def deepcopy(self, ex):
        c = CacheV(self.name, self.specs, self.ident, {k: (lib.deepcopy_val(ex, v) if v is not MISSING else v) for k, v in self.vals.items()}, self.has)
        return c


def cache_valid(ex, o, label='cache invariant'):
    """Every cache entry of o equals its specification over the current content of o."""
    c = o.attrs.get('cache')
    sp = specs(ex, o)
    if isinstance(c, CacheV):
        if c.ident != content(ex, o).ident():
            ex.fail(label, 'the content of %s changed but its cache was kept' % (o.name or o.cls.name))
            return False
        ok = True
        for k, v in list(c.vals.items()):
            if v is MISSING or getattr(v, 'from_spec', False):
                continue
            ok = entry_ok(ex, label, sp, c.specs, k, v) and ok
        return ok
    if isinstance(c, DictV) and c.d is not None:
        ok = True
        for k, v in list(c.d.items()):
            ok = entry_ok(ex, label, sp, {}, k, v) and ok
        return ok
    ex.undecided(label, 'unknown cache representation %s' % type(c).__name__)
    return False


def entry_ok(ex, label, sp, more, k, v):
    s = sp.get(k) if isinstance(k, str) else None
    if s is None and callable(more.get('?')):
        s = more['?'](k)
    if s is None:
        ex.undecided('%s[%s]' % (label, k), 'no specification for this cache key')
        return False
    fz = v.frozen if isinstance(v, Sparse) else None
    if fz:
        return True
    if isinstance(v, tuple) and all(isinstance(x, ListV) and x.frozen for x in v):
        return True
    n = len(ex.obls)
    s.check(ex, '%s[%s]' % (label, k), v)
    return all(x.ok for x in ex.obls[n:])


# ------------------------------------------------------------------------------------------- symbolic instances
def dev():
    return Opaque('device')


def mk_graph(ex, name='g', cached=True):
    n = isym(ex, name + '_n', 1)
    E = base_map(ex.th, name + '_E', INT_PAIR, keyfacts=lambda i, j: and_(le(ZERO, i), lt(i, j), lt(j, n)))
    S = base_map(ex.th, name + '_S', INT, keyfacts=lambda i: and_(le(ZERO, i), lt(i, n)))
    o = obj(ex, GQ, _num_v=n, _raw_e_dict=DictV(st=E), _raw_selfloop_dict=DictV(st=S), _has_extra_selfloop=bsym(ex, name + '_X'), device=dev())
    return finish(ex, o, name, cached)


def mk_digraph(ex, name='g', cached=True):
    n = isym(ex, name + '_n', 1)
    E = base_map(ex.th, name + '_E', INT_PAIR, keyfacts=lambda i, j: and_(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), ne(i, j)))
    S = base_map(ex.th, name + '_S', INT, keyfacts=lambda i: and_(le(ZERO, i), lt(i, n)))
    o = obj(ex, DQ, _num_v=n, _raw_e_dict=DictV(st=E), _raw_selfloop_dict=DictV(st=S), _has_extra_selfloop=bsym(ex, name + '_X'), device=dev())
    return finish(ex, o, name, cached)


def mk_bigraph(ex, name='g', cached=True):
    nu, nv = isym(ex, name + '_nu', 1), isym(ex, name + '_nv', 1)
    E = base_map(ex.th, name + '_E', INT_PAIR, keyfacts=lambda i, j: and_(le(ZERO, i), lt(i, nu), le(ZERO, j), lt(j, nv)))
    o = obj(ex, BQ, _num_u=nu, _num_v=nv, _raw_e_dict=DictV(st=E), _raw_selfloop_dict=DictV({}), _has_extra_selfloop=False, device=dev())
    return finish(ex, o, name, cached)


def finish(ex, o, name, cached):
    o.name = name
    if cached:
        c = content(ex, o)
        o.attrs['cache'] = CacheV(name, dict(SPECS[o.cls.qual](c)), c.ident())
    else:
        o.attrs['cache'] = DictV({})
    return o


MAKERS = {GQ: mk_graph, DQ: mk_digraph, BQ: mk_bigraph}


def nonneg(ex, c):
    """Edge weights are non-negative."""
    for m in (c.E, getattr(c, 'S', None)):
        if m is None or m.st is None:
            continue
        nm = m.st.origin + '_v'
        ex.th.axiom(nm, lambda *a, nm=nm: [le(RZERO, app(nm, *a, sort='R'))])


# ------------------------------------------------------------------------------------------- summaries of property reads
def getter_summary(key):
    def f(ex, args, kw):
        o = args[0]
        if not cache_valid(ex, o, 'cache invariant before reading %s' % key):
            raise Unsupported('reading %s with an unverified cache' % key)
        v = specs(ex, o)[key].mk(ex, frozen='the cached value %s' % key)
        return v
    return f


for _q, _f in SPECS.items():
    pass

GETTERS = {GQ: ['e', 'e_both_side', 'A', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'L', 'L_sym', 'L_rw', 'L_GCN'],
           DQ: ['e', 'A', 'A_T', 'D_v_in', 'D_v_in_neg_1', 'D_v_out', 'D_v_out_neg_1'],
           BQ: ['e', 'B', 'B_T', 'A', 'D_u', 'D_v', 'D_u_neg_1', 'D_v_neg_1', 'L_GCN']}


def snapshot(o):
    """Everything observable of a structure except its cache."""
    out = {}
    for k, v in o.attrs.items():
        if k in ('cache', 'group_cache'):
            continue
        out[k] = v
        if isinstance(v, DictV):
            out[k] = (v, v.st, dict(v.d) if v.d is not None else None)
        elif isinstance(v, (ListV,)):
            out[k] = (v, v.nodes)
    return out


def same_content(ex, o, snap, label='content unchanged'):
    now = snapshot(o)
    bad = []
    for k in set(now) | set(snap):
        a, b = snap.get(k, MISSING), now.get(k, MISSING)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if not all(x is y or (isinstance(x, (dict, tuple)) and x == y) for x, y in zip(a, b)):
                bad.append(k)
        elif a is not b and not (isinstance(a, (bool, int)) and a == b):
            if a is MISSING:
                continue      # a new private attribute is not content
            bad.append(k)
    if bad:
        ex.fail(label, 'changed: %s' % ', '.join(sorted(bad)))
    else:
        ex.ok(label)


def install_getters(ex=None):
    for q, names in GETTERS.items():
        for k in names:
            summary('%s.%s' % (q, k))(getter_summary(k))


install_getters()


def getter_contract(q, key, props, extra=None, hyp=None):
    def run(ex):
        o = MAKERS[q](ex, 'g')
        c = content(ex, o)
        if hyp:
            hyp(ex, c)
        snap = snapshot(o)
        want = specs(ex, o)[key]
        got = ex.getattr(o, key)
        want.check(ex, '%s equals its definition' % key, got)
        cache_valid(ex, o, 'cache invariant after reading %s' % key)
        same_content(ex, o, snap)
        unchanged(ex)
    nm = q.split(':')[1]
    contract('%s.%s' % (nm, key), props, ['%s.%s' % (q, key)] + (extra or []))(run)


# ------------------------------------------------------------------------------------------- lists and sets as results
def elements(ex, got):
    """Nodes enumerating the entries of a list, tuple or one-dimensional tensor."""
    if isinstance(got, (Tensor, tlib.RTensor)):
        return tlib.tensor_rows(ex, got)
    return lib.iter_nodes(ex, got)


def list_eq(ex, label, got, n, fn):
    """got has n entries, the p-th being fn(p)."""
    ns = elements(ex, got)
    if not ex.check(label + ': length', eq(nlen(ns), lift(n))):
        return False
    t = tlib.densify(ex, tlib.from_nodes(ex, ns))
    p = fresh('x')
    return ex.check(label, eq_any(t.fn(p), fn(p)), hyps=[le(ZERO, p), lt(p, lift(n))])


def members_once(ex, label, got, n, member):
    """got lists exactly the integers 0 <= j < n with member(j), each once."""
    j = fresh('x')
    ns = elements(ex, got)
    cnt = add(*([ZERO] + [sum_(bs, iverson(and_(*(cs + [eq(lift(x), j)])), ONE)) for bs, cs, x in leaves(ns)]))
    rng = [le(ZERO, j), lt(j, lift(n))]
    ex.check(label + ': exactly the members, each once', eq(cnt, iverson(member(j), ONE)), hyps=rng)
    ex.check(label + ': nothing else', eq(nlen(ns), ssum(n, lambda q: iverson(member(q), ONE))))
