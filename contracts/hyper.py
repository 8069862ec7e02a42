"""Specification of hypergraphs: content, defining formulas per group and overall, cache invariants, symbolic instances."""
from contracts.structs import *

lt_, ge_ = lt, (lambda a, b: le(b, a))


def kcode(e):
    """Key term of a hyperedge code."""
    return HCODE_ENC(e)


HCODE_ENC = lambda k: vals.HCODE.enc(k)[0]


def wof(v):
    """Weight in an entry dictionary."""
    if isinstance(v, DictV) and v.d is not None and 'w_e' in v.d:
        return lift(v.d['w_e'])
    raise Unsupported('hyperedge content')


class GroupsView:
    """Functional view of the groups dictionary."""

    def __init__(self, ex, d):
        lib.norm_dict(ex, d)
        self.ex, self.d = ex, d
        self.st = d.st
        if self.st is not None and not isinstance(self.st, VecMap):
            raise Unsupported('groups dictionary')
        self.items = None if d.d is None else list(d.d.items())
        for k, v in self.items or ():
            if not isinstance(k, str) or not isinstance(v, DictV):
                raise Unsupported('groups dictionary')

    def ghas(self, g):
        if self.st is not None:
            return self.st.ghas(g)
        return or_(*[eq(strterm(k), g) for k, _ in self.items])

    def inner(self, v):
        return HMap(self.ex, v)

    def ihas(self, g, e):
        if self.st is not None:
            return self.st.ihas(g, e)
        return or_(*[and_(eq(strterm(k), g), self.inner(v).has(e)) for k, v in self.items])

    def w(self, g, e):
        if self.st is not None:
            return wof(self.st.iget(g, e))
        r = RZERO
        for k, v in self.items:
            r = ite(eq(strterm(k), g), self.inner(v).w(e), r)
        return r

    def inn(self, g):
        if self.st is not None:
            return self.st.inn(g)
        return add(*([ZERO] + [iverson(eq(strterm(k), g), self.inner(v).len()) for k, v in self.items]))

    @property
    def gn(self):
        return self.st.gn if self.st is not None else const(len(self.items))

    def ord(self, g):
        return self.st.ord(g) if self.st is not None else app('noorder', g, sort='U')

    def ident(self):
        return self.st.cid if self.st is not None else tuple((k, id(v), id(v.st), tuple(v.d or ())) for k, v in self.items)


class HMap:
    """has/w over one inner dictionary."""

    def __init__(self, ex, d):
        lib.norm_dict(ex, d)
        self.st = d.st
        self.items = None if d.d is None else list(d.d.items())
        if self.items:
            raise Unsupported('concrete hyperedges')

    def has(self, e):
        return self.st.has(e) if self.st is not None else FALSE

    def w(self, e):
        return wof(self.st.get(e)) if self.st is not None else RZERO

    def len(self):
        return self.st.n if self.st is not None else ZERO


class HyperContent:
    kind = 'hypergraph'

    def __init__(self, ex, o):
        a = o.attrs
        self.ex = ex
        self.n = lift(a['_num_v'])
        self.vw = a['_v_weight']
        self.G = GroupsView(ex, a['_raw_groups'])
        self.E = self.G
        self.S = None
        self.dims = (self.n,)

    def ident(self):
        s = simple(self.vw.nodes) if isinstance(self.vw, ListV) else None
        vw = (s[1].id, lift(vsubst(s[2], {s[0]: var('vwpos')})).id) if s else id(self.vw)
        return (self.n.id, self.G.ident(), vw)

    def vweight(self, i):
        s = simple(self.vw.nodes)
        if s is None:
            raise Unsupported('vertex weights')
        return lift(vsubst(s[2], {s[0]: lift(i)}))

    # ---- enumeration (base state only)
    def gname(self, q):
        bs = simple(self.groups())
        return subst(bs[2][0], {bs[0]: lift(q)})

    def groups(self):
        st = self.G.st
        if st is None or st._gnodes is None:
            raise Unsupported('enumeration of the groups')
        return st._gnodes

    def key(self, g, p):
        st = self.G.st
        lib.inner_items(self.ex, InnerRef(self.G.d, lift(g)))
        s = simple(st._inodes(lift(g)))
        return vals.HCODE.enc(vsubst(s[2][0], {s[0]: lift(p)}))[0]

    def ne(self, g):
        return self.G.inn(lift(g))

    def wp(self, g, p):
        return self.G.w(lift(g), self.key(g, p))

    # ---- per group
    def H(self, g, i, p):
        return iverson(app('vmem', self.key(g, p), lift(i), sort='B'), const(1, 'R'))

    def Hpat(self, g, i, p):
        return app('vmem', self.key(g, p), lift(i), sort='B')

    def De(self, g, p):
        return app('vlen', self.key(g, p), sort='I')

    def Dv(self, g, i):
        return ssum(self.ne(g), lambda p: mul(self.H(g, i, p), self.wp(g, p)))

    # ---- overall: columns are the groups one after another
    def at(self, c):
        u = fresh('u')
        f, tot = tlib.concat_index(self.ex, u, self.G.gn, self.ne(self.gname(u)))
        q, p = f(lift(c))
        return self.gname(q), p

    @property
    def m(self):
        u = fresh('u')
        return sum_(((u, self.G.gn),), self.ne(self.gname(u)))

    def aH(self, i, c):
        g, p = self.at(c)
        return self.H(g, i, p)

    def aHpat(self, i, c):
        g, p = self.at(c)
        return self.Hpat(g, i, p)

    def aw(self, c):
        return self.wp(*self.at(c))

    def aDe(self, c):
        return self.De(*self.at(c))

    def aDv(self, i):
        return ssum(self.G.gn, lambda q: self.Dv(self.gname(q), i))

    def group_edges(self, g):
        p = fresh('p')
        return (Loop(p, self.ne(g), (Item((VTup(self.key(g, p)), self.wp(g, p))),)),)

    def edge_nodes(self):
        q = fresh('q')
        return (Loop(q, self.G.gn, self.group_edges(self.gname(q))),)


class HEdges:
    """(hyperedges, weights) in the order given by nodes."""

    def __init__(self, nodes):
        self.nodes = nodes

    def mk(self, ex, frozen=None):
        ns = nrefresh(self.nodes)
        return (ListV(nmap(ns, lambda e: e[0]), frozen=frozen), ListV(nmap(ns, lambda e: e[1]), frozen=frozen))

    def check(self, ex, label, got):
        if not (isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, (ListV, SymTuple)) for x in got)):
            ex.fail(label, 'not a pair of lists')
            return
        nodes_same(ex, label + ': hyperedges in the stored order', got[0].nodes, nmap(self.nodes, lambda e: e[0]))
        nodes_same(ex, label + ': weights in the stored order', got[1].nodes, nmap(self.nodes, lambda e: e[1]))


def vt_norm(v):
    if isinstance(v, ListV) and simple(v.nodes):
        return v
    return v


def nodes_same(ex, label, a, b, hyps=()):
    """Two skeletons list the same values in the same order (compared loop by loop)."""
    a, b = nohole(tuple(a)), nohole(tuple(b))
    if len(a) != len(b):
        ex.undecided(label, 'differently nested lists')
        return False
    ok = True
    for x, y in zip(a, b):
        if isinstance(x, Item) and isinstance(y, Item):
            ok = ex.check(label, veq(x.val, y.val), hyps=list(hyps)) and ok
        elif isinstance(x, Loop) and isinstance(y, Loop):
            ok = ex.check(label + ': length', eq(x.hi, y.hi), hyps=list(hyps)) and ok
            v = fresh('q')
            ok = nodes_same(ex, label, nsubst(x.body, {x.var: v}), nsubst(y.body, {y.var: v}), list(hyps) + [le(ZERO, v), lt(v, y.hi)]) and ok
        elif isinstance(x, If) and isinstance(y, If):
            ok = ex.check(label + ': selection', and_(or_(not_(x.cond), y.cond), or_(not_(y.cond), x.cond)), hyps=list(hyps)) and ok
            ok = nodes_same(ex, label, x.body, y.body, list(hyps) + [y.cond]) and ok
        else:
            ex.undecided(label, 'differently nested lists')
            return False
    return ok


def eyedg(n, f):
    return Matrix((n, n), lambda i, j: iverson(eye(i, j), f(lift(i))), diag=True)


def hg_group_specs(c, g):
    n, ne = c.n, c.ne(g)
    S = (n, n)
    H = lambda i, p: c.H(g, i, p)
    Dv, De, w = (lambda i: c.Dv(g, i)), (lambda p: c.De(g, p)), (lambda p: c.wp(g, p))
    base = {
        'e': HEdges(c.group_edges(g)),
        'H': Matrix((n, ne), H, lambda i, p: c.Hpat(g, i, p)), 'H_T': Matrix((ne, n), lambda p, i: H(i, p), lambda p, i: c.Hpat(g, i, p), coal=False),
    }
    base['H_v2e'] = base['H']
    return dict(base, **laplacians(n, ne, H, Dv, De, w))


def laplacians(n, m, H, Dv, De, w):
    S = (n, n)
    T = lambda i, j: ssum(m, lambda p: mul(H(i, p), w(p), inv0(R_(De(p))), H(j, p)))
    hgnn = lambda i, j: mul(rs0(Dv(i)), T(i, j), rs0(Dv(j)))
    return {
        'W_e': eyedg(m, w), 'D_v': eyedg(n, Dv), 'D_v_neg_1': eyedg(n, lambda i: inv0(Dv(i))), 'D_v_neg_1_2': eyedg(n, lambda i: rs0(Dv(i))),
        'D_e': eyedg(m, lambda p: R_(De(p))), 'D_e_neg_1': eyedg(m, lambda p: inv0(R_(De(p)))),
        'L_HGNN': Matrix(S, lambda i, j: hgnn(lift(i), lift(j))),
        'L_sym': Matrix(S, lambda i, j: add(iverson(eye(i, j), const(1, 'R')), neg(hgnn(lift(i), lift(j))))),
        'L_rw': Matrix(S, lambda i, j: add(iverson(eye(i, j), const(1, 'R')), neg(mul(inv0(Dv(lift(i))), T(lift(i), lift(j)))))),
    }


def R_(t):
    return mul(const(1, 'R'), t)


class LazySpecs(dict):
    """Specifications built on first use."""

    def __init__(self, keys, f):
        dict.__init__(self)
        self.keys_, self.f, self.tab = keys, f, None

    def get(self, k, d=None):
        if k not in self.keys_:
            return d
        if self.tab is None:
            self.tab = self.f()
        return self.tab.get(k, d)

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r

    def __contains__(self, k):
        return k in self.keys_


GKEYS = ['e', 'H', 'H_T', 'H_v2e', 'W_e', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'D_e', 'D_e_neg_1', 'L_HGNN', 'L_sym', 'L_rw']
AKEYS = GKEYS + ['W_v', 'v']


class VList:
    """The list of vertices."""

    def __init__(self, n):
        self.n = n

    def mk(self, ex, frozen=None):
        return ListV(ntensor(self.n, lambda q: q), frozen=frozen)

    def check(self, ex, label, got):
        list_eq(ex, label, got, self.n, lambda i: i)


def hg_specs(c):
    def build():
        n, m = c.n, c.m
        H = c.aH
        r = {'e': HEdges(c.edge_nodes()), 'H': Matrix((n, m), H, c.aHpat, coal=False), 'H_T': Matrix((m, n), lambda p, i: H(i, p), lambda p, i: c.aHpat(i, p), coal=False), 'W_v': eyedg(n, c.vweight), 'v': VList(n)}
        r['H_v2e'] = r['H']
        return dict(r, **laplacians(n, m, H, c.aDv, c.aDe, c.aw))
    return LazySpecs(AKEYS, build)


CONTENT[HQ] = HyperContent
SPECS[HQ] = hg_specs


def gspecs(c, g):
    return LazySpecs(GKEYS, lambda: hg_group_specs(c, g))


def gterm(g):
    return strterm(g) if isinstance(g, str) else g


def group_table(c, name, ident):
    t = lib.TableV(lambda ex, k: CacheV('%s:%s' % (name, show(gterm(k))), gspecs(c, gterm(k)), ident), name)
    t.content = c
    return t


# ------------------------------------------------------------------------------------------- cache invariant with groups
def hyper_cache_valid(ex, o, label='cache invariant'):
    c = content(ex, o)
    ok = cache_valid0(ex, o, label)
    t = o.attrs.get('group_cache')
    if not isinstance(t, lib.TableV):
        ex.undecided(label + ' (groups)', 'unknown group cache %s' % type(t).__name__)
        return False
    now = c.ident()
    old = getattr(t, 'content', None)
    for k, v in t.tabs:
        g = gterm(k)
        if v is MISSING:
            continue
        sp = gspecs(c, g)
        if isinstance(v, CacheV):
            if v.ident != now:
                if not group_same(ex, '%s: the group cache entry that was kept' % label, old, c, g):
                    ok = False
                continue
            for kk, x in list(v.vals.items()):
                if x is not MISSING:
                    ok = entry_ok(ex, label, sp, {}, kk, x) and ok
        elif isinstance(v, DictV) and v.d is not None:
            for kk, x in list(v.d.items()):
                ok = entry_ok(ex, label, sp, {}, kk, x) and ok
        else:
            ex.undecided(label, 'unknown cache of a group')
            ok = False
    if t.base is not None and old is not None and old.ident0 != now:
        g = app('othergroup', sort='U')
        ok = group_same(ex, '%s: group caches that were kept' % label, old, c, g, [ne(g, gterm(k)) for k, _ in t.tabs]) and ok
    return ok


def group_same(ex, label, old, c, g, hyps=()):
    """Group g has the content (and order) it had."""
    e = app('anyedge', sort='U')
    a, b = old.G0, c.G
    h = list(hyps)
    r = ex.check(label + ': same vertex set', eq(old.n, c.n), hyps=h)
    g1, g2 = a.ihas(g, e), b.ihas(g, e)
    h2 = h + [b.ghas(g)]
    r = ex.check(label + ': hyperedges unchanged', and_(or_(not_(g1), g2), or_(not_(g2), g1)), hyps=h2) and r
    r = ex.check(label + ': weights unchanged', eq(a.w(g, e), b.w(g, e)), hyps=h2 + [g1, g2]) and r
    r = ex.check(label + ': order unchanged', eq(a.ord(g), b.ord(g)), hyps=h2) and r
    return r


cache_valid0 = structs_cache_valid = None


def _install():
    import contracts.structs as S
    global cache_valid0
    cache_valid0 = S.cache_valid
    if getattr(S, 'hyper_installed', None):
        cache_valid0 = S.hyper_installed
    else:
        S.hyper_installed = S.cache_valid

        def dispatch(ex, o, label='cache invariant'):
            if o.cls.qual == HQ:
                return hyper_cache_valid(ex, o, label)
            return cache_valid0(ex, o, label)
        S.cache_valid = dispatch


_install()
from contracts.structs import cache_valid     # noqa: E402  (the dispatching version)


# ------------------------------------------------------------------------------------------- symbolic instances
def mk_hyper(ex, name='g', cached=True):
    n = isym(ex, name + '_n', 1)
    ghas = lambda g: app(name + '_gh', g, sort='B')
    gn = app(name + '_gn', sort='I')
    ex.th.axiom(name + '_gn', lambda: [le(ZERO, gn)])
    ex.th.axiom(name + '_gh', lambda g: [implies(ghas(g), le(ONE, gn))])
    ihas = lambda g, e: app(name + '_ih', g, e, sort='B')
    inn = lambda g: app(name + '_in', g, sort='I')
    ex.th.axiom(name + '_ih', lambda g, e: [implies(ihas(g, e), and_(ghas(g), le(ONE, inn(g))))])
    # vertices of a stored hyperedge are in range
    ex.th.axiom('vmem', lambda e, i: [implies(app(name + '_ok', e, sort='B'), implies(app('vmem', e, i, sort='B'), and_(le(ZERO, i), lt(i, n))))])
    ex.th.axiom('vat', lambda e, r: [implies(and_(app(name + '_ok', e, sort='B'), le(ZERO, r), lt(r, app('vlen', e, sort='I'))), and_(le(ZERO, app('vat', e, r, sort='I')), lt(app('vat', e, r, sort='I'), n)))])
    ex.th.axiom(name + '_ih', lambda g, e: [implies(ihas(g, e), app(name + '_ok', e, sort='B'))])
    ex.th.axiom(name + '_in', lambda g: [le(ZERO, inn(g))])
    iget = lambda g, e: DictV({'w_e': app(name + '_w', g, e, sort='R')})
    ke = name + '_e'
    register_enum(ex.th, [ke], ke + 'pos', 'U', lambda pre, ks: ihas(pre[0], ks[0]), lambda g: inn(g), npre=1, extra=lambda pre, ks: [app(name + '_ok', ks[0], sort='B')])

    def inodes(g):
        q = fresh('p')
        e = app(ke, g, q, sort='U')
        return (Loop(q, inn(g), (Item((vals.HCODE.dec(e), iget(g, e))),)),)
    st = VecMap(ghas, gn, ihas, iget, inn, None, inodes, lambda g: app(name + '_ord', g, sort='U'))
    st._gnodes = enumerate_map(ex.th, STR, ghas, lambda g: None, gn, name=name + '_g')
    st.origin = name
    q = fresh('q')
    vw = ListV((Loop(q, n, (Item(app(name + '_vw', q, sort='R')),)),))
    o = obj(ex, HQ, _num_v=n, _raw_groups=DictV(st=st), _v_weight=vw, device=dev())
    o.name = name
    if cached:
        c = content(ex, o)
        c.G0, c.ident0 = GroupsView(ex, DictV(st=st)), c.ident()
        o.attrs['cache'] = CacheV(name, hg_specs(c), c.ident())
        o.attrs['group_cache'] = group_table(c, name, c.ident())
    else:
        o.attrs['cache'] = DictV({})
        o.attrs['group_cache'] = lib.TableV()
    return o


STR = vals.STR
MAKERS[HQ] = mk_hyper


def hg_nonneg(ex, name='g'):
    ex.th.axiom(name + '_w', lambda g, e: [le(RZERO, app(name + '_w', g, e, sort='R'))])


def the_group(ex, o, name='grp'):
    g = app(name, sort='U')
    ex.assume(content(ex, o).G.ghas(g))
    return g


def need_groups(ex, o):
    ex.assume(le(ONE, content(ex, o).G.gn))


# ------------------------------------------------------------------------------------------- summaries
HGET = [k for k in AKEYS if k not in ('H_v2e', 'v')]
HGETG = [k for k in GKEYS if k != 'H_v2e']


def hgetter(key):
    def f(ex, args, kw):
        o = args[0]
        if not cache_valid(ex, o, 'cache invariant before reading %s' % key):
            raise Unsupported('reading %s with an unverified cache' % key)
        c = content(ex, o)
        if key not in ('e', 'W_v') and not ex.entailed(le(ONE, c.G.gn)) and ex.decide(eq(c.G.gn, ZERO)):
            raise PyRaise('RuntimeError', 'no hyperedge group', ex.where)
        return hg_specs(c)[key].mk(ex, frozen='the cached value %s' % key)
    return f


def hgetter_group(key):
    def f(ex, args, kw):
        o = args[0]
        g = args[1] if len(args) > 1 else kw['group_name']
        if not cache_valid(ex, o, 'cache invariant before reading %s_of_group' % key):
            raise Unsupported('reading %s_of_group with an unverified cache' % key)
        c = content(ex, o)
        if not ex.decide(c.G.ghas(gterm(g))):
            raise PyRaise('AssertionError', 'group', ex.where)
        return gspecs(c, gterm(g))[key].mk(ex, frozen='the cached value %s' % key)
    return f


for _k in HGET:
    summary('%s.%s' % (HQ, _k))(hgetter(_k))
for _k in HGETG:
    summary('%s.%s_of_group' % (HQ, _k))(hgetter_group(_k))
summary(BH + '.H_v2e')(hgetter('H_v2e'))
summary(BH + '.H_v2e_of_group')(hgetter_group('H_v2e'))
