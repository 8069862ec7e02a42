"""P01, P02, P04, P05: the content of graphs follows the history of edge operations; every mutator leaves the cache invariant intact."""
from contracts.structs import *


def merge_of(op):
    return {'mean': lambda x, y: mul(const(Fraction(1, 2), 'R'), add(x, y)), 'sum': lambda x, y: add(x, y), 'max': lambda x, y: ite(le(x, y), y, x)}[op]


class Abs:
    """Abstract content: membership and weight functions per dictionary attribute."""

    def __init__(self, has, get):
        self.has, self.get = has, get


EATTR, SATTR = '_raw_e_dict', '_raw_selfloop_dict'
AR = {EATTR: 2, SATTR: 1}


class ContentFold(LoopSpec):
    """Loop over m edges: the content after l iterations is fold(l), fold(0) the content before, fold(l+1) = step(l, fold(l)).
    The recursion is the specification; the loop body is checked to compute one step, and to keep the key invariant."""

    def __init__(self, label, m, before, step, keyfacts):
        self.label, self.m, self.before, self.step, self.keyfacts = label, lift(m), before, step, keyfacts
        self.used = False
        self.nm = uniq('fold')

    def st(self, a, l):
        ar, nm = AR[a], self.nm + a
        codec = INT_PAIR if ar == 2 else INT
        return MapState(codec, lambda *k: app(nm + '_has', l, *k, sort='B'), lambda *k: app(nm + '_v', l, *k, sort='R'), app(nm + '_n', l, sort='I'))

    def abs(self, l):
        return {a: Abs(self.st(a, lift(l)).has, self.st(a, lift(l)).get) for a in self.keyfacts}

    def dicts(self, frame):
        try:
            o = frame.lookup('self')
        except Exception:
            return None
        if not isinstance(o, ObjV):
            return None
        return {a: o.attrs[a] for a in self.keyfacts if isinstance(o.attrs.get(a), DictV)}

    def early(self, ex, loop, frame):
        ds = self.dicts(frame)
        if ds and not self.used and (loop.hi is self.m or bool(ex.entailed(eq(loop.hi, self.m)))):
            for a, d in ds.items():
                if d.d is not None and not d.d and d.build is None:
                    ex.setattr(d, 'd', None)
                    ex.setattr(d, 'st', MapState(INT_PAIR if AR[a] == 2 else INT, lambda *k: FALSE, lambda *k: RZERO, ZERO, ()))
        return False

    def match(self, ex, loop, locs, frame):
        if self.used:
            return False
        ds = self.dicts(frame)
        if not ds:
            return False
        self.hit = {a: l for a, d in ds.items() for l in locs.values() if l.o is d and l.k == 'st' and l.kind == 'a'}
        self.ds = ds
        ok = bool(self.hit) and (loop.hi is self.m or bool(ex.entailed(eq(loop.hi, self.m))))
        return ok

    def locs(self, locs):
        return [l for l in locs.values() for a, d in self.ds.items() if l.o is d and l.k == 'st']

    def init(self, ex, v, hi):
        if not getattr(self, 'axed', False):
            self.axed = True
            for a, kf in self.keyfacts.items():
                nm = self.nm + a
                ex.th.axiom(nm + '_has', lambda l, *k, nm=nm, kf=kf: [implies(app(nm + '_has', l, *k, sort='B'), kf(*k))])
                ex.th.axiom(nm + '_n', lambda l, nm=nm: [le(ZERO, app(nm + '_n', l, sort='I'))])
        for a, d in self.ds.items():
            same_map(ex, '%s: the loop starts from the content before the call' % self.label, MapView(ex, d, AR[a]), self.before[a], AR[a])
        self.n0 = {a: d.st.n if d.st is not None else const(len(d.d)) for a, d in self.ds.items()}

    def enter(self, ex, v):
        for a, d in self.ds.items():
            ex.setattr(d, 'st', self.st(a, v))

    def leave(self, ex, v):
        want = self.step(v, self.abs(v))
        for a, d in self.ds.items():
            got = MapView(ex, d, AR[a])
            same_map(ex, '%s: one edge' % self.label, got, want[a], AR[a])
            ks = [fresh('k') for _ in range(AR[a])]
            ex.check('%s: keys stay normalised and in range' % self.label, implies(got.has(*ks), self.keyfacts[a](*ks)))

    def finish(self, ex, n):
        self.used = True
        for a, d in self.ds.items():
            s = self.st(a, lift(n))
            ex.setattr(d, 'st', s)


def same_map(ex, label, got, want, ar):
    ks = [fresh('k') for _ in range(ar)]
    g, w = got.has(*ks), want.has(*ks)
    ex.check(label + ': membership', and_(or_(not_(g), w), or_(not_(w), g)))
    ex.check(label + ': weights', eq_any(got.get(*ks), want.get(*ks)), hyps=[g, w])


def content_is(ex, label, g, want):
    for a, w in want.items():
        same_map(ex, label, MapView(ex, g.attrs[a], AR[a]), w, AR[a])


def freeze_content(ex, g, attrs):
    out = {}
    for a in attrs:
        m = MapView(ex, g.attrs[a], AR[a])
        out[a] = Abs(m.has, m.get)
    return out


# ---------------------------------------------------------------- steps
def put(m, cond, w, merge):
    """Insert weight w at the key selected by cond."""
    return Abs(lambda *k: or_(cond(*k), m.has(*k)), lambda *k: ite(cond(*k), ite(m.has(*k), merge(m.get(*k), w), w), m.get(*k)))


def rem(m, cond):
    return Abs(lambda *k: and_(not_(cond(*k)), m.has(*k)), lambda *k: m.get(*k))


KF = {
    GQ: lambda c: {EATTR: lambda i, j: and_(le(ZERO, i), lt(i, j), lt(j, c.n)), SATTR: lambda i: and_(le(ZERO, i), lt(i, c.n))},
    DQ: lambda c: {EATTR: lambda i, j: and_(le(ZERO, i), lt(i, c.n), le(ZERO, j), lt(j, c.n), ne(i, j)), SATTR: lambda i: and_(le(ZERO, i), lt(i, c.n))},
    BQ: lambda c: {EATTR: lambda i, j: and_(le(ZERO, i), lt(i, c.nu), le(ZERO, j), lt(j, c.nv))},
}


def add_step(q, a, b, w, merge):
    if q == GQ:
        e = lambda i, j: and_(lt(i, j), or_(and_(eq(i, a), eq(j, b)), and_(eq(i, b), eq(j, a))))
    elif q == DQ:
        e = lambda i, j: and_(ne(a, b), eq(i, a), eq(j, b))
    else:
        e = lambda i, j: and_(eq(i, a), eq(j, b))
    l = lambda i: and_(eq(a, b), eq(i, a))

    def f(s):
        out = {EATTR: put(s[EATTR], e, w, merge)}
        if SATTR in s:
            out[SATTR] = put(s[SATTR], l, w, merge)
        return out
    return f


def rem_step(q, a, b):
    if q == GQ:
        e = lambda i, j: and_(lt(i, j), or_(and_(eq(i, a), eq(j, b)), and_(eq(i, b), eq(j, a))))
    else:
        e = lambda i, j: and_(eq(i, a), eq(j, b))
    l = lambda i: and_(eq(a, b), eq(i, a))

    def f(s):
        out = {EATTR: rem(s[EATTR], e)}
        if SATTR in s:
            out[SATTR] = rem(s[SATTR], l)
        return out
    return f


# ---------------------------------------------------------------- inputs
def edge_input(ex, c, m, tuples=True, inrange=True):
    """A caller list of m edges."""
    A, B = (lambda p: app('src', p, sort='I')), (lambda p: app('dst', p, sort='I'))
    da, db = c.dims
    pr = lambda p: and_(le(ZERO, p), lt(p, m))
    for nm, f, d in (('src', A, da), ('dst', B, db)):
        ex.th.axiom(nm, lambda p, f=f, d=d: [implies(pr(p), and_(le(ZERO, f(p)), lt(f(p), d) if inrange else TRUE))])
    q = fresh('p')
    item = (A(q), B(q)) if tuples else ListV((Item(A(q)), Item(B(q))), frozen='an edge of the caller list')
    el = ListV((Loop(q, m, (Item(item),)),), frozen='the caller edge list')
    return A, B, el


def weight_input(ex, m):
    q = fresh('p')
    return (lambda p: app('w', p, sort='R')), ListV((Loop(q, m, (Item(app('w', q, sort='R')),)),), frozen='the caller weight list')


def nm(q):
    return q.split(':')[1]


PROP = {GQ: 'P01', DQ: 'P02', BQ: 'P02'}
ADDF = {GQ: [GQ + '.add_edges', BG + '._format_edges', BG + '._add_edge', BG + '._clear_cache'], DQ: [DQ + '.add_edges', BG + '.add_edges', BG + '._format_edges', BG + '._add_edge', BG + '._clear_cache'],
        BQ: [BQ + '.add_edges', BQ + '._format_edges', BQ + '._add_edge', BG + '._clear_cache']}


def add_contract(q, op, weights, tuples):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        m = isym(ex, 'm', 1)
        A, B, el = edge_input(ex, c, m, tuples)
        W, wl = weight_input(ex, m) if weights else ((lambda p: const(1, 'R')), None)
        before = freeze_content(ex, g, KF[q](c))
        sp = ContentFold('add_edges', m, before, lambda l, s: add_step(q, A(l), B(l), W(l), merge_of(op))(s), KF[q](c))
        ex.loop_specs.append(sp)
        snap = snapshot(g)
        ex.call(ex.getattr(g, 'add_edges'), [el], dict({'e_weight': wl} if weights else {}, merge_op=op) if op != 'mean' or weights else {})
        content_is(ex, 'content after adding = fold of the insertions', g, sp.abs(m))
        rest_unchanged(ex, g, snap)
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.add_edges[%s%s%s]' % (nm(q), op, ', weights' if weights else '', '' if tuples else ', lists'), [PROP[q], 'P04', 'P05'], ADDF[q])(run)


def rest_unchanged(ex, g, snap, but=(EATTR, SATTR), label='vertex set and settings unchanged'):
    now = snapshot(g)
    bad = [k for k in snap if k not in but and not same_val(snap[k], now.get(k, MISSING))]
    (ex.fail(label, ', '.join(bad)) if bad else ex.ok(label))


def same_val(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Term) or isinstance(b, Term):
        return lift(a) is lift(b) if isinstance(a, (Term, int)) and isinstance(b, (Term, int)) else False
    return a is b or (isinstance(a, (int, bool, str, dict)) and a == b)


for _q in (GQ, DQ, BQ):
    for _op in ('mean', 'sum', 'max'):
        add_contract(_q, _op, True, True)
    add_contract(_q, 'mean', False, True)
    add_contract(_q, 'sum', True, False)


def single(q, kind):
    """The one-edge form: [a, b] and a scalar weight."""
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        a, b, w = isym(ex, 'a', 0), isym(ex, 'b', 0), rsym(ex, 'w1')
        ex.assume(lt(a, c.dims[0]))
        ex.assume(lt(b, c.dims[1]))
        e = ListV((Item(a), Item(b)), frozen='the caller edge')
        before = freeze_content(ex, g, KF[q](c))
        snap = snapshot(g)
        if kind == 'remove':
            ex.call(ex.getattr(g, 'remove_edges'), [e], {})
            want = rem_step(q, a, b)(before)
        else:
            ex.call(ex.getattr(g, 'add_edges'), [e, w, kind], {})
            want = add_step(q, a, b, w, merge_of(kind))(before)
        content_is(ex, 'content after one edge', g, want)
        rest_unchanged(ex, g, snap)
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s one edge [%s]' % (nm(q), kind), [PROP[q], 'P04', 'P05'], ADDF[q] if kind != 'remove' else REMF[q])(run)


REMF = {q: [q + '.remove_edges', BG + '._remove_edge', BG + '._clear_cache', (BQ if q == BQ else BG) + '._format_edges'] for q in (GQ, DQ, BQ)}


def remove_contract(q, tuples):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        m = isym(ex, 'm', 1)
        A, B, el = edge_input(ex, c, m, tuples)
        before = freeze_content(ex, g, KF[q](c))
        sp = ContentFold('remove_edges', m, before, lambda l, s: rem_step(q, A(l), B(l))(s), KF[q](c))
        ex.loop_specs.append(sp)
        snap = snapshot(g)
        ex.call(ex.getattr(g, 'remove_edges'), [el], {})
        content_is(ex, 'content after removing = fold of the removals', g, sp.abs(m))
        rest_unchanged(ex, g, snap)
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.remove_edges%s' % (nm(q), '' if tuples else '[lists]'), [PROP[q], 'P04', 'P05'], REMF[q])(run)


def rejected(q):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        m = isym(ex, 'm', 1)
        A, B, el = edge_input(ex, c, m, True, inrange=False)
        W, wl = weight_input(ex, m)
        bad = isym(ex, 'bad', 0)
        ex.assume(lt(bad, m))
        ex.assume(or_(le(c.dims[0], A(bad)), le(c.dims[1], B(bad))))
        before = freeze_content(ex, g, KF[q](c))
        snap = snapshot(g)
        k, _ = raises(ex, lambda: ex.call(ex.getattr(g, 'add_edges'), [el, wl], {}))
        (ex.ok if k else ex.fail)('an endpoint out of range is rejected', 'structural' if k else 'accepted')
        same_content(ex, g, snap, 'nothing changed before the rejection')
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s rejects endpoints out of range' % nm(q), [PROP[q], 'P04'], ADDF[q])(run)


def empty_add(q):
    def run(ex):
        g = MAKERS[q](ex)
        snap = snapshot(g)
        ex.call(ex.getattr(g, 'add_edges'), [ListV((), frozen='the caller edge list')], {})
        same_content(ex, g, snap, 'adding no edge changes nothing')
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.add_edges[]' % nm(q), [PROP[q]], [q + '.add_edges'])(run)


for _q in (GQ, DQ, BQ):
    for _k in ('mean', 'sum', 'max', 'remove'):
        single(_q, _k)
    remove_contract(_q, True)
    remove_contract(_q, False)
    rejected(_q)
    empty_add(_q)


# ---------------------------------------------------------------- self-loop settings, clear, reversal
def simple_op(q, name, want, props=None, attrs=None):
    def run(ex):
        g = MAKERS[q](ex)
        c = content(ex, g)
        before = freeze_content(ex, g, KF[q](c))
        snap = snapshot(g)
        ex.call(ex.getattr(g, name), [], {})
        w = want(c, before)
        content_is(ex, 'content after %s' % name, g, {a: v for a, v in w.items() if a in AR})
        if '_has_extra_selfloop' in w:
            ex.check('extra self-loop setting after %s' % name, eqb(tb(g.attrs['_has_extra_selfloop']), w['_has_extra_selfloop']))
        rest_unchanged(ex, g, snap, (EATTR, SATTR, '_has_extra_selfloop'))
        cache_valid(ex, g)
    contract('%s.%s' % (nm(q), name), [PROP[q], 'P04'], ['%s.%s' % (q, name)] + (['%s.%s' % (BG, name)] if name != 'reverse_direction' else []))(run)


def eqb(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


EMPTY2 = Abs(lambda *k: FALSE, lambda *k: RZERO)
for _q in (GQ, DQ):
    simple_op(_q, 'add_extra_selfloop', lambda c, b: dict(b, _has_extra_selfloop=TRUE))
    simple_op(_q, 'remove_extra_selfloop', lambda c, b: dict(b, _has_extra_selfloop=FALSE))
    simple_op(_q, 'remove_selfloop', lambda c, b: {EATTR: b[EATTR], SATTR: EMPTY2, '_has_extra_selfloop': FALSE})
    simple_op(_q, 'clear', lambda c, b: {EATTR: EMPTY2, SATTR: EMPTY2, '_has_extra_selfloop': FALSE})
simple_op(BQ, 'clear', lambda c, b: {EATTR: EMPTY2})
simple_op(DQ, 'reverse_direction', lambda c, b: {EATTR: Abs(lambda i, j: b[EATTR].has(j, i), lambda i, j: b[EATTR].get(j, i)), SATTR: b[SATTR], '_has_extra_selfloop': c.X})


@contract('DiGraph.reverse_direction twice', ['P02'], [DQ + '.reverse_direction'])
def rev2(ex):
    g = mk_digraph(ex)
    c = content(ex, g)
    before = freeze_content(ex, g, KF[DQ](c))
    ex.call(ex.getattr(g, 'reverse_direction'), [], {})
    ex.call(ex.getattr(g, 'reverse_direction'), [], {})
    content_is(ex, 'reversing twice gives back the graph', g, before)


@contract('BiGraph.switch_uv', ['P02', 'P04', 'P05'], [BQ + '.switch_uv', BQ + '.clone'])
def switch(ex):
    g = mk_bigraph(ex)
    c = content(ex, g)
    before = freeze_content(ex, g, KF[BQ](c))
    snap = snapshot(g)
    h = ex.call(ex.getattr(g, 'switch_uv'), [], {})
    content_is(ex, 'every edge is swapped', h, {EATTR: Abs(lambda i, j: before[EATTR].has(j, i), lambda i, j: before[EATTR].get(j, i))})
    ex.check('the vertex counts are swapped', and_(eq(lift(h.attrs['_num_u']), c.nv), eq(lift(h.attrs['_num_v']), c.nu)))
    cache_valid(ex, h, 'cache of the switched graph')
    same_content(ex, g, snap, 'the original is unchanged')
    cache_valid(ex, g)
    k = ex.call(ex.getattr(h, 'switch_uv'), [], {})
    content_is(ex, 'switching twice gives back the graph', k, before)
    ex.check('switching twice gives back the sides', and_(eq(lift(k.attrs['_num_u']), c.nu), eq(lift(k.attrs['_num_v']), c.nv)))
    if h.attrs[EATTR] is g.attrs[EATTR] or h is g:
        ex.fail('independent', 'the switched graph shares its dictionary')
    else:
        ex.ok('independent')
    unchanged(ex)
