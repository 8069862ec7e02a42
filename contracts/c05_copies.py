"""P05, P06, P14 (graphs), P01, P02: construction, copies, state dictionaries, files, edge dropping; P04: moving to a device."""
from contracts.ghostfs import *
from contracts.c01_mutators import *

PRM = {GQ: 'P01', DQ: 'P02', BQ: 'P02'}
SIZES = {GQ: ['_num_v'], DQ: ['_num_v'], BQ: ['_num_u', '_num_v']}
SETT = {GQ: ['_has_extra_selfloop'], DQ: ['_has_extra_selfloop'], BQ: []}
ATTRS = {GQ: (EATTR, SATTR), DQ: (EATTR, SATTR), BQ: (EATTR,)}
CTOR = {GQ: [GQ + '.__init__', BG + '.__init__', BG + '.clear', BG + '._clear_cache'], DQ: [DQ + '.__init__', BG + '.__init__', BG + '.clear', BG + '._clear_cache'], BQ: [BQ + '.__init__', BG + '.__init__', BG + '.clear', BG + '._clear_cache']}


def sizes_of(q, o):
    return [lift(o.attrs[a]) for a in SIZES[q]]


def same_graph(ex, q, label, h, want, sizes, X=None, order=None):
    """h is a structure of class q with the given content, sizes and self-loop setting; order: the dictionaries whose order must be kept."""
    if not isinstance(h, ObjV) or h.cls.qual != q:
        ex.fail(label + ': class', 'got %s' % (h.cls.qual if isinstance(h, ObjV) and not isinstance(h.cls, Ext) else type(h).__name__))
        return False
    ex.check(label + ': vertices', and_(*[eq(lift(h.attrs[a]), s) for a, s in zip(SIZES[q], sizes)]))
    content_is(ex, label, h, {a: want[a] for a in ATTRS[q]})
    if q == BQ:
        s = MapView(ex, h.attrs[SATTR], 1)
        ex.check(label + ': no self-loops', not_(s.has(fresh('k'))))
    if X is not None:
        ex.check(label + ': self-loop setting', eqb(tb(h.attrs['_has_extra_selfloop']), X))
    if order:
        for a, src in order.items():
            d = h.attrs[a]
            lib.norm_dict(ex, d)
            if d.st is not None and d.st is src.st or (d.d is not None and src.d is not None and list(d.d) == list(src.d)):
                ex.ok(label + ': order')
            else:
                ex.undecided(label + ': order', 'the order of the entries is not tracked through this code')
    return True


# ---------------------------------------------------------------- constructors
def ctor_contract(q, mode):
    def run(ex):
        n = [isym(ex, 'n%d' % i, 1) for i in range(len(SIZES[q]))]
        X = bsym(ex, 'X')
        kw = {'device': dev()}
        if q != BQ:
            kw['extra_selfloop'] = X
        cls = getcls(ex, q)

        class C:
            pass
        c = C()
        c.n = c.nu = n[0]
        c.nv = n[-1]
        c.dims = (n[0], n[-1])
        empty = {a: EMPTY2 for a in ATTRS[q]}
        if mode == 'empty':
            g = ex.call(cls, list(n), kw)
            want = empty
        elif mode == 'no edges':
            g = ex.call(cls, list(n) + [ListV((), frozen='the caller edge list')], kw)
            want = empty
        else:
            m = isym(ex, 'm', 1)
            A, B, el = edge_input(ex, c, m)
            w = mode in ('mean', 'sum', 'max')
            W, wl = weight_input(ex, m) if w else ((lambda p: const(1, 'R')), None)
            op = mode if w else 'mean'
            kf = KF[q](c)
            sp = ContentFold('constructor', m, empty, lambda l, s: add_step(q, A(l), B(l), W(l), merge_of(op))(s), {a: kf[a] for a in ATTRS[q]})
            ex.loop_specs.append(sp)
            if w:
                kw['merge_op'] = op
            g = ex.call(cls, list(n) + [el] + ([wl] if w else []), kw)
            want = sp.abs(m)
        same_graph(ex, q, 'a new structure', g, want, n, X if q != BQ else None)
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s(...)[%s]' % (nm(q), mode), [PRM[q], 'P05'] + (['P04'] if mode == 'mean' else []), CTOR[q] + ADDF[q])(run)


def ctor_bad(q):
    def run(ex):
        n = [isym(ex, 'n%d' % i) for i in range(len(SIZES[q]))]
        ex.assume(le(n[-1], ZERO))
        k, _ = raises(ex, lambda: ex.call(getcls(ex, q), list(n), {}))
        (ex.ok if k else ex.fail)('a structure without vertices is rejected', 'structural' if k else 'accepted')
    contract('%s(0)' % nm(q), [PRM[q]], CTOR[q])(run)


for _q in (GQ, DQ, BQ):
    for _m in ('empty', 'no edges', 'plain', 'mean', 'sum', 'max'):
        ctor_contract(_q, _m)
    ctor_bad(_q)


# ---------------------------------------------------------------- copies
def X_of(q, g):
    return None if q == BQ else tb(g.attrs['_has_extra_selfloop'])


def dicts_of(q, g):
    return {a: g.attrs[a] for a in ATTRS[q]}


def copy_contract(q, how):
    fns = {'clone': [q + '.clone'], 'state dict': [q + '.state_dict', q + '.from_state_dict'], 'file': [q + '.save', q + '.load', q + '.state_dict', q + '.from_state_dict'],
           'load_structure': [q + '.save', 'dhg.structure.base:load_structure', q + '.from_state_dict', q + '.state_dict']}[how]

    def run(ex):
        g = MAKERS[q](ex)
        want = freeze_content(ex, g, ATTRS[q])
        sizes, X, ds = sizes_of(q, g), X_of(q, g), dicts_of(q, g)
        snap = snapshot(g)
        if how == 'clone':
            h = ex.call(ex.getattr(g, 'clone'), [], {})
        elif how == 'state dict':
            sd = ex.getattr(g, 'state_dict')
            h = ex.call(ex.getattr(getcls(ex, q), 'from_state_dict'), [sd], {})
            independent(ex, 'the copy shares nothing with the state dictionary', h, sd)
        else:
            p = Opaque('target')
            k, _ = raises(ex, lambda: ex.call(ex.getattr(g, 'save'), [p], {}))
            if k:
                ex.check('saving fails only without a directory', not_(app('dir:target/..', sort='B')))
                return
            if how == 'file':
                h = ex.call(ex.getattr(getcls(ex, q), 'load'), [p], {})
            else:
                h = callq(ex, 'dhg.structure.base:load_structure', p)
        same_graph(ex, q, how, h, want, sizes, X, ds)
        independent(ex, 'the copy and the original share nothing', h, g)
        cache_valid(ex, h, 'cache of the copy')
        same_content(ex, g, snap, 'the original is unchanged')
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s copy by %s' % (nm(q), how), ['P05', 'P04'] if how == 'clone' else ['P05', 'P06'] if how == 'state dict' else ['P06'], fns)(run)


for _q in (GQ, DQ, BQ):
    for _h in ('clone', 'state dict', 'file', 'load_structure'):
        copy_contract(_q, _h)


def wrong_class(q, r):
    def run(ex):
        g = MAKERS[r](ex)
        p = Opaque('target')
        ex.assume(app('dir:target/..', sort='B'))
        ex.call(ex.getattr(g, 'save'), [p], {})
        k, _ = raises(ex, lambda: ex.call(ex.getattr(getcls(ex, q), 'load'), [p], {}))
        (ex.ok if k else ex.fail)('a file of another class is rejected', 'structural' if k else 'accepted')
    contract('%s.load rejects a %s' % (nm(q), nm(r)), ['P06'], [q + '.load'])(run)


wrong_class(GQ, DQ)
wrong_class(DQ, GQ)
wrong_class(BQ, GQ)


# ---------------------------------------------------------------- edge dropping
def drop_contract(q):
    def run(ex):
        g = MAKERS[q](ex)
        p = rsym(ex, 'p', 0)
        ex.assume(le(p, const(1, 'R')))
        before = freeze_content(ex, g, ATTRS[q])
        sizes, X = sizes_of(q, g), X_of(q, g)
        snap = snapshot(g)
        h = ex.call(ex.getattr(g, 'drop_edges'), [p], {})
        if not isinstance(h, ObjV) or h.cls.qual != q:
            return ex.fail('class', 'not a %s' % nm(q))
        ex.check('vertices kept', and_(*[eq(lift(h.attrs[a]), s) for a, s in zip(SIZES[q], sizes)]))
        if X is not None:
            ex.check('self-loop setting kept', eqb(tb(h.attrs['_has_extra_selfloop']), X))
        for a in ATTRS[q]:
            got, w = MapView(ex, h.attrs[a], AR[a]), before[a]
            ks = [fresh('k') for _ in range(AR[a])]
            ex.check('%s: a subset of the edges' % a, implies(got.has(*ks), w.has(*ks)))
            ex.check('%s: weights kept' % a, eq_any(got.get(*ks), w.get(*ks)), hyps=[got.has(*ks)])
            ex.check('%s: everything kept at rate zero' % a, implies(w.has(*ks), got.has(*ks)), hyps=[eq(p, RZERO)])
            ex.check('%s: nothing kept at rate one' % a, not_(got.has(*ks)), hyps=[eq(p, const(1, 'R'))])
        independent(ex, 'the result shares nothing with the original', h, g)
        cache_valid(ex, h, 'cache of the result')
        same_content(ex, g, snap, 'the original is unchanged')
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.drop_edges' % nm(q), ['P14', 'P05', 'P04', 'P27'], [q + '.drop_edges', q + '.from_state_dict'])(run)


for _q in (GQ, DQ, BQ):
    drop_contract(_q)
