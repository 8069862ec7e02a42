"""P05, P06, P14 for hypergraphs: construction, copies, state dictionaries, files, hyperedge dropping."""
from contracts.c03_hyper import *
from contracts.ghostfs import *


def vw_at(o, i):
    s = simple(lib.iter_nodes(o[0], o[1].attrs['_v_weight'])) if o[1].attrs['_v_weight'] is not None else None
    if s is None:
        raise Unsupported('vertex weights')
    return lift(vsubst(s[2], {s[0]: i})), s[1]


def same_hyper(ex, label, h, want, n, vw=None, order=True):
    """h is a hypergraph with these groups, n vertices and vertex weights vw(i)."""
    if not isinstance(h, ObjV) or isinstance(h.cls, Ext) or h.cls.qual != HQ:
        ex.fail(label + ': class', 'not a Hypergraph')
        return False
    ex.check(label + ': vertices', eq(lift(h.attrs['_num_v']), n))
    same_groups(ex, label, gabs(ex, h.attrs[RG]), want, order)
    i = fresh('i')
    got, ln = vw_at((ex, h), i)
    ex.check(label + ': number of vertex weights', eq(ln, n))
    ex.check(label + ': vertex weights', eq_any(got, vw(i) if vw else const(1, 'R')), hyps=[le(ZERO, i), lt(i, n)])
    return True


def vwof(o):
    ex = None
    return lambda i: vw_at((ex, o), i)[0]


NOGROUPS = GAbs(lambda a: FALSE, lambda a, e: FALSE, lambda a, e: RZERO, lambda a: ZERO, lambda a: app('x', sort='U'))


# ---------------------------------------------------------------- constructor
def ctor(mode):
    def run(ex):
        n = isym(ex, 'n', 1)
        kw = {'device': dev()}
        vw = None
        if mode in ('empty', 'sum'):
            q = fresh('q')
            kw['v_weight'] = ListV((Loop(q, n, (Item(app('vwin', q, sort='R')),)),), frozen='the caller vertex weights')
            vw = lambda i: app('vwin', i, sort='R')
        if mode == 'empty':
            h = ex.call(getcls(ex, HQ), [n], kw)
            want = NOGROUPS
        else:
            m = isym(ex, 'm', 1)
            code, el = hyperedges(ex, m, ok=False)
            ex.th.axiom('canon', lambda t: [app('g_ok', app('canon', t, sort='U'), sort='B')])
            W, args = (lambda p: const(1, 'R')), [n, el]
            if mode != 'plain':
                W, wl = weight_input(ex, m)
                args.append(wl)
                kw['merge_op'] = mode
            grp = strterm('main')
            sp = GroupFold('constructor', m, NOGROUPS, lambda l, s: add_step(grp, code(l), W(l), merge_of('mean' if mode == 'plain' else mode))(s), okv(), lambda a: ne(a, grp))
            ex.loop_specs.append(sp)
            h = ex.call(getcls(ex, HQ), args, kw)
            want = sp.abs(m)
        same_hyper(ex, 'a new hypergraph', h, want, n, vw)
        cache_valid(ex, h)
        unchanged(ex)
    contract('Hypergraph(...)[%s]' % mode, ['P03', 'P05'] + (['P04'] if mode == 'mean' else []), [HQ + '.__init__', BH + '.__init__', BH + '.clear', BH + '._clear_cache', HQ + '.add_hyperedges', BH + '._add_hyperedge'])(run)


for _m in ('empty', 'plain', 'mean', 'sum', 'max'):
    ctor(_m)


# ---------------------------------------------------------------- copies
def copies(how):
    fns = {'clone': [HQ + '.clone'], 'state dict': [HQ + '.state_dict', HQ + '.from_state_dict'], 'file': [HQ + '.save', HQ + '.load', HQ + '.state_dict', HQ + '.from_state_dict'],
           'load_structure': [HQ + '.save', 'dhg.structure.base:load_structure', HQ + '.from_state_dict', HQ + '.state_dict']}[how]

    def run(ex):
        g = mk_hyper(ex)
        want, n, vw = gabs(ex, g.attrs[RG]), lift(g.attrs['_num_v']), (lambda i: app('g_vw', i, sort='R'))
        snap = snapshot(g)
        if how == 'clone':
            h = ex.call(ex.getattr(g, 'clone'), [], {})
        elif how == 'state dict':
            sd = ex.getattr(g, 'state_dict')
            h = ex.call(ex.getattr(getcls(ex, HQ), 'from_state_dict'), [sd], {})
            independent(ex, 'the copy shares nothing with the state dictionary', h, sd)
        else:
            p = Opaque('target')
            k, _ = raises(ex, lambda: ex.call(ex.getattr(g, 'save'), [p], {}))
            if k:
                ex.check('saving fails only without a directory', not_(app('dir:target/..', sort='B')))
                return
            h = ex.call(ex.getattr(getcls(ex, HQ), 'load'), [p], {}) if how == 'file' else callq(ex, 'dhg.structure.base:load_structure', p)
        if same_hyper(ex, how, h, want, n, vw):
            independent(ex, 'the copy and the original share nothing', h, g)
            cache_valid(ex, h, 'cache of the copy')
        same_content(ex, g, snap, 'the original is unchanged')
        cache_valid(ex, g)
        unchanged(ex)
    contract('Hypergraph copy by %s' % how, ['P05', 'P04'] if how == 'clone' else ['P05', 'P06'] if how == 'state dict' else ['P06'], fns)(run)


for _h in ('clone', 'state dict', 'file', 'load_structure'):
    copies(_h)


@contract('Hypergraph.load rejects a Graph', ['P06'], [HQ + '.load'])
def _(ex):
    g = MAKERS[GQ](ex)
    p = Opaque('target')
    ex.assume(app('dir:target/..', sort='B'))
    ex.call(ex.getattr(g, 'save'), [p], {})
    k, _ = raises(ex, lambda: ex.call(ex.getattr(getcls(ex, HQ), 'load'), [p], {}))
    (ex.ok if k else ex.fail)('a file of another class is rejected', 'structural' if k else 'accepted')


# ---------------------------------------------------------------- dropping hyperedges
def drop(one):
    def run(ex):
        g = mk_hyper(ex)
        p = rsym(ex, 'p', 0)
        ex.assume(le(p, const(1, 'R')))
        want, n = gabs(ex, g.attrs[RG]), lift(g.attrs['_num_v'])
        snap = snapshot(g)
        if one:
            grp = the_group(ex, g)
            h = ex.call(ex.getattr(g, 'drop_hyperedges_of_group'), [grp, p], {})
        else:
            h = ex.call(ex.getattr(g, 'drop_hyperedges'), [p], {})
        if not isinstance(h, ObjV) or h.cls.qual != HQ:
            return ex.fail('class', 'not a Hypergraph')
        ex.check('vertices kept', eq(lift(h.attrs['_num_v']), n))
        got = gabs(ex, h.attrs[RG])
        a, e, i = fresh('g', 'U'), fresh('e', 'U'), fresh('i')
        ex.check('groups kept', iff(got.gh(a), want.gh(a)))
        ex.check('a subset of the hyperedges', implies(got.ih(a, e), want.ih(a, e)))
        ex.check('weights kept', eq_any(got.w(a, e), want.w(a, e)), hyps=[got.ih(a, e)])
        ex.check('everything kept at rate zero', implies(want.ih(a, e), got.ih(a, e)), hyps=[eq(p, RZERO)])
        if one:
            ex.check('nothing of the group kept at rate one', not_(got.ih(grp, e)), hyps=[eq(p, const(1, 'R'))])
            ex.check('other groups kept', iff(got.ih(a, e), want.ih(a, e)), hyps=[ne(a, grp)])
        else:
            ex.check('nothing kept at rate one', not_(got.ih(a, e)), hyps=[eq(p, const(1, 'R'))])
        x, ln = vw_at((ex, h), i)
        ex.check('vertex weights kept', and_(eq(ln, n), eq_any(x, app('g_vw', i, sort='R'))), hyps=[le(ZERO, i), lt(i, n)])
        independent(ex, 'the result shares nothing with the original', h, g)
        cache_valid(ex, h, 'cache of the result')
        same_content(ex, g, snap, 'the original is unchanged')
        cache_valid(ex, g)
        unchanged(ex)
    contract('Hypergraph.drop_hyperedges%s' % ('_of_group' if one else ''), ['P14', 'P05', 'P04', 'P27'], [HQ + '.drop_hyperedges' + ('_of_group' if one else ''), HQ + '.from_state_dict'])(run)


drop(False)
drop(True)
