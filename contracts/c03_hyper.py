"""P03, P04, P05: the content of hypergraphs follows the history of hyperedge operations, group by group."""
from contracts.hyper import *
from contracts.c01_mutators import merge_of, rest_unchanged, weight_input

RG = '_raw_groups'


def iff(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


class GAbs:
    """Abstract groups: group membership, hyperedge membership, weights, number and order of the hyperedges of a group."""

    def __init__(self, gh, ih, w, inn, ord):
        self.gh, self.ih, self.w, self.inn, self.ord = gh, ih, w, inn, ord


def gabs(ex, d):
    v = GroupsView(ex, d)
    return GAbs(v.ghas, v.ihas, v.w, v.inn, v.ord)


def same_groups(ex, label, got, want, order=True):
    g, e = fresh('g', 'U'), fresh('e', 'U')
    ex.check(label + ': groups', iff(got.gh(g), want.gh(g)))
    a, b = got.ih(g, e), want.ih(g, e)
    ex.check(label + ': hyperedges', iff(a, b))
    ex.check(label + ': weights', eq_any(got.w(g, e), want.w(g, e)), hyps=[a, b])
    ex.check(label + ': number of hyperedges', eq(got.inn(g), want.inn(g)), hyps=[want.gh(g)])
    if order:
        ex.check(label + ': order of the hyperedges', eq(got.ord(g), want.ord(g)), hyps=[want.gh(g)])


# ---------------------------------------------------------------- steps of the specification
def add_step(grp, e, w, merge):
    def f(s):
        new = not_(s.ih(grp, e))
        at = lambda a, b: and_(eq(a, grp), eq(b, e))
        od = lambda a: ite(s.gh(grp), s.ord(a), app('ord_empty', sort='U'))
        return GAbs(lambda a: or_(eq(a, grp), s.gh(a)), lambda a, b: or_(at(a, b), s.ih(a, b)),
                    lambda a, b: ite(at(a, b), ite(s.ih(grp, e), merge(s.w(a, b), w), w), s.w(a, b)),
                    lambda a: ite(s.gh(a), add(s.inn(a), iverson(and_(eq(a, grp), new), ONE)), iverson(eq(a, grp), ONE)),
                    lambda a: ite(and_(eq(a, grp), new), app('ord_put', od(a), e, sort='U'), s.ord(a)))
    return f


def rem_step(sel, e):
    """Removes e from the groups selected by sel."""
    def f(s):
        hit = lambda a: and_(sel(a), s.ih(a, e))
        return GAbs(s.gh, lambda a, b: and_(not_(and_(sel(a), eq(b, e))), s.ih(a, b)), s.w,
                    lambda a: add(s.inn(a), mul(const(-1), iverson(hit(a), ONE))), lambda a: ite(hit(a), app('ord_del', s.ord(a), e, sort='U'), s.ord(a)))
    return f


class GroupFold(LoopSpec):
    """Loop over the m hyperedges given by the caller: groups after l iterations = fold(l), fold(l+1) = step(l, fold(l))."""

    def __init__(self, label, m, before, step, keyfact, other=None, fixed=None):
        self.other, self.fixed = other, fixed
        self.label, self.m, self.before, self.step, self.keyfact = label, lift(m), before, step, keyfact
        self.used = False
        self.nm = uniq('gfold')

    def st(self, l):
        n, fx = self.nm, self.fixed
        gh, gn = (fx.ghas, fx.gn) if fx else (lambda g: app(n + '_gh', l, g, sort='B'), app(n + '_gn', l, sort='I'))
        return VecMap(gh, gn, lambda g, e: app(n + '_ih', l, g, e, sort='B'),
                      lambda g, e: DictV({'w_e': app(n + '_w', l, g, e, sort='R')}), lambda g: app(n + '_in', l, g, sort='I'), fx._gnodes if fx else None, None, lambda g: app(n + '_od', l, g, sort='U'), self.own)

    def abs(self, l):
        s = self.st(lift(l))
        return GAbs(s.ghas, s.ihas, lambda g, e: app(self.nm + '_w', lift(l), g, e, sort='R'), s.inn, s.ord)

    def groups(self, frame):
        try:
            o = frame.lookup('self')
        except Exception:
            return None
        d = o.attrs.get(RG) if isinstance(o, ObjV) else None
        return d if isinstance(d, DictV) else None

    def early(self, ex, loop, frame):
        d = self.groups(frame)
        if d is not None and not self.used and d.d is not None and not d.d and d.build is None and self.hits(ex, loop):
            ex.setattr(d, 'd', None)
            ex.setattr(d, 'st', VecMap(lambda g: FALSE, ZERO, lambda g, e: FALSE, lambda g, e: DictV({'w_e': RZERO}), lambda g: ZERO, (), None))
        return False

    def hits(self, ex, loop):
        return loop.hi is self.m or bool(ex.entailed(eq(loop.hi, self.m)))

    def match(self, ex, loop, locs, frame):
        d = self.groups(frame)
        if self.used or d is None:
            return False
        self.d = d
        return any(l.o is d and l.k == 'st' for l in locs.values()) and self.hits(ex, loop)

    def locs(self, locs):
        return [l for l in locs.values() if l.o is self.d and l.k == 'st']

    def init(self, ex, v, hi):
        self.own = self.d.st.own
        if not getattr(self, 'axed', False):
            self.axed = True
            n, kf = self.nm, self.keyfact
            ex.th.axiom(n + '_ih', lambda l, g, e: [implies(app(n + '_ih', l, g, e, sort='B'), and_(self.st(l).ghas(g), kf(e), le(ONE, app(n + '_in', l, g, sort='I'))))])
            if self.other is not None:
                b, o = self.before, self.other
                ex.th.axiom(n + '_ih', lambda l, g, e: [implies(o(g), and_(iff(app(n + '_ih', l, g, e, sort='B'), b.ih(g, e)), eq(app(n + '_w', l, g, e, sort='R'), b.w(g, e))))])
                ex.th.axiom(n + '_w', lambda l, g, e: [implies(o(g), eq(app(n + '_w', l, g, e, sort='R'), b.w(g, e)))])
                ex.th.axiom(n + '_od', lambda l, g: [implies(o(g), eq(app(n + '_od', l, g, sort='U'), b.ord(g)))])
                ex.th.axiom(n + '_gh', lambda l, g: [implies(o(g), iff(self.st(l).ghas(g), b.gh(g)))])
                ex.th.axiom(n + '_in', lambda l, g: [implies(o(g), eq(app(n + '_in', l, g, sort='I'), b.inn(g)))])
            ex.th.axiom(n + '_in', lambda l, g: [le(ZERO, app(n + '_in', l, g, sort='I'))])
            ex.th.axiom(n + '_gn', lambda l: [le(ZERO, app(n + '_gn', l, sort='I'))])
        same_groups(ex, '%s: the loop starts from the groups before the call' % self.label, gabs(ex, self.d), self.before)

    def enter(self, ex, v):
        ex.setattr(self.d, 'st', self.st(v))

    def leave(self, ex, v):
        got = gabs(ex, self.d)
        same_groups(ex, '%s: one hyperedge' % self.label, got, self.step(v, self.abs(v)))
        g, e = fresh('g', 'U'), fresh('e', 'U')
        ex.check('%s: vertices of the stored hyperedges are in range' % self.label, implies(got.ih(g, e), and_(got.gh(g), self.keyfact(e))))
        if self.other is not None:
            b, h = self.before, [self.other(g)]
            lab = '%s: the other groups stay as they were' % self.label
            ex.check(lab, iff(got.gh(g), b.gh(g)), hyps=h)
            ex.check(lab, iff(got.ih(g, e), b.ih(g, e)), hyps=h)
            ex.check(lab, eq_any(got.w(g, e), b.w(g, e)), hyps=h)
            ex.check(lab, eq(got.inn(g), b.inn(g)), hyps=h)
            ex.check(lab, eq(got.ord(g), b.ord(g)), hyps=h)
        if self.d.st.own is not self.own and not isinstance(self.d.st.own, Owner):
            ex.fail('%s: the inner dictionaries are its own' % self.label, 'mixed')

    def finish(self, ex, n):
        self.used = True
        ex.setattr(self.d, 'st', self.st(lift(n)))


class GroupScan(LoopSpec):
    """Inner loop over all groups that removes hyperedge e: after q groups it is gone from the first q groups."""

    def __init__(self, label, code, posn):
        self.label, self.code, self.posn, self.seen = label, code, posn, set()

    def match(self, ex, loop, locs, frame):
        try:
            o = frame.lookup('self')
        except Exception:
            return False
        d = o.attrs.get(RG) if isinstance(o, ObjV) else None
        if not isinstance(d, DictV) or not isinstance(d.st, VecMap) or not ex.loop_vars or not any(l.o is d and l.k == 'st' for l in locs.values()):
            return False
        if not (loop.hi is d.st.gn or ex.entailed(eq(loop.hi, d.st.gn))):
            return False
        self.d = d
        return True

    def locs(self, locs):
        return [l for l in locs.values() if l.o is self.d and l.k == 'st']

    def st(self, q):
        b, e, q = self.base, self.e, lift(q)
        gone = lambda a: and_(b.ihas(a, e), b.ghas(a), lt(app(self.posn, a, sort='I'), q))
        return VecMap(b.ghas, b.gn, lambda a, x: and_(b.ihas(a, x), not_(and_(eq(x, e), gone(a)))), b.iget, lambda a: add(b.inn(a), mul(const(-1), iverson(gone(a), ONE))),
                      b._gnodes, None, lambda a: ite(gone(a), app('ord_del', b.ord(a), e, sort='U'), b.ord(a)), b.own)

    def init(self, ex, v, hi):
        self.base = self.d.st
        self.e = self.code(ex.loop_vars[-1])

    def enter(self, ex, v):
        b, pos, at = self.base, self.posn, simple(self.base._gnodes)
        if v not in self.seen:      # the enumeration of the groups is one to one
            self.seen.add(v)
            key = STR.enc(vsubst(at[2][0], {at[0]: v}))[0]
            ex.th.axiom(pos, lambda a: [implies(and_(b.ghas(a), eq(app(pos, a, sort='I'), v)), eq(a, key)), implies(and_(eq(a, key), le(ZERO, v), lt(v, b.gn)), eq(app(pos, a, sort='I'), v))])
        ex.setattr(self.d, 'st', self.st(v))

    def leave(self, ex, v):
        want = DictV(st=self.st(add(v, ONE)))
        same_groups(ex, '%s: one group' % self.label, gabs(ex, self.d), gabs(ex, want))

    def finish(self, ex, n):
        ex.setattr(self.d, 'st', self.st(n))


def okv(o_name='g'):
    return lambda e: app(o_name + '_ok', e, sort='B')


def hyperedges(ex, m, ok=True):
    """The caller's list of m hyperedges (tuples of vertices); code(p) is the sorted tuple."""
    raw = lambda p: app('he', lift(p), sort='U')
    code = lambda p: app('canon', raw(p), sort='U')
    if ok:
        ex.th.axiom('he', lambda p: [app('g_ok', code(p), sort='B')])
        ex.th.axiom('canon', lambda t: [app('g_ok', app('canon', t, sort='U'), sort='B')])
    q = fresh('p')
    return code, ListV((Loop(q, m, (Item(VTup(raw(q))),)),), frozen='the caller hyperedge list')


def add_contract(op, weights, group, name='add_hyperedges'):
    def run(ex):
        o = mk_hyper(ex)
        m = isym(ex, 'm', 1)
        code, el = hyperedges(ex, m)
        W, kw = (lambda p: const(1, 'R')), {}
        if weights == 'list':
            W, wl = weight_input(ex, m)
            kw['e_weight'] = wl
        elif weights == 'scalar':
            w1 = rsym(ex, 'w1')
            W = lambda p: w1
            kw['e_weight'] = w1
        if op != 'mean':
            kw['merge_op'] = op
        grp = strterm('main')
        if group:
            grp = app('grp', sort='U')
            kw['group_name'] = grp
        before = gabs(ex, o.attrs[RG])
        sp = GroupFold(name, m, before, lambda l, s: add_step(grp, code(l), W(l), merge_of(op))(s), okv(), lambda a: ne(a, grp))
        ex.loop_specs.append(sp)
        snap = snapshot(o)
        ex.call(ex.getattr(o, name), [el], kw)
        same_groups(ex, 'groups after adding = fold of the insertions', gabs(ex, o.attrs[RG]), sp.abs(m))
        rest_unchanged(ex, o, snap, (RG,))
        cache_valid(ex, o)
        unchanged(ex)
    contract('Hypergraph.%s[%s, weights %s%s]' % (name, op, weights, ', group' if group else ''), ['P03', 'P04', 'P05'],
             [HQ + '.add_hyperedges', BH + '._format_e_list', BH + '._add_hyperedge', BH + '._merge_hyperedges', BH + '._hyperedge_code', BH + '._clear_cache'])(run)


for _op in ('mean', 'sum', 'max'):
    add_contract(_op, 'list', True)
add_contract('mean', 'none', False)
add_contract('sum', 'scalar', True)


def one_hyperedge(ex, ok):
    """A single hyperedge given as a flat list of vertices."""
    t = app('one', sort='U')
    ex.assume(le(ONE, app('vlen', t, sort='I')))
    l = ListV(VTup(t).nodes(), frozen='the caller hyperedge')
    l.vt = (t, l.nodes)
    c = app('canon', t, sort='U')
    if ok:
        ex.th.axiom('canon', lambda t: [app('g_ok', app('canon', t, sort='U'), sort='B')])
    return c, l


@contract('Hypergraph.add_hyperedges[one flat hyperedge]', ['P03', 'P04', 'P05'], [HQ + '.add_hyperedges', BH + '._format_e_list', BH + '._add_hyperedge', BH + '._merge_hyperedges'])
def _(ex):
    o = mk_hyper(ex)
    c, l = one_hyperedge(ex, True)
    grp = app('grp', sort='U')
    b = gabs(ex, o.attrs[RG])
    snap = snapshot(o)
    w = rsym(ex, 'w1')
    ex.call(ex.getattr(o, 'add_hyperedges'), [l, w], {'group_name': grp})
    same_groups(ex, 'one insertion', gabs(ex, o.attrs[RG]), add_step(grp, c, w, merge_of('mean'))(b))
    rest_unchanged(ex, o, snap, (RG,))
    cache_valid(ex, o)
    unchanged(ex)


@contract('Hypergraph.remove_hyperedges[one flat hyperedge]', ['P03', 'P04', 'P05'], [HQ + '.remove_hyperedges', BH + '._format_e_list'])
def _(ex):
    o = mk_hyper(ex)
    c, l = one_hyperedge(ex, False)
    grp = the_group(ex, o)
    b = gabs(ex, o.attrs[RG])
    snap = snapshot(o)
    ex.call(ex.getattr(o, 'remove_hyperedges'), [l], {'group_name': grp})
    same_groups(ex, 'one removal', gabs(ex, o.attrs[RG]), rem_step(lambda a: eq(a, grp), c)(b))
    rest_unchanged(ex, o, snap, (RG,))
    cache_valid(ex, o)
    unchanged(ex)


@contract('Hypergraph.clear', ['P03', 'P04'], [HQ + '.clear', BH + '.clear', BH + '._clear_cache'])
def _(ex):
    o = mk_hyper(ex)
    snap = snapshot(o)
    ex.call(ex.getattr(o, 'clear'))
    none = GAbs(lambda a: FALSE, lambda a, e: FALSE, lambda a, e: RZERO, lambda a: ZERO, lambda a: app('x', sort='U'))
    same_groups(ex, 'no hyperedge group is left', gabs(ex, o.attrs[RG]), none)
    rest_unchanged(ex, o, snap, (RG,))
    cache_valid(ex, o)
    unchanged(ex)


def remove_contract(group):
    def run(ex):
        o = mk_hyper(ex)
        m = isym(ex, 'm', 1)
        code, el = hyperedges(ex, m, ok=False)
        st0 = o.attrs[RG].st
        before = gabs(ex, o.attrs[RG])
        args, sel, other = [el], (lambda a: TRUE), None
        if group:
            grp = the_group(ex, o)
            args.append(grp)
            sel, other = (lambda a: eq(a, grp)), (lambda a: ne(a, grp))
        sp = GroupFold('remove', m, before, lambda l, s: rem_step(sel, code(l))(s), okv(), other, fixed=st0)
        ex.loop_specs += [sp] if group else [GroupScan('remove from every group', code, 'g_g_pos'), sp]
        snap = snapshot(o)
        ex.call(ex.getattr(o, 'remove_hyperedges'), args)
        same_groups(ex, 'groups after removing = fold of the removals', gabs(ex, o.attrs[RG]), sp.abs(m))
        rest_unchanged(ex, o, snap, (RG,))
        cache_valid(ex, o)
        unchanged(ex)
    contract('Hypergraph.remove_hyperedges[%s]' % ('group' if group else 'every group'), ['P03', 'P04', 'P05'],
             [HQ + '.remove_hyperedges', BH + '._format_e_list', BH + '._hyperedge_code', BH + '._clear_cache'])(run)


remove_contract(True)
remove_contract(False)


@contract('Hypergraph.remove_hyperedges[unknown group]', ['P03'], [HQ + '.remove_hyperedges'])
def _(ex):
    o = mk_hyper(ex)
    m = isym(ex, 'm', 1)
    code, el = hyperedges(ex, m, ok=False)
    grp = app('grp', sort='U')
    ex.assume(not_(content(ex, o).G.ghas(grp)))
    snap = snapshot(o)
    k, _ = raises(ex, lambda: ex.call(ex.getattr(o, 'remove_hyperedges'), [el, grp]))
    ex.ok('refused') if k == 'AssertionError' else ex.fail('refused', str(k))
    rest_unchanged(ex, o, snap, ())
    cache_valid(ex, o)
    unchanged(ex)


@contract('Hypergraph.remove_group', ['P03', 'P04'], [HQ + '.remove_group', BH + '._clear_cache'])
def _(ex):
    o = mk_hyper(ex)
    grp = app('grp', sort='U')
    b = gabs(ex, o.attrs[RG])
    snap = snapshot(o)
    ex.call(ex.getattr(o, 'remove_group'), [grp])
    stay = lambda a: ne(a, grp)
    want = GAbs(lambda a: and_(stay(a), b.gh(a)), lambda a, e: and_(stay(a), b.ih(a, e)), b.w, b.inn, b.ord)
    same_groups(ex, 'the group is gone, the others stay', gabs(ex, o.attrs[RG]), want)
    rest_unchanged(ex, o, snap, (RG,))
    cache_valid(ex, o)
    unchanged(ex)
