"""P09, P04: matrices of hypergraphs, per group and overall."""
from contracts.hyper import *

REPS = {'H_v2e': BH + '.H_v2e', 'v': HQ + '.v'}


def overall(key, props=('P09', 'P04'), extra=()):
    def run(ex):
        o = mk_hyper(ex)
        need_groups(ex, o)
        hg_nonneg(ex)
        snap = snapshot(o)
        want = specs(ex, o)[key]
        got = ex.getattr(o, key)
        want.check(ex, '%s equals its definition' % key, got)
        cache_valid(ex, o, 'cache invariant after reading %s' % key)
        same_content(ex, o, snap)
        unchanged(ex)
    contract('Hypergraph.%s' % key, list(props), [REPS.get(key, '%s.%s' % (HQ, key))] + list(extra))(run)


def of_group(key, props=('P09', 'P04'), extra=()):
    f = (BH if key == 'H_v2e' else HQ) + '.%s_of_group' % key

    def run(ex):
        o = mk_hyper(ex)
        g = the_group(ex, o)
        hg_nonneg(ex)
        snap = snapshot(o)
        want = gspecs(content(ex, o), g)[key]
        got = ex.call(ex.getattr(o, key + '_of_group'), [g], {})
        want.check(ex, '%s equals its definition' % key, got)
        cache_valid(ex, o, 'cache invariant after reading %s_of_group' % key)
        same_content(ex, o, snap)
        unchanged(ex)
    contract('Hypergraph.%s_of_group' % key, list(props), [f] + list(extra))(run)

    def bad(ex):
        o = mk_hyper(ex)
        g = app('grp', sort='U')
        ex.assume(not_(content(ex, o).G.ghas(g)))
        k, _ = raises(ex, lambda: ex.call(ex.getattr(o, key + '_of_group'), [g], {}))
        (ex.ok if k else ex.fail)('an unknown group is rejected', 'structural' if k else 'accepted')
        cache_valid(ex, o)
    contract('Hypergraph.%s_of_group rejects unknown groups' % key, ['P09', 'P04'], [f])(bad)


for _k in AKEYS:
    overall(_k)
for _k in GKEYS:
    of_group(_k)
