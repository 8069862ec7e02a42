"""P26: sparse_dropout keeps or fills stored entries; summary used by every propagation operation."""
from contracts.structs import *

SD = 'dhg.utils.sparse:sparse_dropout'


def mk_sp(ex, nm='M', coal=None):
    d = (isym(ex, nm + '_r', 1), isym(ex, nm + '_c', 1))
    s = tlib.mk_sparse(d, lambda i, j: iverson(app(nm + '_p', lift(i), lift(j), sort='B'), app(nm + '_v', lift(i), lift(j), sort='R')), lambda i, j: app(nm + '_p', lift(i), lift(j), sort='B'))
    s.frozen = 'the input matrix'
    return s


@contract('sparse_dropout', ['P26', 'P27'], [SD])
def sd(ex):
    s = mk_sp(ex)
    p, f = rsym(ex, 'p', 0), rsym(ex, 'fill')
    ex.assume(le(p, const(1, 'R')))
    got = callq(ex, SD, s, p, f)
    if not isinstance(got, Sparse):
        return ex.fail('returns a sparse matrix', type(got).__name__)
    ex.check('shape kept', and_(*[eq(a, b) for a, b in zip(got.dims, s.dims)]))
    ix, rng = indices_for(s.dims)
    g, w = got.pat(*ix), s.pat(*ix)
    ex.check('stored positions kept', and_(or_(not_(g), w), or_(not_(w), g)), hyps=rng)
    v, o = got.dense(*ix), s.dense(*ix)
    ex.check('every stored entry is the original or the fill value', or_(eq(v, o), eq(v, f)), hyps=rng + [w])
    ex.check('nothing changes at rate zero', eq(v, o), hyps=rng + [w, eq(p, RZERO)])
    ex.check('everything is filled at rate one', eq(v, f), hyps=rng + [w, eq(p, const(1, 'R'))])
    unchanged(ex)


@contract('sparse_dropout rejects a rate outside [0, 1]', ['P26', 'P27'], [SD])
def sd2(ex):
    s = mk_sp(ex)
    p = rsym(ex, 'p')
    ex.assume(or_(lt(p, RZERO), lt(const(1, 'R'), p)))
    k, _ = raises(ex, lambda: callq(ex, SD, s, p, RZERO))
    (ex.ok if k else ex.fail)('rejected', 'structural' if k else 'rate outside [0, 1] accepted')


@summary(SD, by='sparse_dropout')
def sd_summary(ex, args, kw):
    """A matrix with the same stored positions, each entry the original or the fill value."""
    s = args[0]
    p = lift(args[1] if len(args) > 1 else kw['p'])
    fill = lift(args[2] if len(args) > 2 else kw.get('fill_value', 0.0))
    if not ex.decide(and_(le(ZERO, p), le(p, ONE))):
        raise PyRaise('AssertionError', '', ex.where)
    if ex.decide(eq(p, ZERO)):
        return tlib.coalesce(ex, s)
    c = tlib.coalesce(ex, s)
    calls = ex.__dict__.setdefault('dropouts', [])
    k = 'keep%d' % len(calls)
    keep = lambda i, j: app(k, lift(i), lift(j), sort='B')
    calls.append((s, p, fill, keep))
    r = Sparse(None, s.dims, False, lambda i, j: iverson(c.pat(i, j), ite(keep(i, j), c.dense(i, j), fill)), lambda i, j: c.pat(i, j))
    r.uniq_ = True
    return r
