"""P19: ranking metrics.  The ranking is the descending order of the scores (torch.argsort / torch.sort: assumed to
return a sorting permutation; without ties it is the only one)."""
from pyvc.spec import *

MODS = {'retrieval': 'dhg.metrics.retrieval', 'recommender': 'dhg.metrics.recommender'}
inv0 = lambda t: app('inv0', t, sort='R')


class Inputs:
    """Relevance and scores of B rows of n items (or one row), the cut-off, and the specification of the ranking."""

    def __init__(self, ex, oned, cut, binary=True, rel=True):
        self.n = isym(ex, 'n', 1)
        self.B = ONE if oned else isym(ex, 'B', 1)
        name = lambda s: (lambda b, i: app(s, *([i] if oned else [b, i]), sort='R'))
        self.y, self.s = name('y'), name('s')
        dims = (self.n,) if oned else (self.B, self.n)
        mk = lambda f, nm: tensor(ex, nm, dims)
        self.yt, self.st = mk(self.y, 'y'), mk(self.s, 's')
        ar = lambda *ix: app('y', *ix, sort='R')
        if binary:
            ex.th.axiom('y', lambda *ix: [or_(eq(ar(*ix), RZERO), eq(ar(*ix), const(1, 'R')))])
            if rel:
                ex.assume(eq(tlib.m_maxmin('max')(ex, [self.yt], {}).fn(), const(1, 'R')))
        else:
            ex.th.axiom('y', lambda *ix: [le(RZERO, ar(*ix))])
        self.kw = {}
        if cut == 'k':
            k = isym(ex, 'k', 1)
            self.kw['k'] = k
            self.k = ite(le(k, self.n), k, self.n)
        elif cut == 'ratio':
            r = rsym(ex, 'ratio')
            ex.assume(and_(lt(RZERO, r), le(r, const(1, 'R'))))
            self.kw['ratio'] = r
            self.k = app('iceil', mul(self.n, r), sort='I')
            ex.assume(and_(le(ONE, self.k), le(self.k, self.n)))        # 0 < r <= 1: arithmetic of the ceiling
        else:
            self.k = self.n
        v, w = fresh('v'), fresh('v')
        two = lambda f: Tensor((self.B, self.n), f)
        self.ex = ex
        self.two = two

    def ranked(self, b, p):
        """Relevance of the item ranked p-th in row b."""
        o = tlib.order_fn(self.ex, self.two(self.s), 1, True)[2]
        return self.y(b, o(b, p))

    def ideal(self, b, p):
        o = tlib.order_fn(self.ex, self.two(self.y), 1, True)[2]
        return self.y(b, o(b, p))

    def hits(self, b):
        return ssum(self.k, lambda p: self.ranked(b, p))

    def dcg(self, f, b):
        return ssum(self.k, lambda p: mul(f(b, p), inv0(tlib.log2(add(p, const(2))))))


def rows(ex, r):
    return tlib.t_as(ex, [r], {}) if isinstance(r, (ListV, tuple)) else r


def outcome(ex, I, got, batch, f):
    if batch:
        r = rows(ex, got)
        if I.B is ONE and isinstance(r, Tensor) and len(r.shape) == 1:
            ex.check('the batch result has one row', eq(r.shape[0], ONE))
            ex.check('the batch result lists the value of every row', eq(r.fn(ZERO), f(ZERO)))
            return
        teq(ex, 'the batch result lists the value of every row', r, (I.B,), f)
    else:
        if isinstance(got, Tensor):
            if got.shape:
                ex.fail('the mean over the rows', 'not a number')
                return
            got = got.fn()
        if not lib.isnumv(got):
            ex.fail('the mean over the rows', 'not a number: %s' % type(got).__name__)
            return
        ex.check('the mean over the rows', eq(lift(lib.num(got)), mul(tlib.recip(I.B), ssum(I.B, lambda b: f(b)))))


def metric(mod, name, value, binary):
    for oned in (False, True):
        for cut in ('k', 'ratio', 'none'):
            for batch in (False, True):
                def run(ex, oned=oned, cut=cut, batch=batch):
                    I = Inputs(ex, oned, cut, binary)
                    kw = dict(I.kw)
                    if batch:
                        kw['ret_batch'] = True
                    got = ex.call(getcls(ex, '%s:%s' % (MODS[mod], name)), [I.yt, I.st], kw)
                    outcome(ex, I, got, batch, lambda b: value(I, lift(b)))
                    unchanged(ex)
                contract('%s.%s[%s, %s%s]' % (mod, name, '1-D' if oned else '2-D', cut, ', batch' if batch else ''), ['P19'], ['%s:%s' % (MODS[mod], name), '%s:_format_inputs' % MODS[mod]])(run)


for _mod in MODS:
    metric(_mod, 'precision', lambda I, b: mul(I.hits(b), tlib.recip(I.k)), True)
    metric(_mod, 'recall', lambda I, b: mul(I.hits(b), inv0(ssum(I.n, lambda i: I.y(b, i)))), True)
    metric(_mod, 'ndcg', lambda I, b: mul(I.dcg(I.ranked, b), inv0(I.dcg(I.ideal, b))), False)


def relevant(I, b, p):
    """1 where the item ranked p-th in row b is relevant."""
    return ite(ne(I.ranked(b, p), RZERO), const(1, 'R'), RZERO)


def rr_value(I, b):
    """Mean of 1/rank over the relevant items of the top k, zero if there are none."""
    return mul(ssum(I.k, lambda p: mul(relevant(I, b, p), tlib.recip(add(p, ONE)))), inv0(ssum(I.k, lambda p: relevant(I, b, p))))


def rowwise(name, single, value, kw={}):
    """A metric of one row and its extension to the rows of a batch."""
    for cut in ('k', 'ratio', 'none'):
        def run(ex, cut=cut):
            I = Inputs(ex, True, cut, False)
            got = ex.call(getcls(ex, 'dhg.metrics.retrieval:' + single), [I.yt, I.st], dict(I.kw, **kw))
            outcome(ex, I, got, False, lambda b: value(I, lift(b)))
            unchanged(ex)
        contract('retrieval.%s[%s]' % (single, ', '.join([cut] + list(kw.values()))), ['P19'], ['dhg.metrics.retrieval:' + single])(run)
        for oned in (True, False):
            for batch in (False, True):
                def run(ex, cut=cut, oned=oned, batch=batch):
                    I = Inputs(ex, oned, cut, True)
                    got = ex.call(getcls(ex, 'dhg.metrics.retrieval:' + name), [I.yt, I.st], dict(I.kw, ret_batch=batch, **kw))
                    outcome(ex, I, got, batch, lambda b: value(I, lift(b)))
                    unchanged(ex)
                contract('retrieval.%s[%s, %s%s]' % (name, '1-D' if oned else '2-D', ', '.join([cut] + list(kw.values())), ', batch' if batch else ''), ['P19'],
                         ['dhg.metrics.retrieval:' + x for x in (name, single, '_format_inputs')])(run)


rowwise('mrr', 'rr', rr_value)


def gained(I, b, p):
    """1 where the item ranked p-th in row b has a positive relevance."""
    return ite(lt(RZERO, I.ranked(b, p)), const(1, 'R'), RZERO)


def hits_upto(I, b, p):
    """Relevant items among the first p + 1."""
    q = fresh('q')
    return add(sum_(((q, p),), gained(I, b, q)), gained(I, b, p))


def ap_legacy(I, b):
    """Mean precision at the ranks of the relevant items of the top k, zero if there are none."""
    return mul(ssum(I.k, lambda p: mul(gained(I, b, p), hits_upto(I, b, p), tlib.recip(add(p, ONE)))), inv0(ssum(I.k, lambda p: gained(I, b, p))))


rowwise('map', 'ap', ap_legacy, {'method': 'legacy'})


def ap_voc(I, b):
    """As above with the precision at each hit replaced by the best precision at it or a later hit."""
    def best(p):
        u = fresh('u')
        return tlib.tail_max(I.ex, u, p, I.k, lt(RZERO, I.ranked(b, u)), mul(hits_upto(I, b, u), tlib.recip(add(u, ONE))))
    return mul(ssum(I.k, lambda p: mul(gained(I, b, p), best(p))), inv0(ssum(I.k, lambda p: gained(I, b, p))))


rowwise('map', 'ap', ap_voc, {'method': 'pascal_voc'})
