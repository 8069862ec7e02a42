"""P20: evaluators.  The state of an evaluator is the list of the batch results of the running epoch: an arbitrary number of
batches, each an arbitrary number of samples; the metrics are arbitrary functions returning one number per sample."""
from pyvc.spec import *

B = 'dhg.metrics.base'
EV = B + ':BaseEvaluator'
FMT = B + ':format_metric_configs'


def batches(ex, nm):
    """Results of the batches so far: m arrays of shape (size(j), 1)."""
    m = isym(ex, nm + '_m', 0)
    size = lambda j: app(nm + '_size', lift(j), sort='I')
    val = lambda j, i: app(nm + '_val', lift(j), lift(i), sort='R')
    ex.th.axiom(nm + '_size', lambda j: [le(ONE, size(j))])
    ex.assume(le(m, ssum(m, lambda j: size(j))))          # a sum of m sizes, each at least one
    j = fresh('j')
    arr = Tensor((size(j), ONE), lambda i, c, j=j: val(j, i), 'f')
    arr.tag = 'np'
    L = ListV((Loop(j, m, (Item(arr),)),))
    return L, m, size, val


def mean_of(m, size, val):
    tot = ssum(m, lambda j: size(j))
    j, i = fresh('j'), fresh('i')
    return mul(tlib.recip(tot), sum_(((j, m), (i, size(j))), val(j, i)))


def metricfn(ex, nm, log):
    """An arbitrary metric: one number per sample of the batch, or their mean."""
    def call(ex, a, k):
        log.append((nm, list(a), dict(k)))
        n = a[0].shape[0]
        if k.get('ret_batch'):
            return Tensor((n,), lambda i: app('met_' + nm, lift(i), sort='R'), 'f')
        return app('mean_' + nm, sort='R')
    return HostFn('metric ' + nm, call)


def evaluator(ex, index=0, names=('a', 'b', 'c')):
    log = []
    ev = ObjV(getcls(ex, EV), {})
    fs = [metricfn(ex, n, log) for n in names]
    a = dict(validate_index=index, marker_list=ListV([Item(n) for n in names]), func_list=ListV([Item(f) for f in fs]), validate_res=ListV([]),
             test_res_dict=DictV({}, default=lambda ex: ListV([])), last_validate_res=None, last_test_res=DictV({}))
    ev.attrs.update(a)
    return ev, log


def batch(ex):
    n = isym(ex, 'n', 1)
    c = isym(ex, 'c', 1)
    return n, tensor(ex, 'y', (n, c)), tensor(ex, 's', (n, c))


def number(ex, label, got, want):
    if isinstance(got, Tensor) and not got.shape:
        got = got.fn()
    if not lib.isnumv(got):
        ex.fail(label, 'not a number: %s' % type(got).__name__)
        return
    ex.check(label, eq(lift(lib.num(got)), want))


@contract('validation epoch result', ['P20'], [EV + '.validate_epoch_res'])
def _(ex):
    ev, log = evaluator(ex)
    L, m, size, val = batches(ex, 'v')
    ex.assume(le(ONE, m))
    ev.attrs['validate_res'] = L
    r = ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {})
    number(ex, 'mean over all samples added since the previous epoch result', r, mean_of(m, size, val))
    left = ex.getattr(ev, 'validate_res')
    ex.check('the next epoch starts without samples', eq(lib.nlen(left.nodes), ZERO))
    r2 = ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {})
    number(ex, 'asked again, the same result', r2, mean_of(m, size, val))


def appended(ex, label, before, after, n, f):
    """after is before with one more array, holding f(i) for the n samples of the batch."""
    if len(after) != len(before) + 1 or any(x is not y for x, y in zip(before, after)) or not isinstance(after[-1], Item):
        ex.fail(label, 'not exactly one array appended')
        return
    teq(ex, label, after[-1].val, (n, ONE), lambda i, c: f(i))


for _i in range(3):
    @contract('validation add batch, metric %d' % _i, ['P20'], [EV + '.validate_add_batch'])
    def _(ex, i=_i):
        ev, log = evaluator(ex, i)
        L, m, size, val = batches(ex, 'v')
        before = L.nodes
        ev.attrs['validate_res'] = L
        n, y, s = batch(ex)
        last = rsym(ex, 'last')
        ev.attrs['last_validate_res'] = last
        ex.call(ex.getattr(ev, 'validate_add_batch'), [y, s], {})
        ex.check('exactly the selected metric is evaluated, once, on the batch', len(log) == 1 and log[0][0] == 'abc'[i] and log[0][1][0] is y and log[0][1][1] is s)
        appended(ex, 'one value per sample is added to the running epoch', before, ex.getattr(ev, 'validate_res').nodes, n, lambda k: app('met_' + 'abc'[i], k, sort='R'))
        ex.check('the last result is kept', eq(lift(ex.getattr(ev, 'last_validate_res')), last))
        ex.check('the test state is untouched', not ex.getattr(ev, 'test_res_dict').d)
        unchanged(ex)


@contract('validation without samples', ['P20'], [EV + '.validate_epoch_res'])
def _(ex):
    ev, log = evaluator(ex)
    k, r = raises(ex, lambda: ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {}))
    (ex.ok if k else ex.fail)('refused when no sample was ever added', 'returned %r' % (r,))
    ev, log = evaluator(ex)
    last = rsym(ex, 'last')
    ev.attrs['last_validate_res'] = last
    number(ex, 'the previous result is repeated', ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {}), last)


@contract('validation, one batch after the other', ['P20'], [EV + '.validate_add_batch', EV + '.validate_epoch_res'])
def _(ex):
    ev, log = evaluator(ex, 1)
    n, y, s = batch(ex)
    ex.call(ex.getattr(ev, 'validate_add_batch'), [y, s], {})
    r = ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {})
    number(ex, 'the mean of the batch', r, mul(tlib.recip(n), ssum(n, lambda i: app('met_b', i, sort='R'))))
    n2 = isym(ex, 'n2', 1)
    ex.call(ex.getattr(ev, 'validate_add_batch'), [tensor(ex, 'y2', (n2, ONE)), tensor(ex, 's2', (n2, ONE))], {})
    r = ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {})
    number(ex, 'the next epoch does not count earlier samples', r, mul(tlib.recip(n2), ssum(n2, lambda i: app('met_b', i, sort='R'))))


def tstate(ex, ev, names):
    st = {}
    for nm in names:
        st[nm] = batches(ex, 't' + nm)
    ex.getattr(ev, 'test_res_dict').d.update({nm: st[nm][0] for nm in names})
    return st


@contract('test add batch', ['P20'], [EV + '.test_add_batch'])
def _(ex):
    for first in (True, False):
        ev, log = evaluator(ex)
        names = 'abc'
        st = {} if first else tstate(ex, ev, names)
        before = {nm: (() if first else st[nm][0].nodes) for nm in names}
        n, y, s = batch(ex)
        ex.call(ex.getattr(ev, 'test_add_batch'), [y, s], {})
        ex.check('every metric is evaluated once on the batch', [l[0] for l in log] == list(names) and all(l[1][0] is y and l[1][1] is s for l in log))
        d = ex.getattr(ev, 'test_res_dict').d
        if list(d) != list(names):
            ex.fail('results are labelled', 'keys %r' % list(d))
            return
        for nm in names:
            appended(ex, 'one value per sample is added under the label of its metric', before[nm], d[nm].nodes, n, lambda k: app('met_' + nm, k, sort='R'))
        ex.check('the validation state is untouched', not ex.getattr(ev, 'validate_res').nodes)
        unchanged(ex)


@contract('test epoch result', ['P20'], [EV + '.test_epoch_res'])
def _(ex):
    ev, log = evaluator(ex)
    names = 'abc'
    st = tstate(ex, ev, names)
    for nm in names:
        ex.assume(le(ONE, st[nm][1]))
    old = ex.getattr(ev, 'last_test_res')
    r = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
    if not isinstance(r, DictV) or r.d is None or list(r.d) != list(names):
        ex.fail('one result per metric, labelled', 'got %r' % (r,))
        return
    ex.check('results handed out before are not altered', not old.d)
    for nm in names:
        number(ex, 'mean over all samples added since the previous epoch result', r.d[nm], mean_of(*st[nm][1:]))
    ex.check('the next epoch starts without samples', not ex.getattr(ev, 'test_res_dict').d)
    r2 = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
    for nm in names:
        number(ex, 'asked again, the same result', ex.getitem_(r2, nm) if hasattr(ex, 'getitem_') else lib.getitem(ex, r2, nm), mean_of(*st[nm][1:]))
    # a further epoch does not change the result already handed out
    n, y, s = batch(ex)
    ex.call(ex.getattr(ev, 'test_add_batch'), [y, s], {})
    r3 = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
    ex.check('a new result', r3 is not r)
    for nm in names:
        number(ex, 'the result of the earlier epoch is kept', r.d[nm], mean_of(*st[nm][1:]))
        number(ex, 'the new epoch counts its own samples only', r3.d[nm], mul(tlib.recip(n), ssum(n, lambda i: app('met_' + nm, i, sort='R'))))


@contract('test without samples', ['P20'], [EV + '.test_epoch_res'])
def _(ex):
    ev, log = evaluator(ex)
    ev.attrs['last_test_res'] = DictV({'a': rsym(ex, 'last')})
    r = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
    number(ex, 'the previous result is repeated', r.d.get('a') if isinstance(r, DictV) else None, app('last', sort='R'))


@contract('one-shot evaluation', ['P20'], [EV + '.validate', EV + '.test'])
def _(ex):
    for i in range(3):
        ev, log = evaluator(ex, i)
        n, y, s = batch(ex)
        number(ex, 'validate: the selected metric', ex.call(ex.getattr(ev, 'validate'), [y, s], {}), app('mean_' + 'abc'[i], sort='R'))
        r = ex.call(ex.getattr(ev, 'test'), [y, s], {})
        for nm in 'abc':
            number(ex, 'test: every metric under its label', r.d.get(nm) if isinstance(r, DictV) else None, app('mean_' + nm, sort='R'))
        ex.check('no sample is added to the epoch', not ex.getattr(ev, 'validate_res').nodes and not ex.getattr(ev, 'test_res_dict').d)
        unchanged(ex)


def lst(*xs):
    return ListV([Item(x) for x in xs])


TASKS = {'retrieval': ('dhg.metrics.retrieval', ['precision', 'recall', 'map', 'ndcg', 'mrr', 'pr_curve']), 'recommender': ('dhg.metrics.recommender', ['precision', 'recall', 'ndcg']),
         'classification': ('dhg.metrics.classification', ['accuracy', 'f1_score', 'confusion_matrix'])}


for _t in TASKS:
    @contract('metric configuration, ' + _t, ['P20'], [FMT])
    def _(ex, t=_t):
        mod, names = TASKS[t]
        for nm in names:
            r = callq(ex, FMT, t, lst(nm))
            d = r.nodes[0].val.d
            ex.check('a bare name is its own label', d['marker'] == nm and d['func_name'] == nm)
            ex.check('and names the metric of the module', d['func'] is getcls(ex, '%s:%s' % (mod, nm)))
            r = callq(ex, FMT, t, lst(DictV({nm: DictV({'k': 7})}), nm, DictV({nm: DictV({'k': 2, 'ratio': 0.5})}), DictV({nm: DictV({'method': 'legacy', 'points': ListV([Item(3), Item(8)])})})))
            ex.check('every configuration keeps its place', len(r.nodes) == 4 and r.nodes[1].val.d['marker'] == nm)
            marks = [x.val.d['marker'] for x in r.nodes]
            ex.check('the label names metric and parameters', all(isinstance(m, str) and m.startswith(nm) for m in marks) and all(w in marks[0] for w in ('k', '7')) and all(w in marks[2] for w in ('k', '2', 'ratio', '0.5')) and all(w in marks[3] for w in ('method', 'legacy', 'points', '3', '8')) and len(set(marks)) == 4)
            seen = []
            f = getcls(ex, '%s:%s' % (mod, nm))
            for i, kw in ((0, {'k': 7}), (2, {'k': 2, 'ratio': 0.5})):
                p = r.nodes[i].val.d['func']
                ex.check('parameters given are bound to the metric', partial_of(p) == (f, kw))
        for bad in ('nosuch', DictV({'nosuch': DictV({})}), DictV({names[0]: DictV({}), names[1]: DictV({})})):
            k, r = raises(ex, lambda: callq(ex, FMT, t, lst(bad)))
            (ex.ok if k else ex.fail)('unknown metrics and malformed entries are refused', 'accepted')


def partial_of(p):
    if hasattr(p, 'partial'):
        f, a, kw = p.partial
        return (f, kw) if not a else None
    return None


@contract('evaluator constructor', ['P20'], [EV + '.__init__'])
def _(ex):
    for t in TASKS:
        mod, names = TASKS[t]
        for i in range(2):
            ev = ex.instantiate(getcls(ex, EV), [t, lst(names[0], DictV({names[1]: DictV({'k': 5})}))], {'validate_index': i})
            ms = [n.val for n in ex.getattr(ev, 'marker_list').nodes]
            fs = [n.val for n in ex.getattr(ev, 'func_list').nodes]
            ex.check('labels and metrics in the configured order', ms[0] == names[0] and ms[1].startswith(names[1]) and fs[0] is getcls(ex, '%s:%s' % (mod, names[0])) and partial_of(fs[1]) == (getcls(ex, '%s:%s' % (mod, names[1])), {'k': 5}))
            ex.check('the selected metric', ex.getattr(ev, 'validate_index') == i)
            ex.check('a new evaluator holds no samples', not ex.getattr(ev, 'validate_res').nodes and not ex.getattr(ev, 'test_res_dict').d)
            k, r = raises(ex, lambda: ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {}))
            (ex.ok if k else ex.fail)('and no result', 'returned')
        for bad in (-1, 2, 3):
            k, r = raises(ex, lambda: ex.instantiate(getcls(ex, EV), [t, lst(*names[:2])], {'validate_index': bad}))
            (ex.ok if k else ex.fail)('an index out of range is refused', 'accepted')
        k, r = raises(ex, lambda: ex.instantiate(getcls(ex, EV), ['nosuch', lst(names[0])], {}))
        (ex.ok if k else ex.fail)('an unknown task is refused', 'accepted')


for _q, _t in (('dhg.metrics.retrieval:RetrievalEvaluator', 'retrieval'), ('dhg.metrics.recommender:UserItemRecommenderEvaluator', 'recommender'), ('dhg.metrics.classification:VertexClassificationEvaluator', 'classification')):
    @contract('evaluator of the task ' + _t, ['P20'], [_q + '.__init__'])
    def _(ex, q=_q, t=_t):
        mod, names = TASKS[t]
        ev = ex.instantiate(getcls(ex, q), [lst(*names[:2]), 1], {})
        ex.check('metrics of its task', [n.val for n in ex.getattr(ev, 'func_list').nodes] == [getcls(ex, '%s:%s' % (mod, n)) for n in names[:2]])
        ex.check('the selected metric', ex.getattr(ev, 'validate_index') == 1)
        log = []
        ev.attrs['func_list'] = ListV([Item(metricfn(ex, n, log)) for n in 'ab'])
        n, y, s = batch(ex)
        number(ex, 'validate: the selected metric', ex.call(ex.getattr(ev, 'validate'), [y, s], {}), app('mean_b', sort='R'))
        r = ex.call(ex.getattr(ev, 'test'), [y, s], {})
        number(ex, 'test: labelled', r.d.get(names[0]) if isinstance(r, DictV) else None, app('mean_a', sort='R'))
        if t != 'classification':
            ex.call(ex.getattr(ev, 'validate_add_batch'), [y, s], {})
            number(ex, 'epoch result', ex.call(ex.getattr(ev, 'validate_epoch_res'), [], {}), mul(tlib.recip(n), ssum(n, lambda i: app('met_b', i, sort='R'))))
            ex.call(ex.getattr(ev, 'test_add_batch'), [y, s], {})
            r = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
            number(ex, 'epoch result, labelled', r.d.get(names[1]) if isinstance(r, DictV) else None, mul(tlib.recip(n), ssum(n, lambda i: app('met_b', i, sort='R'))))


@contract('metrics with several values per sample', ['P20'], [EV + '.test_add_batch', EV + '.test_epoch_res'])
def _(ex):
    """A curve metric returns two tables (one row per sample); its epoch result is the pair of mean rows."""
    W = 3
    log = []

    def call(ex, a, k):
        n = a[0].shape[0]
        log.append(k)
        mk = lambda nm: Tensor((n, const(W)), lambda i, c: app(nm, lift(i), lift(c), n, sort='R'), 'f')
        return (mk('cx'), mk('cy'), Tensor((n,), lambda i: app('cz', lift(i), n, sort='R'), 'f'))
    ev, _ = evaluator(ex)
    flat = []
    ev.attrs['marker_list'] = ListV([Item('curve'), Item('a')])
    ev.attrs['func_list'] = ListV([Item(HostFn('curve', call)), Item(metricfn(ex, 'a', flat))])
    n, m = isym(ex, 'n', 2), isym(ex, 'm', 2)
    t = lambda nm, n: tensor(ex, nm, (n, const(2)))
    for rep in range(2):
        ex.call(ex.getattr(ev, 'test_add_batch'), [t('y1', n), t('s1', n)], {})
        ex.call(ex.getattr(ev, 'test_add_batch'), [t('y2', m), t('s2', m)], {})
        r = ex.call(ex.getattr(ev, 'test_epoch_res'), [], {})
        if not isinstance(r, DictV) or list(r.d) != ['curve', 'a']:
            ex.fail('labelled', 'keys')
            return
        c = r.d['curve']
        c = [x.val for x in c.nodes] if isinstance(c, ListV) else list(c) if isinstance(c, tuple) else []
        if len(c) != 3:
            ex.fail('one mean row per table', 'got %d' % len(c))
            return
        number(ex, 'the mean of a single-valued table', c[2], mul(tlib.recip(add(n, m)), add(ssum(n, lambda i: app('cz', i, n, sort='R')), ssum(m, lambda i: app('cz', i, m, sort='R')))))
        for x, nm in zip(c, ('cx', 'cy')):
            x = tlib.t_as(ex, [x], {})
            teq(ex, 'mean row over all samples of the epoch', x, (const(W),), lambda j: mul(tlib.recip(add(n, m)), add(ssum(n, lambda i: app(nm, i, j, n, sort='R')), ssum(m, lambda i: app(nm, i, j, m, sort='R')))))
        number(ex, 'the other metric is kept apart', r.d['a'], mul(tlib.recip(add(n, m)), add(ssum(n, lambda i: app('met_a', i, sort='R')), ssum(m, lambda i: app('met_a', i, sort='R')))))
    ex.check('values per sample are requested', all(k.get('ret_batch') is True for k in log + [l[2] for l in flat]))
