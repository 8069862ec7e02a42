"""P22: recommender losses and embedding models."""
from pyvc.spec import *

L = 'dhg.nn.loss:BPRLoss'


def bpr(ex, act):
    a, b = rsym(ex, 'alpha'), rsym(ex, 'beta')
    n = isym(ex, 'n', 1)
    pos, neg = tensor(ex, 'pos', (n,)), tensor(ex, 'neg', (n,))
    o = ex.instantiate(getcls(ex, L), [], {'alpha': a, 'beta': b, 'activation': act})
    r = ex.call(o, [pos, neg], {})
    x = lambda i: add(mul(a, pos.fn(i)), mul(const(-1), mul(b, neg.fn(i))))
    spec = mul(const(-1), ssum(n, lambda i: app('log', app('sigmoid', x(i), sort='R'), sort='R')), tlib.recip(n))
    teq(ex, 'loss is mean of -log sigmoid(alpha*pos - beta*neg)', r, (), lambda: spec)
    unchanged(ex)


for _act in ('sigmoid_then_log', 'softplus'):
    contract('BPRLoss.forward[%s]' % _act, ['P22'], [L + '.__init__', L + '.forward'])(lambda ex, act=_act: bpr(ex, act))


@contract('BPRLoss.__init__ rejects unknown activations', ['P22'], [L + '.__init__'])
def _(ex):
    k, _ = raises(ex, lambda: ex.instantiate(getcls(ex, L), [], {'activation': 'relu'}))
    ex.ok('rejected') if k else ex.fail('rejected', 'no exception')


RG = 'dhg.nn.regularization:EmbeddingRegularization'


def emb_reg(ex, p, k):
    wd = rsym(ex, 'wd')
    n, d = [isym(ex, 'n%d' % i, 1) for i in range(k)], isym(ex, 'd', 1)
    es = [tensor(ex, 'emb%d' % i, (n[i], d)) for i in range(k)]
    o = ex.instantiate(getcls(ex, RG), [], {'p': p, 'weight_decay': wd})
    r = ex.call(o, es, {})
    tot = add(*[mul(const(1) if p == 1 else tlib.recip(const(p)), tlib.recip(n[i]), ssum(n[i], lambda u: ssum(d, lambda c: tlib.tpow(es[i].fn(u, c), const(p))))) for i in range(k)])
    teq(ex, 'sum over embeddings of wd/p * mean row p-power sum', r, (), lambda: mul(wd, tot))
    unchanged(ex)


for _p in (1, 2, 3, 4):
    contract('EmbeddingRegularization.forward[p=%d]' % _p, ['P22'], [RG + '.__init__', RG + '.forward'])(lambda ex, p=_p: emb_reg(ex, p, 3))
