"""P22: the stacked classification and bipartite models.  Every layer is represented by what it was built with; applying it to an input gives an abstract value that names
the layer and the input (the layers themselves are under contract in c21).  A model is correct when its result is the composition the model promises."""
import ast
from pyvc.spec import *
from pyvc.lib import HostObj
from pyvc.core import Unsupported
from pyvc.core import HostFn

M_ = 'dhg.models.'
CV = {'GCNConv': 'dhg.nn.convs.graphs.gcn_conv:GCNConv', 'GATConv': 'dhg.nn.convs.graphs.gat_conv:GATConv', 'GINConv': 'dhg.nn.convs.graphs.gin_conv:GINConv',
      'GraphSAGEConv': 'dhg.nn.convs.graphs.graphsage_conv:GraphSAGEConv', 'HGNNConv': 'dhg.nn.convs.hypergraphs.hgnn_conv:HGNNConv',
      'HGNNPConv': 'dhg.nn.convs.hypergraphs.hgnnp_conv:HGNNPConv', 'HNHNConv': 'dhg.nn.convs.hypergraphs.hnhn_conv:HNHNConv',
      'HyperGCNConv': 'dhg.nn.convs.hypergraphs.hypergcn_conv:HyperGCNConv', 'UniGCNConv': 'dhg.nn.convs.hypergraphs.unignn_conv:UniGCNConv',
      'UniGATConv': 'dhg.nn.convs.hypergraphs.unignn_conv:UniGATConv', 'UniSAGEConv': 'dhg.nn.convs.hypergraphs.unignn_conv:UniSAGEConv',
      'UniGINConv': 'dhg.nn.convs.hypergraphs.unignn_conv:UniGINConv', 'MLP': 'dhg.nn.convs.common:MLP', 'MultiHeadWrapper': 'dhg.nn.convs.common:MultiHeadWrapper',
      'Discriminator': 'dhg.nn.convs.common:Discriminator', 'Decoder': M_ + 'graphs.bgnn:Decoder'}
SIG = {'nn.Linear': ['in_features', 'out_features', 'bias'], 'nn.Dropout': ['p', 'inplace'], 'nn.BatchNorm1d': ['num_features']}
DEF = {'nn.Linear': {'bias': True}, 'nn.Dropout': {'p': 0.5, 'inplace': False}, 'nn.BatchNorm1d': {}}


class Flow(HostObj):
    """The value op(args): args are flows, layers or constants."""
    always_true = True

    def __init__(self, op, *args):
        self.birth = birth()
        self.op, self.args = op, args

    def binop(self, ex, o, other, swap=False):
        if o == 'add':
            return Flow('add', *((other, self) if swap else (self, other)))
        raise Unsupported('operator %s' % o)

    def getattr(self, ex, name):
        if name in ('to', 'detach', 'cpu', 'float'):
            return HostFn(name, lambda ex, a, k: self)
        raise Unsupported('attribute %s' % name)

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Part(HostObj):
    """A layer: its class and the arguments it was built with."""
    always_true = True

    def __init__(self, cls, params, rest=()):
        self.birth = birth()
        self.cls, self.params, self.rest = cls, params, rest
        self.training = True

    def callobj(self, ex, a, k):
        return Flow('apply', self, *(list(a) + [k[x] for x in ORDER if x in k] + [k[x] for x in sorted(k) if x not in ORDER]))

    def getattr(self, ex, name):
        if name in ('to', 'cpu', 'train', 'eval'):
            def f(ex, a, k):
                if name in ('train', 'eval'):
                    ex.setattr(self, 'training', name == 'train')
                return self
            return HostFn(name, f)
        raise Unsupported('attribute %s' % name)

    def __repr__(self):
        return '%s%r' % (self.cls, self.params)


ORDER = ['X', 'g', 'hg']


def bind(ex, qual, a, k):
    node = ex.prog.get(qual).node
    names = [x.arg for x in node.args.args][1:]
    out, rest = dict(zip(names, a)), dict(k)
    for n, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
        out.setdefault(n, ast.literal_eval(d))
    for n in names:
        if n in rest:
            out[n] = rest.pop(n)
    if len(a) > len(names) or rest and not node.args.kwarg:
        raise PyRaise('TypeError', 'arguments', ex.where)
    return out, rest


def parts(ex, but=()):
    for nm, q in CV.items():
        if nm in but:
            continue
        def make(ex, a, k, nm=nm, q=q):
            p, rest = bind(ex, q + '.__init__', a, k)
            return Part(nm, p, rest)
        ex.suite.summaries[q] = make
    for nm in ('nn.Linear', 'nn.Dropout', 'nn.BatchNorm1d', 'nn.ReLU', 'nn.ELU', 'nn.LeakyReLU', 'nn.Sigmoid', 'nn.Tanh'):
        def make(ex, a, k, nm=nm):
            p = dict(DEF.get(nm, {}))
            p.update(zip(SIG.get(nm, ['arg%d' % i for i in range(9)]), a))
            p.update(k)
            return Part(nm, p)
        ex.suite.externals[nm] = make
    ex.suite.externals['torch.tanh'] = lambda ex, a, k: Flow('tanh', a[0])


def same(ex, label, got, want):
    """Equality of two abstract values; constants are compared by value."""
    if isinstance(want, Flow):
        if not isinstance(got, Flow) or got.op != want.op:
            return ex.fail(label, 'got %r instead of %r' % (got, want)) and False
        if want.op == 'add':
            return summands(ex, label, got, want)
        if len(got.args) != len(want.args):
            return ex.fail(label, 'got %r instead of %r' % (got, want)) and False
        return all([same(ex, label, x, y) is not False for x, y in zip(got.args, want.args)])
    if isinstance(want, Role):
        if not isinstance(got, Part) or got.cls != want.cls:
            return ex.fail(label, 'got %r instead of a %s' % (got, want.cls)) and False
        if want.part is not None:
            if want.part is got:
                return True
            return ex.fail(label, 'another %s is applied again' % want.cls) and False
        if any(r.part is got for r in want.group):
            return ex.fail(label, 'one %s is used in two places' % want.cls) and False
        want.part = got
        for n, v in want.params.items():
            const_eq(ex, '%s: %s' % (want.name, n), got.params.get(n, got.rest.get(n) if isinstance(got.rest, dict) else None), v)
        ex.ok(label + ': ' + want.name)
        return True
    return const_eq(ex, label, got, want)


def summands(ex, label, got, want):
    flat = lambda f: [y for x in f.args for y in flat(x)] if isinstance(f, Flow) and f.op == 'add' else [f]
    a, b = flat(got), flat(want)
    depth = lambda f: 0 if not isinstance(f, Flow) else 1 + max([depth(x) for x in f.args] + [0])
    a, b = sorted(a, key=depth), sorted(b, key=depth)
    if len(a) != len(b):
        return ex.fail(label, '%d terms instead of %d' % (len(a), len(b))) and False
    return all([same(ex, label, x, y) is not False for x, y in zip(a, b)])


def const_eq(ex, label, got, want):
    if isinstance(want, (Term, int, float)) and not isinstance(want, bool) and isinstance(got, (Term, int, float)) and not isinstance(got, bool):
        return ex.check(label, eq(lift(got), lift(want)))
    if got is want or (type(got) is type(want) and not isinstance(got, (Term, HostObj, ObjV)) and got == want):
        ex.ok(label)
        return True
    if isinstance(want, ListV) and isinstance(got, ListV) and all_items(got.nodes) and len(got.nodes) == len(want.nodes):
        return all([const_eq(ex, label, x.val, y.val) for x, y in zip(got.nodes, want.nodes)])
    if isinstance(want, bool) and isinstance(got, Term):
        return ex.check(label, got if want else not_(got))
    return ex.fail(label, 'got %r instead of %r' % (got, want)) and False


class Role:
    """A layer of the specification: the first layer met in its place must have the given arguments and keeps the place."""

    def __init__(self, name, cls, group, **params):
        self.name, self.cls, self.params, self.part, self.group = name, cls, params, None, group
        group.append(self)


def two_layer(nm, qual, conv, hyper, args=(), extra_model=None, conv_of=None, training=(False, True)):
    for tr in training:
        for bn in (True, False):
            def run(ex, tr=tr, bn=bn):
                parts(ex)
                ci, ch, cc = isym(ex, 'in_c', 1), isym(ex, 'hid_c', 1), isym(ex, 'cls_c', 1)
                p = rsym(ex, 'drop_rate')
                o = ex.instantiate(getcls(ex, qual), [ci, ch, cc], dict(extra_model or {}, use_bn=bn, drop_rate=p))
                o.attrs['training'] = tr
                X, g = Flow('X'), Flow('structure')
                r = ex.call(o, [X, g], {})
                grp = []
                kw = dict(conv_of or {})
                first = Role('first layer', conv, grp, in_channels=ci, out_channels=ch, use_bn=bn, drop_rate=p, is_last=False, **kw)
                last = Role('last layer', conv, grp, in_channels=ch, out_channels=cc, use_bn=bn, is_last=True, **kw)
                same(ex, 'the layers are applied in order', r, Flow('apply', last, Flow('apply', first, X, g), g))
            contract('%s.forward[%s%s]' % (nm, 'train' if tr else 'eval', ', bn' if bn else ''), ['P22'], [qual + '.__init__', qual + '.forward'])(run)


two_layer('GCN', M_ + 'graphs.gcn:GCN', 'GCNConv', False)
for _a in ('mean', 'sum'):
    two_layer('GraphSAGE %s' % _a, M_ + 'graphs.graphsage:GraphSAGE', 'GraphSAGEConv', False, extra_model={'aggr': _a}, conv_of={'aggr': _a})
two_layer('HGNN', M_ + 'hypergraphs.hgnn:HGNN', 'HGNNConv', True)
two_layer('HGNNP', M_ + 'hypergraphs.hgnnp:HGNNP', 'HGNNPConv', True)
two_layer('HNHN', M_ + 'hypergraphs.hnhn:HNHN', 'HNHNConv', True)
two_layer('UniGCN', M_ + 'hypergraphs.unignn:UniGCN', 'UniGCNConv', True)
two_layer('UniSAGE', M_ + 'hypergraphs.unignn:UniSAGE', 'UniSAGEConv', True)
_e = app('eps', sort='R')
for _t in (False, True):
    two_layer('UniGIN %s' % ('trained eps' if _t else 'eps'), M_ + 'hypergraphs.unignn:UniGIN', 'UniGINConv', True, extra_model={'eps': _e, 'train_eps': _t}, conv_of={'eps': _e, 'train_eps': _t})


def attention_model(nm, qual, conv, var):
    for tr in (False, True):
        def run(ex, tr=tr):
            parts(ex)
            ci, ch, cc, K = isym(ex, 'in_c', 1), isym(ex, 'hid_c', 1), isym(ex, 'cls_c', 1), isym(ex, 'heads', 1)
            p, s = rsym(ex, 'drop_rate'), rsym(ex, 'slope')
            o = ex.instantiate(getcls(ex, qual), [ci, ch, cc, K], {'use_bn': True, 'drop_rate': p, 'atten_neg_slope': s})
            o.attrs['training'] = tr
            X, g = Flow('X'), Flow('structure')
            r = ex.call(o, [X, g], {})
            grp, d = [], []
            opts = dict(use_bn=True, drop_rate=p, atten_neg_slope=s)
            multi = Role('attention heads', 'MultiHeadWrapper', grp, num_heads=K, readout='concat', in_channels=ci, out_channels=ch, **opts)
            out = Role('output layer', conv, grp, in_channels=mul(ch, K), out_channels=cc, **opts)
            d1, d2 = Role('input dropout', 'nn.Dropout', d, p=p), Role('hidden dropout', 'nn.Dropout', [], p=p)
            same(ex, 'the layers are applied in order', r, Flow('apply', out, Flow('apply', d2, Flow('apply', multi, Flow('apply', d1, X), g)), g))
            if multi.part is not None:
                q = multi.part.params.get('layer')
                (ex.ok if getattr(q, 'qual', None) == CV[conv] else ex.fail)('heads are %s layers' % conv, 'heads of %r' % (q,))
        contract('%s.forward[%s]' % (nm, 'train' if tr else 'eval'), ['P22'], [qual + '.__init__', qual + '.forward'])(run)


attention_model('GAT', M_ + 'graphs.gat:GAT', 'GATConv', 'g')
attention_model('UniGAT', M_ + 'hypergraphs.unignn:UniGAT', 'UniGATConv', 'hg')


def hypergcn(fast, med):
    q = M_ + 'hypergraphs.hypergcn:HyperGCN'

    def run(ex):
        parts(ex)
        made = []

        def build(ex, a, k):
            made.append(Flow('expansion', *(list(a[-3:] if len(a) > 3 else a) + list(k.values()))))
            return made[-1]
        ex.suite.summaries['dhg.structure.graphs.graph:Graph.from_hypergraph_hypergcn'] = build
        ci, ch, cc = isym(ex, 'in_c', 1), isym(ex, 'hid_c', 1), isym(ex, 'cls_c', 1)
        p = rsym(ex, 'drop_rate')
        o = ex.instantiate(getcls(ex, q), [ci, ch, cc], {'use_mediator': med, 'use_bn': True, 'fast': fast, 'drop_rate': p})
        o.attrs['training'] = bsym(ex, 'training')
        grp = []
        first = Role('first layer', 'HyperGCNConv', grp, in_channels=ci, out_channels=ch, use_bn=True, drop_rate=p, is_last=False, use_mediator=med)
        last = Role('last layer', 'HyperGCNConv', grp, in_channels=ch, out_channels=cc, use_bn=True, is_last=True, use_mediator=med)
        X, g = Flow('X'), Flow('structure')
        for call in ('first call', 'second call'):
            r = ex.call(o, [X, g], {})
            more = (Flow('expansion', g, X, med),) if fast else ()
            same(ex, 'the layers are applied in order (%s)' % call, r, Flow('apply', last, Flow('apply', first, X, g, *more), g, *more))
        (ex.ok if len(made) == (1 if fast else 0) else ex.fail)('the expansion is built once in fast mode', '%d times' % len(made))
    contract('HyperGCN.forward[%s%s]' % ('fast' if fast else 'exact', ', mediator' if med else ''), ['P22'], [q + '.__init__', q + '.forward'])(run)


for _f in (True, False):
    for _m in (True, False):
        hypergcn(_f, _m)


def lst(*xs):
    return ListV([Item(x) for x in xs])


def gin(L, H):
    q = M_ + 'graphs.gin:GIN'

    def run(ex):
        parts(ex)
        ci, ch, cc = isym(ex, 'in_c', 1), isym(ex, 'hid_c', 1), isym(ex, 'cls_c', 1)
        p, e, te = rsym(ex, 'drop_rate'), rsym(ex, 'eps'), bsym(ex, 'train_eps')
        o = ex.instantiate(getcls(ex, q), [ci, ch, cc, L], {'num_mlp_layers': H, 'eps': e, 'train_eps': te, 'use_bn': True, 'drop_rate': p})
        X, g = Flow('X'), Flow('structure')
        r = ex.call(o, [X, g], {})
        grp, mg = [], []
        pred = Flow('apply', Role('prediction of the input', 'nn.Linear', grp, in_features=ci, out_features=cc), X)
        h = X
        convs = []
        for l in range(L):
            conv = Role('layer %d' % l, 'GINConv', grp, eps=e, train_eps=te)
            convs.append(conv)
            h = Flow('apply', conv, h, g)
            pred = Flow('add', pred, Flow('apply', Role('prediction of layer %d' % l, 'nn.Linear', grp, in_features=ch, out_features=cc), h))
        same(ex, 'the sum of the predictions of all layers', r, pred)
        for l, c in enumerate(convs):
            if c.part is not None:
                want = lst(*([ci if l == 0 else ch] + [ch] * H))
                same(ex, 'network of layer %d' % l, [v for v in c.part.params.values() if isinstance(v, Part)][0], Role('network of layer %d' % l, 'MLP', mg, channel_list=want, use_bn=True, drop_rate=p))
    contract('GIN.forward[%d layers, %d network layers] (bounded)' % (L, H), ['P22'], [q + '.__init__', q + '.forward'])(run)


for _L, _H in ((2, 2), (3, 1), (4, 2)):
    gin(_L, _H)


@contract('GIN refuses fewer than two layers', ['P22'], [M_ + 'graphs.gin:GIN.__init__'])
def _(ex):
    parts(ex)
    k, _ = raises(ex, lambda: ex.instantiate(getcls(ex, M_ + 'graphs.gin:GIN'), [3, 4, 2, 1], {}))
    (ex.ok if k else ex.fail)('refused', 'accepted')


def bgnn(kind, depth, how):
    q = M_ + 'graphs.bgnn:BGNN_' + kind

    def run(ex):
        parts(ex)
        BG = 'dhg.structure.graphs.bipartite_graph:BiGraph'
        for d in ('v2u', 'u2v'):
            def mp(ex, a, k, d=d):
                p, _ = bind(ex, BG + '.' + d, a[1:], k)
                if p['drop_rate'] != 0 or any(p.get(x) is not None for x in ('v2u_weight', 'u2v_weight', 'e_weight')):
                    raise Unsupported('dropped or weighted message passing')
                return Flow(d, p['aggr'], p['X'])
            ex.suite.summaries[BG + '.' + d] = mp
        trained = []
        if how == 'train':
            def tr(ex, a, k):
                p, _ = bind(ex, q + '.train_one_layer', a[1:], k)
                trained.append((p, [x for x in p.values() if isinstance(x, Part)]))
                for x in p.values():
                    if isinstance(x, Part):
                        ex.setattr(x, 'training', True)
            ex.suite.summaries[q + '.train_one_layer'] = tr
        du, dv, dh, dd = isym(ex, 'u_dim', 1), isym(ex, 'v_dim', 1), isym(ex, 'hid_dim', 1), isym(ex, 'dec_dim', 1)
        p = rsym(ex, 'drop_rate')
        o = ex.instantiate(getcls(ex, q), [du, dv] + ([dh, dd, p] if kind == 'MLP' else []), {'layer_depth': depth})
        if how == 'train':
            o.attrs['to'] = HostFn('to', lambda ex, a, k: o)
        XU, XV, g = Flow('X_u'), Flow('X_v'), obj(ex, BG)
        g.name = 'g'
        lr, wd, me = rsym(ex, 'lr'), rsym(ex, 'wd'), isym(ex, 'epochs', 0)
        if how == 'train':
            r = ex.call(ex.getattr(o, 'train_with_cascaded'), [XU, XV, g, lr, wd, me] + ([p] if kind == 'Adv' else []), {})
        else:
            r = ex.call(o, [XU, XV, g], {})
        grp = []
        u, v, want_tr = XU, XV, []
        for l in range(depth):
            even = l % 2 == 0
            lin = Role('layer %d' % l, 'nn.Linear', grp, in_features=dv if even else du, out_features=dh if kind == 'MLP' else (du if even else dv))
            x = Flow('tanh', Flow('v2u' if even else 'u2v', 'sum', Flow('apply', lin, v if even else u)))
            dec = None
            if kind == 'MLP':
                dec = Role('decoder %d' % l, 'Decoder', grp, in_channels=dh, hid_channels=dd, out_channels=du if even else dv, drop_rate=p)
                x = Flow('apply', dec, x)
            want_tr.append((u if even else v, v if even else u, 'v2u' if even else 'u2v', lin, dec))
            u, v = (x, v) if even else (u, x)
        # everything the last u-embedding is built from is checked; with an even depth the last layer only changes the other side
        same(ex, 'the layers are applied in order', r, u)
        if how != 'train':
            return
        if len(trained) != depth:
            return ex.fail('every layer is trained once', '%d' % len(trained))
        for l, ((ps, prts), (true, other, d, lin, dec)) in enumerate(zip(trained, want_tr)):
            same(ex, 'layer %d is trained towards its own side' % l, ps['X_true'], true)
            same(ex, 'layer %d is trained on the other side' % l, ps['X_other'], other)
            probe = Flow('probe')
            same(ex, 'layer %d passes messages the right way' % l, ex.call(ps['mp_func'], [probe], {}), Flow(d, 'sum', probe))
            same(ex, 'layer %d is the one trained' % l, ps['layer'], lin)
            for nm, w in (('lr', lr), ('weight_decay', wd), ('max_epoch', me)):
                const_eq(ex, 'layer %d is trained with the given %s' % (l, nm), ps[nm], w)
            if dec is not None:
                same(ex, 'decoder %d is the one trained' % l, ps['decoder'], dec)
                (ex.ok if not ps['decoder'].training else ex.fail)('decoder %d is left in evaluation mode' % l, 'left in training mode')
            else:
                const_eq(ex, 'layer %d is trained with the given drop rate' % l, ps['drop_rate'], p)
    fn = 'train_with_cascaded' if how == 'train' else 'forward'
    contract('BGNN_%s.%s[depth %d] (bounded)' % (kind, fn, depth), ['P22'], [q + '.__init__', q + '.' + fn])(run)


for _k in ('Adv', 'MLP'):
    for _d in (1, 2, 3, 4, 5):
        for _h in ('forward', 'train'):
            bgnn(_k, _d, _h)


def chain(ex, o, X):
    r = ex.call(o, [X], {})
    seq = []
    while isinstance(r, Flow) and r.op == 'apply':
        seq.insert(0, r.args[0])
        if len(r.args) != 2:
            return None
        r = r.args[1]
    return seq if r is X else None


def chain_is(ex, o, want):
    seq = chain(ex, o, Flow('X'))
    if seq is None or len(seq) != len(want):
        return ex.fail('the parts are applied in order', '%r' % (seq,))
    grp = []
    for s, (cls, ps) in zip(seq, want):
        same(ex, 'the parts are applied in order', s, Role(cls, cls, grp if cls != 'nn.Dropout' else [], **ps))


def mlp(n, bn, last, act):
    q = CV['MLP']

    def run(ex):
        parts(ex, but=('MLP',))
        cs = [isym(ex, 'c%d' % i, 1) for i in range(n)]
        p = rsym(ex, 'drop_rate')
        ex.suite.externals.setdefault('nn.modules.activation.' + act, ex.suite.externals.get('nn.' + act))
        o = ex.instantiate(getcls(ex, q), [ListV([Item(c) for c in cs])], {'act_name': act, 'use_bn': bn, 'drop_rate': p, 'is_last': last})
        want = []
        for i in range(1, n):
            want.append(('nn.Linear', dict(in_features=cs[i - 1], out_features=cs[i])))
            if i < n - 1 or not last:
                want.append(('nn.' + act, {}))
                if bn:
                    want.append(('nn.BatchNorm1d', dict(num_features=cs[i])))
                want.append(('nn.Dropout', dict(p=p)))
        chain_is(ex, o, want)
    contract('MLP[%d channels%s%s, %s] (bounded)' % (n, ', bn' if bn else '', ', last' if last else '', act), ['P22', 'P21'], [q + '.__init__', q + '.forward'])(run)


for _n in (2, 3, 4):
    for _bn in (True, False):
        for _last in (True, False):
            mlp(_n, _bn, _last, 'ReLU')
mlp(3, True, False, 'ELU')


@contract('Discriminator', ['P22'], [CV['Discriminator'] + '.__init__', CV['Discriminator'] + '.forward'])
def _(ex):
    parts(ex, but=('Discriminator',))
    a, b, c, p = isym(ex, 'a', 1), isym(ex, 'b', 1), isym(ex, 'c', 1), rsym(ex, 'drop_rate')
    o = ex.instantiate(getcls(ex, CV['Discriminator']), [a, b, c], {'drop_rate': p})
    chain_is(ex, o, [('nn.Linear', dict(in_features=a, out_features=b)), ('nn.LeakyReLU', {}), ('nn.Dropout', dict(p=p)), ('nn.Linear', dict(in_features=b, out_features=c)), ('nn.Sigmoid', {})])


@contract('BGNN Decoder', ['P22'], [CV['Decoder'] + '.__init__', CV['Decoder'] + '.forward'])
def _(ex):
    parts(ex, but=('Decoder',))
    a, b, c, p = isym(ex, 'a', 1), isym(ex, 'b', 1), isym(ex, 'c', 1), rsym(ex, 'drop_rate')
    o = ex.instantiate(getcls(ex, CV['Decoder']), [a, b, c], {'drop_rate': p})
    chain_is(ex, o, [('nn.Linear', dict(in_features=a, out_features=b)), ('nn.ReLU', {}), ('nn.Dropout', dict(p=p)), ('nn.Linear', dict(in_features=b, out_features=c)), ('nn.Tanh', {})])
