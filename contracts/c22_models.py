"""P22: LightGCN, NGCF, DHCF as functions of the propagation matrices of their structures."""
from pyvc.spec import *

BG = 'dhg.structure.graphs.bipartite_graph:BiGraph'
HG = 'dhg.structure.hypergraphs.hypergraph:Hypergraph'


def smooth_summary(sym):
    """X |-> M X, with M the (abstract) propagation matrix of the structure; proved for the concrete matrix under P10/P11."""
    def f(ex, args, kw):
        g, X = args[0], tlib.densify(ex, args[1])
        drop = kw.get('drop_rate', args[2] if len(args) > 2 else 0)
        n = X.shape[0]
        name = '%s_%s' % (sym, g.name)
        if not (isinstance(drop, (int, float)) and drop == 0 or isinstance(drop, Term) and ex.entailed(eq(drop, ZERO))):
            d = lift(drop)
            return Tensor(X.shape, lambda i, c: ssum(n, lambda k: mul(app(name + '_dropped', d, lift(i), k, sort='R'), X.fn(k, c))))
        return Tensor(X.shape, lambda i, c: ssum(n, lambda k: mul(app(name, lift(i), k, sort='R'), X.fn(k, c))))
    return f


def install(ex, names):
    for qual, sym in names.items():
        ex.suite.summaries[qual] = smooth_summary(sym)


def mv(sym, n, X, i, c):
    return ssum(n, lambda k: mul(app(sym, lift(i), k, sort='R'), X(k, c)))


def norm_cols(x, d):
    """Row normalisation x / max(||x||, 1e-12)."""
    return x


LG = 'dhg.models.graphs.lightgcn:LightGCN'


def model(ex, cls, drop, **kw):
    nu, ni, d, L = isym(ex, 'nu', 1), isym(ex, 'ni', 1), isym(ex, 'd', 1), isym(ex, 'L', 0)
    o = ex.instantiate(getcls(ex, cls), [nu, ni, d], {'num_layers': L, 'drop_rate': drop})
    U, V = o.attrs['u_embedding'].attrs['weight'], o.attrs['i_embedding'].attrs['weight']
    E0 = lambda r, c: ite(lt(r, nu), U.fn(r, c), V.fn(add(r, mul(const(-1), nu)), c))
    return o, nu, ni, d, L, E0


def lightgcn(ex, training):
    install(ex, {BG + '.smoothing_with_GCN': 'L'})
    p = rsym(ex, 'p')
    ex.assume(and_(lt(RZERO, p), lt(p, const(1, 'R'))))
    o, nu, ni, d, L, E0 = model(ex, LG, p)
    if training:
        o.attrs['training'] = True
    g = obj(ex, BG)
    g.name = 'g'
    n = add(nu, ni)
    X = lambda l: lambda r, c: ite(eq(l, ZERO), E0(r, c), app('X', l, r, c, sort='R'))
    mat = (lambda i, k: app('L_g_dropped', p, i, k, sort='R')) if training else (lambda i, k: app('L_g', i, k, sort='R'))
    step = lambda l, r, c: ssum(n, lambda k: mul(mat(lift(r), k), X(l)(k, c)))
    spec = PrefixTensorRec('propagation', L, (n, d), X, step)
    ex.loop_specs.append(spec)
    r = ex.call(o, [g], {})
    mean = lambda i, c: mul(tlib.recip(add(L, ONE)), add(E0(i, c), ssum(L, lambda l: step(l, i, c))))
    if not (isinstance(r, tuple) and len(r) == 2):
        ex.fail('result', 'not a pair')
        return
    teq(ex, 'user embeddings are the mean over layers', r[0], (nu, d), lambda i, c: mean(lift(i), c))
    teq(ex, 'item embeddings are the mean over layers', r[1], (ni, d), lambda i, c: mean(add(nu, lift(i)), c))


class PrefixTensorRec(TensorRec):
    """As TensorRec; the state function X(l) itself covers l = 0."""

    def __init__(self, label, n, shape, X, step):
        TensorRec.__init__(self, label, n, shape, '', None)
        self.X, self.stepf = X, step

    def state(self, l):
        f = self.X(lift(l))
        return Tensor(self.shape, lambda *ix: f(*[lift(i) for i in ix]))

    def init(self, ex, v, hi):
        self.hit = True
        teq(ex, self.label + ': initial state', self.loc.old, self.shape, self.state(ZERO).fn)

    def leave(self, ex, v):
        teq(ex, self.label + ': one iteration', self.loc.get(), self.shape, lambda *ix: self.stepf(v, *ix))

    def finish(self, ex, n):
        self.loc.put(ex, self.state(self.n))


contract('LightGCN.forward[eval]', ['P22'], [LG + '.__init__', LG + '.forward', LG + '.reset_parameters'])(lambda ex: lightgcn(ex, False))
contract('LightGCN.forward[train]', ['P22'], [LG + '.__init__', LG + '.forward', LG + '.reset_parameters'])(lambda ex: lightgcn(ex, True))


def lin(W, b, X, n):
    """x |-> W x + b on rows."""
    return lambda r, c: add(ssum(n, lambda k: mul(X(r, k), W(lift(c), k))), b(lift(c)))


def leaky(s, x):
    return app('leaky', const(Fraction(s)), x, sort='R')


def normed(X, d):
    return lambda r, c: mul(X(r, c), app('inv0', app('max_eps', app('sqrt', ssum(d, lambda k: mul(X(r, k), X(r, k))), sort='R'), const(Fraction(1e-12)), sort='R'), sort='R'))


def weights(o, l):
    """Weight and bias symbols of layer l of W_gc and W_bi."""
    out = []
    for nm in ('W_gc', 'W_bi'):
        s = simple(o.attrs[nm].attrs['items'].nodes)
        lay = vsubst(s[2], {s[0]: l})
        out.append((lay.attrs['weight'].fn, lay.attrs['bias'].fn))
    return out


def cf(ex, cls, drop, G, extra):
    o, nu, ni, d, L, E0 = model(ex, cls, drop)
    n = add(nu, ni)
    X = lambda l: lambda r, c: ite(eq(l, ZERO), E0(r, c), app('X', l, r, c, sort='R'))

    def step(l, r, c):
        (Wg, bg), (Wb, bb) = weights(o, l)
        x = X(l)
        g = G(x, nu, ni)
        p = lambda i, q: mul(x(i, q), g(i, q))
        lg = lin(Wg, bg, g, d)
        y = lambda i, q: add(leaky(0.2, add(lg(i, q), x(i, q)) if extra else lg(i, q)), leaky(0.2, lin(Wb, bb, p, d)(i, q)))
        return normed(y, d)(lift(r), lift(c))
    ex.loop_specs.append(PrefixTensorRec('propagation', L, (n, d), X, step))
    gs = []
    for i in range(2 if extra else 1):
        g = obj(ex, HG if extra else BG)
        g.name = 'g%d' % i
        gs.append(g)
    r = ex.call(o, gs, {})
    mean = lambda i, c: mul(tlib.recip(add(L, ONE)), add(E0(i, c), ssum(L, lambda l: step(l, i, c))))
    if not (isinstance(r, tuple) and len(r) == 2):
        ex.fail('result', 'not a pair')
        return
    teq(ex, 'user embeddings are the mean over layers', r[0], (nu, d), lambda i, c: mean(lift(i), c))
    teq(ex, 'item embeddings are the mean over layers', r[1], (ni, d), lambda i, c: mean(add(nu, lift(i)), c))


NG = 'dhg.models.graphs.ngcf:NGCF'
DH = 'dhg.models.hypergraphs.dhcf:DHCF'


@contract('NGCF.forward[eval]', ['P22'], [NG + '.__init__', NG + '.forward', NG + '.reset_parameters'])
def _(ex):
    install(ex, {BG + '.smoothing_with_GCN': 'L'})
    cf(ex, NG, rsym(ex, 'p'), lambda x, nu, ni: (lambda r, c: mv('L_g0', add(nu, ni), x, r, c)), False)


@contract('DHCF.forward[eval]', ['P22'], [DH + '.__init__', DH + '.forward', DH + '.reset_parameters'])
def _(ex):
    install(ex, {HG + '.smoothing_with_HGNN': 'L'})

    def G(x, nu, ni):
        sh = lambda k: add(nu, k)
        return lambda r, c: ite(lt(lift(r), nu), mv('L_g0', nu, x, r, c), mv('L_g1', ni, lambda k, q: x(sh(k), q), add(lift(r), mul(const(-1), nu)), c))
    cf(ex, DH, rsym(ex, 'p'), G, True)
