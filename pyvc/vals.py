"""Symbolic Python values: sequences with symbolic length, maps, objects, dense and sparse tensors."""
from fractions import Fraction
from .ir import *
from . import ir, norm


class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation is undecided, never violated."""


class Node:
    __slots__ = ()


class Item(Node):
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class Loop(Node):
    __slots__ = ('var', 'hi', 'body')

    def __init__(self, v, hi, body):
        self.var, self.hi, self.body = v, lift(hi), tuple(body)


class If(Node):
    __slots__ = ('cond', 'body')

    def __init__(self, cond, body):
        self.cond, self.body = cond, tuple(body)


class Hole(Node):
    """Stands for the (unknown) content accumulated by earlier iterations of an enclosing loop."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag


class Upd(Hole):
    """A list whose element at the loop index is replaced by every iteration: cur is the element of this iteration."""
    __slots__ = ('var', 'hi', 'cur')

    def __init__(self, tag, v, hi, cur):
        self.tag, self.var, self.hi, self.cur = tag, v, hi, cur


def upd_of(o):
    n = getattr(o, 'nodes', None)
    return n[0] if isinstance(n, tuple) and len(n) == 1 and isinstance(n[0], Upd) else None


_birth = [0]


def birth():
    _birth[0] += 1
    return _birth[0]


class Env(dict):
    """Host dictionary used for variables, attributes and concrete dictionaries (knows when it was created)."""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.birth = birth()


class Poison:
    def __init__(self, why):
        self.why = why


class Opaque:
    """A value nothing is known about except its identity (devices, loggers, file handles, ...)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class ListV:
    def __init__(self, nodes=(), frozen=None, kind='list'):
        self.birth = birth()
        self.nodes = tuple(nodes)
        self.frozen = frozen
        self.kind = kind

    def __repr__(self):
        return 'ListV(%s)' % shown(self.nodes)


class SetV:
    """A set as the sequence of inserted elements; `uniq`: the nodes enumerate every member exactly once."""

    def __init__(self, nodes=(), uniq=False, frozen=None):
        self.birth = birth()
        self.nodes, self.uniq, self.frozen = tuple(nodes), uniq, frozen


class VTup:
    """The tuple of vertices named by the opaque term t (hyperedge code): enumerated by vat(t, q), q < vlen(t)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def nodes(self):
        q = fresh('q')
        return (Loop(q, app('vlen', self.t, sort='I'), (Item(app('vat', self.t, q, sort='I')),)),)


class SymTuple:
    """An immutable sequence (tuple) of symbolic length."""
    __slots__ = ('nodes',)

    def __init__(self, nodes):
        self.nodes = tuple(nodes)


class DictV:
    """Dictionary. Either concrete (`d`: host dict) or symbolic (`st`: MapState)."""

    def __init__(self, d=None, st=None, default=None, frozen=None):
        self.birth = birth()
        if d is None and st is None:
            d = {}
        self.d = Env(d) if d is not None and not isinstance(d, Env) else d
        self.st = st
        self.build = None       # pending (key, value) entries of a dictionary under construction
        self.default = default
        self.frozen = frozen


class ObjV:
    def __init__(self, cls, attrs=None, name=None):
        self.birth = birth()
        self.cls = cls
        self.attrs = Env(attrs if attrs is not None else {})
        self.name = name
        self.frozen = None
        self.module = False

    def __repr__(self):
        return '<%s object %s>' % (getattr(self.cls, 'name', self.cls), self.name or '')


class Tensor:
    def __init__(self, shape, fn, dt='f', base=None):
        self.birth = birth()
        self.shape = tuple(lift(s) for s in shape)
        self.fn = fn
        self.dt = dt
        self.base = base        # the object whose storage this tensor shares, if any
        self.frozen = None
        self.tag = None

    def at(self, *idx):
        return self.fn(*idx)


class RTensor:
    """Tensor with one ragged axis (a node skeleton); items are scalars or fixed tuples. axis: position of the ragged axis."""

    def __init__(self, nodes, inner=None, axis=0, dt='f', base=None):
        self.birth = birth()
        self.nodes, self.inner, self.axis, self.dt, self.base = tuple(nodes), inner, axis, dt, base
        self.frozen = None


class Sparse:
    def __init__(self, nodes, dims, coal=False, dense=None, pat=None):
        self.birth = birth()
        self.nodes = tuple(nodes) if nodes is not None else None            # Items (i, j, value); None: not enumerated yet
        self.dims = tuple(lift(d) for d in dims)
        self.coal = coal
        self._dense, self._pat = dense, pat
        self.frozen = None
        self.enum = None

    def dense(self, i, j):
        if self._dense is not None:
            return self._dense(i, j)
        return add(*([RZERO] + [sum_(bs, iverson(and_(*(cs + [eq(v[0], i), eq(v[1], j)])), v[2])) for bs, cs, v in leaves(self.nodes)]))

    def pat(self, i, j):
        if self._pat is not None:
            return self._pat(i, j)
        return or_(*[exists(bs, and_(*(cs + [eq(v[0], i), eq(v[1], j)]))) for bs, cs, v in leaves(self.nodes)])


def shown(nodes, d=0):
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(repr(n.val))
        elif isinstance(n, Loop):
            out.append('for %s<%s {%s}' % (n.var.args[0], n.hi, shown(n.body)))
        elif isinstance(n, If):
            out.append('if %s {%s}' % (n.cond, shown(n.body)))
        else:
            out.append('...')
    return '; '.join(out)


# ------------------------------------------------------------------------------------------- substitution in values
def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, Term):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, (ListV, SetV)):
        if not any(x in nodes_fv(v.nodes) for x in m):
            return v
        if isinstance(v, ListV):
            return ListV(nsubst(v.nodes, m), kind=v.kind)
        return SetV(nsubst(v.nodes, m), v.uniq)
    if isinstance(v, SymTuple):
        return SymTuple(nsubst(v.nodes, m))
    if isinstance(v, VTup):
        return VTup(subst(v.t, m))
    if isinstance(v, DictV) and v.d is not None:
        return DictV({k: vsubst(x, m) for k, x in v.d.items()}, default=v.default)
    if isinstance(v, DictV) and v.build is not None:
        if not any(x in nodes_fv(v.build) for x in m):
            return v
        r = DictV({}, default=v.default)
        r.d, r.build = None, nsubst(v.build, m)
        return r
    if isinstance(v, DictV) and isinstance(v.st, MapState):
        st = v.st
        vs = [fresh('ti', s) for s in st.codec.sorts]
        h, g = st.has(*vs), st.get(*vs)
        if not any(x in fv(h) or x in vfv(g) or x in fv(lift(st.n)) for x in m):
            return v
        h, g = subst(h, m), vsubst(g, m)
        at = lambda ks: dict(zip(vs, ks))
        return DictV(st=MapState(st.codec, lambda *ks: subst(h, at(ks)), lambda *ks: vsubst(g, at(ks)), subst(lift(st.n), m), nsubst(st._nodes, m) if st._nodes is not None else None))
    if isinstance(v, Tensor):
        f = v.fn
        vs = [fresh('ti') for _ in v.shape]
        body = subst(f(*vs), m)
        r = Tensor([subst(s, m) for s in v.shape], lambda *ix: subst(body, dict(zip(vs, [lift(i) for i in ix]))), v.dt)
        r.tag, r.frozen = v.tag, v.frozen
        return r
    if isinstance(v, Sparse):
        if not any(x in vfv(v) for x in m):
            return v
        r = Sparse(nsubst(v.nodes, m) if v.nodes is not None else None, [subst(d, m) for d in v.dims], v.coal, sfun(v._dense, m), sfun(v._pat, m))
        r.frozen = v.frozen
        if hasattr(v, 'uniq_'):
            r.uniq_ = v.uniq_
        return r
    if isinstance(v, RTensor):
        r = RTensor(nsubst(v.nodes, m), v.inner, v.axis, v.dt, v.base)
        r.frozen = v.frozen
        return r
    if isinstance(v, InnerRef):
        return InnerRef(v.owner, subst(v.g, m))
    if hasattr(v, 'vsubst_'):
        return v.vsubst_(m)
    if isinstance(v, ObjV) and (v.module or not hasattr(v.cls, 'members')) and any(x in vfv(v) for x in m):
        o = ObjV(v.cls, {k: vsubst(x, m) for k, x in v.attrs.items()}, v.name)
        o.frozen, o.module = v.frozen, v.module
        return o
    return v


def sfun(f, m):
    if f is None:
        return None
    a, b = fresh('ti'), fresh('ti')
    body = subst(f(a, b), m)
    return lambda i, j: subst(body, {a: lift(i), b: lift(j)})


def nsubst(nodes, m):
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(Item(vsubst(n.val, m)))
        elif isinstance(n, Loop):
            mm = {k: x for k, x in m.items() if k is not n.var}
            nv = fresh('q')
            mm[n.var] = nv
            out.append(Loop(nv, subst(n.hi, m), nsubst(n.body, mm)))
        elif isinstance(n, If):
            out.append(If(subst(n.cond, m), nsubst(n.body, m)))
        else:
            out.append(n)
    return tuple(out)


def vfv(v):
    if isinstance(v, Term):
        return fv(v)
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r |= vfv(x)
        return r
    if isinstance(v, (ListV, SetV, SymTuple)):
        return nodes_fv(v.nodes)
    if isinstance(v, VTup):
        return fv(v.t)
    if isinstance(v, DictV) and v.build is not None:
        return nodes_fv(v.build)
    if isinstance(v, DictV) and isinstance(v.st, MapState):
        vs = [fresh('ti', s) for s in v.st.codec.sorts]
        return (fv(v.st.has(*vs)) | vfv(v.st.get(*vs)) | fv(lift(v.st.n))) - frozenset(vs)
    if isinstance(v, DictV) and v.d is not None:
        return vfv(tuple(v.d.values()))
    if isinstance(v, Tensor):
        vs = [fresh('ti') for _ in v.shape]
        r = fv(v.fn(*vs)) - frozenset(vs)
        for s in v.shape:
            r |= fv(s)
        return r
    if isinstance(v, Sparse):
        if v._dense is None:
            r = nodes_fv(v.nodes)
        else:
            a, b = fresh('ti'), fresh('ti')
            r = (fv(v._dense(a, b)) | (fv(v._pat(a, b)) if v._pat is not None else frozenset())) - {a, b}
        return r | fv(v.dims[0]) | fv(v.dims[1])
    if isinstance(v, RTensor):
        return nodes_fv(v.nodes)
    if isinstance(v, InnerRef):
        return fv(v.g)
    if hasattr(v, 'vfv_'):
        return v.vfv_()
    if isinstance(v, ObjV) and (v.module or not hasattr(v.cls, 'members')):
        return vfv(tuple(v.attrs.values()))
    return frozenset()


def nodes_fv(nodes):
    r = frozenset()
    for n in nodes:
        if isinstance(n, Item):
            r |= vfv(n.val)
        elif isinstance(n, Loop):
            r |= (nodes_fv(n.body) - {n.var}) | fv(n.hi)
        elif isinstance(n, If):
            r |= nodes_fv(n.body) | fv(n.cond)
    return r


# ------------------------------------------------------------------------------------------- nodes
def nohole(nodes):
    for n in nodes:
        if isinstance(n, Hole):
            raise Unsupported('a list is read while a loop is still extending it')
    return nodes


def leaves(nodes, bs=(), cs=()):
    """(binders, conditions, value) of every element."""
    for n in nodes:
        if isinstance(n, Item):
            yield tuple(bs), list(cs), n.val
        elif isinstance(n, Loop):
            yield from leaves(n.body, tuple(bs) + ((n.var, n.hi),), cs)
        elif isinstance(n, If):
            yield from leaves(n.body, bs, tuple(cs) + (n.cond,))
        else:
            raise Unsupported('a list is read while a loop is still extending it')


def nlen(nodes):
    return add(*([ZERO] + [sum_(bs, iverson(and_(*cs), ONE)) for bs, cs, _ in leaves(nodes)]))


def nmap(nodes, f):
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(Item(f(n.val)))
        elif isinstance(n, Loop):
            out.append(Loop(n.var, n.hi, nmap(n.body, f)))
        elif isinstance(n, If):
            out.append(If(n.cond, nmap(n.body, f)))
        else:
            raise Unsupported('a list is read while a loop is still extending it')
    return tuple(out)


def nrefresh(nodes):
    return nsubst(nodes, {fresh('z'): ZERO})


def ntensor(n, f, name='q'):
    q = fresh(name)
    return (Loop(q, n, (Item(f(q)),)),)


def simple(nodes):
    """(var, hi, value) when the sequence is one unconditional loop over one item."""
    if len(nodes) == 1 and isinstance(nodes[0], Loop) and len(nodes[0].body) == 1 and isinstance(nodes[0].body[0], Item):
        return nodes[0].var, nodes[0].hi, nodes[0].body[0].val
    return None


def all_items(nodes):
    return all(isinstance(n, Item) for n in nodes)


def segments(nodes):
    """[(length, f(k))] when every top-level node is an item or a simple loop; None otherwise."""
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append((ONE, lambda k, n=n: n.val))
        elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], Item):
            out.append((n.hi, lambda k, n=n: vsubst(n.body[0].val, {n.var: lift(k)})))
        else:
            return None
    return out


def nzip(*seqs):
    """Zip of aligned skeletons; None if they cannot be aligned syntactically."""
    seqs = [tuple(s) for s in seqs]
    if len({len(s) for s in seqs}) != 1:
        return None
    out = []
    for ns in zip(*seqs):
        if all(isinstance(n, Item) for n in ns):
            out.append(Item(tuple(n.val for n in ns)))
        elif all(isinstance(n, Loop) for n in ns):
            if any(n.hi is not ns[0].hi for n in ns):
                if any(norm.akey(n.hi) != norm.akey(ns[0].hi) for n in ns):
                    return None
            v = fresh('q')
            b = nzip(*[nsubst(n.body, {n.var: v}) for n in ns])
            if b is None:
                return None
            out.append(Loop(v, ns[0].hi, b))
        elif all(isinstance(n, If) for n in ns):
            if any(n.cond is not ns[0].cond for n in ns):
                return None
            b = nzip(*[n.body for n in ns])
            if b is None:
                return None
            out.append(If(ns[0].cond, b))
        else:
            return None
    return tuple(out)


def vite(c, a, b):
    """Merge of two values under a condition (structures must agree)."""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (Term, bool, int, float, Fraction)) and isinstance(b, (Term, bool, int, float, Fraction)):
        if not isinstance(a, Term) and not isinstance(b, Term) and type(a) == type(b) and a == b:
            return a
        ta, tb = lift(a), lift(b)
        if (ta.sort in 'IR') != (tb.sort in 'IR') and ta.sort != tb.sort:
            raise Unsupported('merge of different sorts')
        return ite(c, ta, tb)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and a == b:
        return a
    if isinstance(a, DictV) and isinstance(b, DictV) and a.d is not None and b.d is not None and set(a.d) == set(b.d):
        return DictV({k: vite(c, a.d[k], b.d[k]) for k in a.d}, default=a.default)
    if isinstance(a, VTup) and isinstance(b, VTup):
        return VTup(ite(c, a.t, b.t))
    if isinstance(a, Tensor) and isinstance(b, Tensor) and a.shape == b.shape:
        fa, fb = a.fn, b.fn
        return Tensor(a.shape, lambda *ix: ite(c, fa(*ix), fb(*ix)), a.dt)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if all_items(a.nodes) and all_items(b.nodes) and len(a.nodes) == len(b.nodes):
            return ListV([Item(vite(c, x.val, y.val)) for x, y in zip(a.nodes, b.nodes)], kind=a.kind)
        return ListV([If(c, a.nodes), If(not_(c), b.nodes)], kind=a.kind)
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


def vsum(bs, c, v):
    """Sum over binders of the numeric leaves of v under condition c."""
    if isinstance(v, (Term, int, float, Fraction, bool)):
        t = lift(v)
        if t.sort == 'U':
            raise Unsupported('sum of opaque values')
        if t.sort == 'B':
            return exists(bs, and_(c, t))
        return sum_(bs, iverson(c, t))
    if isinstance(v, tuple):
        return tuple(vsum(bs, c, x) for x in v)
    if isinstance(v, DictV) and v.d is not None:
        return DictV({k: vsum(bs, c, x) for k, x in v.d.items()})
    raise Unsupported('choice over non-numeric values')


def veq(a, b):
    """Equality of two values as a term."""
    if a is b:
        return TRUE
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return const(a == b)
        if isinstance(a, str) and isinstance(b, Term) and b.sort == 'U':
            return eq(strterm(a), b)
        if isinstance(b, str) and isinstance(a, Term) and a.sort == 'U':
            return eq(a, strterm(b))
        return FALSE
    if a is None or b is None:
        return FALSE
    if isinstance(a, (Term, bool, int, float, Fraction)) and isinstance(b, (Term, bool, int, float, Fraction)):
        ta, tb = lift(a), lift(b)
        if ta.sort == 'B' and tb.sort in 'IR':
            ta = ite(ta, ONE, ZERO)
        if tb.sort == 'B' and ta.sort in 'IR':
            tb = ite(tb, ONE, ZERO)
        return eq(ta, tb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return and_(*[veq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if isinstance(a, VTup) and isinstance(b, VTup):
        return eq(a.t, b.t)
    if isinstance(a, ListV) and isinstance(b, ListV) and all_items(a.nodes) and all_items(b.nodes):
        return and_(*[veq(x.val, y.val) for x, y in zip(a.nodes, b.nodes)]) if len(a.nodes) == len(b.nodes) else FALSE
    if isinstance(a, ListV) and isinstance(b, ListV):
        sa, sb = simple(a.nodes), simple(b.nodes)
        if sa and sb:
            q = fresh('q')
            return and_(eq(sa[1], sb[1]), forall(((q, sa[1]),), veq(vsubst(sa[2], {sa[0]: q}), vsubst(sb[2], {sb[0]: q}))))
        if not b.nodes:
            return eq(nlen(a.nodes), ZERO)
        if not a.nodes:
            return eq(nlen(b.nodes), ZERO)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return const(a.name == b.name)
    if isinstance(a, DictV) and isinstance(b, DictV) and a.d is not None and b.d is not None:
        return and_(*[veq(a.d[k], b.d[k]) for k in a.d]) if set(a.d) == set(b.d) else FALSE
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def strterm(s):
    return app('str:' + s, sort='U')


# ------------------------------------------------------------------------------------------- symbolic maps
_ctr = [0]


def uniq(prefix):
    _ctr[0] += 1
    return '%s%d' % (prefix, _ctr[0])


class MapState:
    """Immutable state of a dictionary with symbolic content.

    enc/dec: codec between Python keys and tuples of key terms (dec may be None when the keys are the terms themselves);
    has(*keyterms) -> B;  get(*keyterms) -> value;  nodes(): enumeration of (key, value) pairs;  n: length.
    """

    def __init__(self, codec, has, get, n, nodes=None):
        self.codec, self.has, self.get, self.n, self._nodes = codec, has, get, n, nodes
        self.origin = None

    def nodes(self, th):
        if self._nodes is None:
            self._nodes = enumerate_map(th, self.codec, self.has, self.get, self.n)
        return self._nodes

    def put(self, ks, v):
        h, g = self.has, self.get
        same = lambda a: and_(*[eq(x, y) for x, y in zip(a, ks)])
        def get2(*a):
            c = same(a)
            if c is TRUE:
                return v
            old = g(*a)
            if c is FALSE:
                return old
            return vite(c, v, old)
        return MapState(self.codec, lambda *a: or_(same(a), h(*a)), get2, add(self.n, iverson(not_(h(*ks)))))

    def remove(self, ks):
        h = self.has
        same = lambda a: and_(*[eq(x, y) for x, y in zip(a, ks)])
        return MapState(self.codec, lambda *a: and_(not_(same(a)), h(*a)), self.get, add(self.n, mul(const(-1), iverson(h(*ks)))))


class Codec:
    """sorts: sorts of the key terms."""

    def __init__(self, sorts, enc, dec):
        self.sorts, self.enc, self.dec = tuple(sorts), enc, dec


def enc_int_pair(k):
    if isinstance(k, tuple) and len(k) == 2:
        return (lift(k[0]), lift(k[1]))
    if isinstance(k, SymTuple) and all_items(k.nodes) and len(k.nodes) == 2:
        return (lift(k.nodes[0].val), lift(k.nodes[1].val))
    raise Unsupported('dictionary key %r' % (k,))


INT_PAIR = Codec('II', enc_int_pair, lambda a, b: (a, b))
INT = Codec('I', lambda k: (lift(k),), lambda a: a)


def enc_u(k):
    if isinstance(k, str):
        return (strterm(k),)
    if isinstance(k, Term) and k.sort == 'U':
        return (k,)
    raise Unsupported('dictionary key %r' % (k,))


STR = Codec('U', enc_u, lambda a: a)


def enc_hcode(k):
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], VTup) and isinstance(k[1], VTup):
        if k[0].t is k[1].t:
            return (k[0].t,)
        return (app('paircode', k[0].t, k[1].t, sort='U'),)
    raise Unsupported('hyperedge code %r' % (k,))


HCODE = Codec('U', enc_hcode, lambda t: (VTup(t), VTup(t)))


def enumerate_map(th, codec, has, get, n, name=None, npre=()):
    """A fresh enumeration of the members: Loop over p < n of (key(p), value(key(p))) with its inverse registered in the theory."""
    nm = name or uniq('en')
    ar = len(codec.sorts)
    knames = ['%s_k%d' % (nm, i) for i in range(ar)]
    posn = nm + '_pos'
    pre = tuple(npre)
    kt = lambda p: tuple(app(knames[i], *(pre + (p,)), sort=codec.sorts[i]) for i in range(ar))
    register_enum(th, knames, posn, codec.sorts, lambda pr, ks: has(*ks), lambda *pr: n)
    q = fresh('p')
    ks = kt(q)
    return (Loop(q, n, (Item((codec.dec(*ks), get(*ks))),)),)


def register_enum(th, knames, posn, sorts, has, n, npre=0, extra=None):
    """Declares key functions k_i(pre, p), position function pos(pre, keys) and the facts linking them."""
    ar = len(knames)
    th.inverses.append(norm.Inverse(tuple(knames), posn, has, npre, n))
    for i in range(ar):
        def rw(args, i=i):
            p = args[npre]
            if p.op == 'app' and p.args[0] == posn and tuple(p.args[1:1 + npre]) == tuple(args[:npre]):
                return p.args[1 + npre + i]
            return None
        ir.APP_REWRITES[knames[i]] = rw

        def ax(*args, i=i):
            pre, p = tuple(args[:npre]), args[npre]
            ks = tuple(app(knames[j], *(pre + (p,)), sort=sorts[j]) for j in range(ar))
            rng = and_(le(ZERO, p), lt(p, n(*pre)))
            out = [implies(rng, has(pre, ks))]
            if extra:
                out += [implies(rng, x) for x in extra(pre, ks)]
            return out
        th.axiom(knames[i], ax)

    def rwpos(args):
        pre, ks = tuple(args[:npre]), args[npre:]
        k0 = ks[0]
        if k0.op == 'app' and k0.args[0] == knames[0] and tuple(k0.args[1:1 + npre]) == pre:
            p = k0.args[1 + npre]
            if all(ks[j].op == 'app' and ks[j].args[0] == knames[j] and ks[j].args[1 + npre] is p for j in range(ar)):
                return p
        return None
    ir.APP_REWRITES[posn] = rwpos

    def axpos(*args):
        pre, ks = tuple(args[:npre]), tuple(args[npre:])
        t = app(posn, *args, sort='I')
        return [implies(has(pre, ks), and_(le(ZERO, t), lt(t, n(*pre))))]
    th.axiom(posn, axpos)


def base_map(th, name, codec, vsort='R', keyfacts=None, value=None):
    """A completely unknown dictionary: symbols name_has/name_v/name_n, enumeration name_k*(p)."""
    ar = len(codec.sorts)
    hs = lambda *ks: app(name + '_has', *ks, sort='B')
    n = app(name + '_n', sort='I')
    th.axiom(name + '_n', lambda: [le(ZERO, n)])
    get = value or (lambda *ks: app(name + '_v', *ks, sort=vsort))
    if keyfacts:
        th.axiom(name + '_has', lambda *ks: [implies(hs(*ks), keyfacts(*ks))])
    th.axiom(name + '_has', lambda *ks: [implies(hs(*ks), le(ONE, n))])
    st = MapState(codec, hs, get, n)
    st._nodes = enumerate_map(th, codec, hs, get, n, name=name)
    st.origin = name
    return st


def nodes_map(codec, nodes):
    """Dictionary built from pairwise distinct (key, value) entries enumerated by nodes."""
    def has(*a):
        return or_(*[exists(bs, and_(*(cs + [eq(x, y) for x, y in zip(codec.enc(kv[0]), a)]))) for bs, cs, kv in leaves(nodes)])

    def get(*a):
        ls = list(leaves(nodes))
        if not ls:
            return RZERO
        parts = [vsum(bs, and_(*(cs + [eq(x, y) for x, y in zip(codec.enc(kv[0]), a)])), kv[1]) for bs, cs, kv in ls]
        r = parts[0]
        for p in parts[1:]:
            r = vadd(r, p)
        return r
    return MapState(codec, has, get, nlen(nodes), nodes)


def vadd(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        return or_(a, b) if a.sort == 'B' else add(a, b)
    if isinstance(a, tuple):
        return tuple(vadd(x, y) for x, y in zip(a, b))
    if isinstance(a, DictV):
        return DictV({k: vadd(a.d[k], b.d[k]) for k in a.d})
    raise Unsupported('vadd')


class VecMap:
    """Hyperedge groups: outer dictionary of group name -> inner dictionary, as one functional state.

    gst: MapState over group names (values unused); ihas(g, e), iget(g, e), inn(g), inodes(g) describe the inner dictionaries."""

    def __init__(self, ghas, gn, ihas, iget, inn, gnodes=None, inodes=None, ord_=None, own=None):
        self.ghas, self.gn, self.ihas, self.iget, self.inn = ghas, gn, ihas, iget, inn
        self._gnodes, self._inodes = gnodes, inodes
        self.ord = ord_ or (lambda g: app('someorder%d' % birth(), g, sort='U'))     # token naming the order of the entries of group g
        self.own = own or Owner()                                                    # identity of the inner dictionaries and their contents
        self.origin = None
        self.cid = birth()                                                           # identity of the content (copies keep it)


class Owner:
    """Stands for the family of inner dictionaries (and entry dictionaries) of a groups dictionary, for aliasing."""


class InnerRef:
    """`groups[name]` of a symbolic groups dictionary: reads and writes go through the owner."""

    def __init__(self, owner, g):
        self.owner, self.g = owner, g
