"""Assumed contracts of the torch / numpy operations used by the code (exact real arithmetic, one device)."""
from fractions import Fraction
from .ir import *
from . import ir, norm
from .vals import *
from .core import *
from .core import MISSING
from . import lib

INV = ('recip', 'rsqrt', 'fdiv')


def R(t):
    return t if t.sort == 'R' else toreal(t)


def asbool(x):
    x = lift(x)
    return x if x.sort == 'B' else ne(x, ZERO)


def asnum(x):
    x = lift(x) if not isinstance(x, float) else const(Fraction(x), 'R')
    return ite(x, ONE, ZERO) if x.sort == 'B' else x


def fn1(name, x):
    x = asnum(x)
    if x.op == 'const':
        c = x.args[0]
        if name == 'sqrt' and c in (0, 1):
            return const(c, 'R')
        if name == 'log' and c == 1:
            return RZERO
        if name == 'exp' and c == 0:
            return const(1, 'R')
    return app(name, x, sort='R')


def recip(x):
    x = asnum(x)
    if x.op == 'const' and x.args[0] != 0:
        return const(1 / Fraction(x.args[0]), 'R')
    return app('recip', x, sort='R')


def fdiv(x, y):
    x, y = asnum(x), asnum(y)
    if y.op == 'const' and y.args[0] != 0:
        return mul(const(1 / Fraction(y.args[0]), 'R'), x)
    return app('fdiv', x, y, sort='R')


def tpow(x, b):
    x = asnum(x)
    if isinstance(b, Term) and b.op == 'const':
        b = b.args[0]
    if isinstance(b, float):
        b = Fraction(b)
    if isinstance(b, (int, Fraction)):
        b = Fraction(b)
        if b == 0:
            return ONE
        if b.denominator == 1 and 0 < b <= 6:
            return mul(*[x] * int(b))
        if b == -1:
            return recip(x)
        if b == Fraction(-1, 2):
            return app('rsqrt', x, sort='R')
        if b == Fraction(1, 2):
            return fn1('sqrt', x)
        if b.denominator == 1 and -6 <= b < 0:
            return mul(*[recip(x)] * int(-b))
        return app('pow', x, const(b), sort='R')
    return app('pow', x, asnum(b), sort='R')


def has_inf(t):
    return any(s.op == 'app' and s.args[0] in INV for s in subterms(t))


def isinf_t(t):
    t = lift(t)
    if t.op in ('const', 'var'):
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isinf_t(t.args[1]), isinf_t(t.args[2]))
    if t.op == 'app':
        if t.args[0] in ('recip', 'rsqrt'):
            return eq(t.args[1], ZERO)
        if t.args[0] == 'fdiv':
            return and_(eq(t.args[2], ZERO), ne(t.args[1], ZERO))
    if t.op == 'mul':
        rest = [x for x in t.args if not (x.op == 'const' and x.args[0] != 0)]
        if len(rest) == 1:
            return isinf_t(rest[0])
    if not has_inf(t):
        return FALSE
    raise Unsupported('isinf of a compound value')


def isnan_t(t):
    t = lift(t)
    if t.op in ('const', 'var'):
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isnan_t(t.args[1]), isnan_t(t.args[2]))
    if t.op == 'app':
        if t.args[0] in ('recip', 'rsqrt'):
            return FALSE
        if t.args[0] == 'fdiv':
            return and_(eq(t.args[2], ZERO), eq(t.args[1], ZERO))
    if t.op == 'mul':
        rest = [x for x in t.args if not (x.op == 'const' and x.args[0] != 0)]
        if len(rest) == 1:
            return isnan_t(rest[0])
    if not has_inf(t):
        return FALSE
    raise Unsupported('isnan of a compound value')


# ------------------------------------------------------------------------------------------- constructors
def dim_eq(ex, a, b):
    if a is b:
        return True
    if a.op == 'const' and b.op == 'const':
        return a.args[0] == b.args[0]
    r = ex.entailed(eq(a, b))
    if r is None:
        raise Unsupported('sizes %s and %s' % (show(a), show(b)))
    return r


def row_tensor(ex, val, shape, dt, k):
    pass


def item_shape(v):
    """Shape of one list element: () for scalars, (n,) for rows, ..."""
    if isinstance(v, tuple):
        s = [item_shape(x) for x in v]
        if not s or any(x is None or x != s[0] for x in s):
            return None
        return (const(len(v)),) + s[0]
    if isinstance(v, (ListV, SymTuple)):
        ns = v.nodes
        if all_items(ns):
            return item_shape(tuple(n.val for n in ns))
        s = simple(ns)
        if s:
            inner = item_shape(s[2])
            return None if inner is None else (s[1],) + inner
        return None
    if isinstance(v, Tensor):
        return v.shape
    if isinstance(v, (Term, int, float, Fraction, bool)):
        return ()
    return None


def pick_item(v, idx):
    """Element idx (tuple of terms) of a nested value."""
    if not idx:
        return lib.num(v) if not (isinstance(v, Term) and v.sort == 'B') and not isinstance(v, bool) else lift(v)
    k, rest = idx[0], idx[1:]
    if isinstance(v, Tensor):
        return v.fn(*idx)
    if isinstance(v, tuple):
        vals = [pick_item(x, rest) for x in v]
        return choose(vals, k)
    if all_items(v.nodes):
        return choose([pick_item(n.val, rest) for n in v.nodes], k)
    s = simple(v.nodes)
    return pick_item(vsubst(s[2], {s[0]: k}), rest)


def choose(vals, k):
    if k.op == 'const':
        i = int(k.args[0])
        if 0 <= i < len(vals):
            return vals[i]
        return ZERO
    if not vals:
        return ZERO
    r = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        r = ite(eq(k, const(i)), vals[i], r)
    return r


def sort_dt(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, Term):
        return {'I': 'i', 'R': 'f', 'B': 'b'}.get(v.sort, 'f')
    if isinstance(v, int):
        return 'i'
    if isinstance(v, (float, Fraction)):
        return 'f'
    if isinstance(v, tuple):
        return sort_dt(v[0]) if v else 'f'
    if isinstance(v, Tensor):
        return v.dt
    if isinstance(v, (ListV, SymTuple)):
        for _, _, x in leaves(v.nodes):
            return sort_dt(x)
    return 'f'


def from_nodes(ex, nodes, dt=None):
    """Tensor (or ragged tensor) with one entry per element of the sequence."""
    nodes = nohole(tuple(nodes))
    first = next(iter(leaves(nodes)), None)
    dt = dt or (sort_dt(first[2]) if first else 'f')
    if all_items(nodes):
        vals = [n.val for n in nodes]
        shapes = [item_shape(v) for v in vals]
        if vals and all(s is None for s in shapes) or any(isinstance(v, (ListV, SymTuple)) and not all_items(v.nodes) and not simple(v.nodes) for v in vals):
            # [row_0, row_1, ...] with ragged rows of equal length
            z = nzip(*[v.nodes for v in vals])
            if z is None:
                raise Unsupported('tensor of unaligned rows')
            return RTensor(z, len(vals), 1, dt)
        if not vals:
            return Tensor((ZERO,), lambda i: RZERO, dt)
        s0 = shapes[0]
        for s in shapes[1:]:
            if s is None or len(s) != len(s0):
                raise PyRaise('ValueError', 'ragged tensor', ex.where)
            for x, y in zip(s, s0):
                if not dim_eq(ex, x, y):
                    raise PyRaise('ValueError', 'ragged tensor', ex.where)
        n = len(vals)
        return Tensor((const(n),) + s0, lambda *ix: choose([pick_item(v, ix[1:]) for v in vals], ix[0]), dt)
    s = simple(nodes)
    if s:
        v, hi, val = s
        sh = item_shape(val)
        if sh is None:
            if isinstance(val, (ListV, SymTuple)):
                raise Unsupported('ragged rows')
            raise Unsupported('tensor of %s' % type(val).__name__)
        return Tensor((hi,) + sh, lambda *ix: pick_item(vsubst(val, {v: lift(ix[0])}), ix[1:]), dt)
    inner = None
    for _, _, x in leaves(nodes):
        sh = item_shape(x)
        if sh is None or len(sh) > 1 or (sh and sh[0].op != 'const'):
            raise Unsupported('ragged tensor of %s' % type(x).__name__)
        k = int(sh[0].args[0]) if sh else None
        if inner is not None and k != inner:
            raise Unsupported('ragged tensor')
        inner = k
    if inner is not None:
        nodes = nmap(nodes, lambda x: tuple(pick_item(x, (const(i),)) for i in range(inner)))
    return RTensor(nodes, inner, 0, dt)


def rlen(t):
    return nlen(t.nodes)


def densify(ex, t):
    """A ragged tensor whose skeleton is a chain of simple segments, as an indexed tensor."""
    if isinstance(t, Tensor):
        return t
    if segments(t.nodes) is None:
        raise Unsupported('indexed access to a ragged tensor')
    n = rlen(t)
    if t.inner is None:
        return Tensor((n,), lambda i: lift(seg_at(t.nodes, lift(i))), t.dt)
    if t.axis == 0:
        return Tensor((n, const(t.inner)), lambda i, k: choose([lift(x) for x in seg_at(t.nodes, lift(i))], lift(k)), t.dt)
    return Tensor((const(t.inner), n), lambda k, i: choose([lift(x) for x in seg_at(t.nodes, lift(i))], lift(k)), t.dt)


def seg_at(nodes, kt):
    segs = segments(nodes)
    off, opts = ZERO, []
    for ln, f in segs:
        opts.append((off, ln, f))
        off = add(off, ln)
    val = None
    for o, ln, f in reversed(opts):
        x = f(add(kt, mul(const(-1), o)))
        val = x if val is None else vite(lt(kt, add(o, ln)), x, val)
    return val


def rshape(t):
    if isinstance(t, Tensor):
        return t.shape
    if isinstance(t, Sparse):
        return t.dims
    n = rlen(t)
    if t.inner is None:
        return (n,)
    return (n, const(t.inner)) if t.axis == 0 else (const(t.inner), n)


def tensor_rows(ex, t):
    """Nodes iterating over the first axis."""
    if isinstance(t, RTensor):
        if t.inner is None:
            return t.nodes
        if t.axis == 0:
            return nmap(t.nodes, lambda v: from_nodes(ex, [Item(x) for x in v], t.dt))
        return tuple(Item(RTensor(nmap(t.nodes, lambda v, i=i: v[i]), None, 0, t.dt)) for i in range(t.inner))
    if not t.shape:
        raise PyRaise('TypeError', 'iteration over a 0-d tensor', ex.where)
    n, rest = t.shape[0], t.shape[1:]
    row = lambda i: t.fn(lift(i)) if not rest else Tensor(rest, lambda *ix: t.fn(lift(i), *ix), t.dt)
    if n.op == 'const' and n.args[0] <= 8:
        return tuple(Item(row(const(i))) for i in range(int(n.args[0])))
    q = fresh('q')
    return (Loop(q, n, (Item(row(q)),)),)


def tunpack(ex, t, n):
    ns = tensor_rows(ex, t)
    if all_items(ns):
        if len(ns) != n:
            raise PyRaise('ValueError', 'unpack', ex.where)
        return tuple(x.val for x in ns)
    if ex.decide(ne(nlen(ns), const(n))):
        raise PyRaise('ValueError', 'unpack', ex.where)
    return tuple(lib.at_index(ex, ns, const(i)) for i in range(n))


# ------------------------------------------------------------------------------------------- elementwise
def lift_t(v):
    if isinstance(v, (Tensor, RTensor)):
        return v
    if isinstance(v, lib.InfV):
        t = app('inf', sort='R')
        t = t if v.sign > 0 else mul(const(-1), t)
        return Tensor((), lambda: t)
    x = lib.num(v) if not (isinstance(v, Term) and v.sort == 'B') else v
    if isinstance(v, bool):
        x = const(v)
    return Tensor((), lambda: x, sort_dt(v))


def emap(ex, f, *ts, dt=None):
    ts = [lift_t(t) for t in ts]
    dts = [t.dt for t in ts]
    if dt is None:
        dt = 'f' if 'f' in dts else ('i' if 'i' in dts else 'b')
    if any(isinstance(t, RTensor) for t in ts):
        rs = [t for t in ts if isinstance(t, RTensor)]
        sc = [t for t in ts if isinstance(t, Tensor) and not t.shape]
        if len(rs) + len(sc) == len(ts) and len({(r.inner, r.axis) for r in rs}) == 1:
            z = nzip(*[r.nodes for r in rs])
            if z is not None:
                inner = rs[0].inner

                def one(vals):
                    it = iter(vals)
                    args = [next(it) if isinstance(t, RTensor) else t.fn() for t in ts]
                    if inner is None:
                        return f(*[lift(a) for a in args])
                    return tuple(f(*[lift(a[i]) if isinstance(t, RTensor) else a for a, t in zip(args, ts)]) for i in range(inner))
                return RTensor(nmap(z, one), inner, rs[0].axis, dt)
        r = emap_filtered(ex, f, ts, dt)
        if r is not None:
            return r
        ts = [densify(ex, t) for t in ts]
    r = max(len(t.shape) for t in ts)
    shape = []
    for d in range(r):
        cur = ONE
        for t in ts:
            k = d - (r - len(t.shape))
            if k < 0:
                continue
            s = t.shape[k]
            if s is ONE or cur is s:
                continue
            if cur is ONE:
                cur = s
            elif not dim_eq(ex, cur, s):
                raise PyRaise('RuntimeError', 'shape mismatch', ex.where)
        shape.append(cur)
    fns = [t.fn for t in ts]
    shs = [t.shape for t in ts]
    r_ = r

    def fn(*ix):
        vals = []
        for g, sh in zip(fns, shs):
            sub = ix[r_ - len(sh):] if len(sh) else ()
            vals.append(g(*[ZERO if (s is ONE and shape[r_ - len(sh) + j] is not ONE) else i for j, (s, i) in enumerate(zip(sh, sub))]))
        return f(*vals)
    return Tensor(shape, fn, dt)


def emap_filtered(ex, f, ts, dt):
    """A filtered vector against indexed vectors of the same length: the entry selected at q has the index "number of
    entries selected before q"."""
    rs = [t for t in ts if isinstance(t, RTensor)]
    if any(r.inner is not None for r in rs) or any(len(t.shape) > 1 for t in ts if isinstance(t, Tensor)):
        return None
    z = nzip(*[r.nodes for r in rs])
    if z is None or len(z) != 1 or not isinstance(z[0], Loop) or len(z[0].body) != 1 or not isinstance(z[0].body[0], If):
        return None
    br = z[0].body[0].body
    if len(br) != 1 or not isinstance(br[0], Item):
        return None
    n = nlen(z)
    for t in ts:
        if isinstance(t, Tensor) and t.shape and not dim_eq(ex, t.shape[0], n):
            return None
    q, c = z[0].var, z[0].body[0].cond
    u = fresh('q')
    rank = sum_(((u, q),), iverson(subst(c, {q: u})))
    it = iter(br[0].val)
    args = [lift(next(it)) if isinstance(t, RTensor) else t.fn(*([rank] if t.shape else [])) for t in ts]
    return RTensor((Loop(q, z[0].hi, (If(c, (Item(f(*args)),)),)),), None, 0, dt)


def arith(ex, o, a, b):
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return sp_arith(ex, o, a, b)
    F_ = {'add': lambda x, y: add(asnum(x), asnum(y)), 'sub': lambda x, y: add(asnum(x), mul(const(-1), asnum(y))), 'mul': lambda x, y: mul(asnum(x), asnum(y)), 'div': fdiv,
          'and': lambda x, y: and_(asbool(x), asbool(y)), 'or': lambda x, y: or_(asbool(x), asbool(y)), 'floordiv': lambda x, y: idiv(x, y), 'mod': lambda x, y: imod(x, y)}
    if o == 'pow':
        if isinstance(b, (Tensor, RTensor)):
            if isinstance(b, Tensor) and not b.shape:
                b = b.fn()
            else:
                return emap(ex, lambda x, y: app('pow', asnum(x), asnum(y), sort='R'), a, b, dt='f')
        return emap(ex, lambda x: tpow(x, b), a, dt='f' if not (isinstance(b, int) and b > 0) else None)
    if o in ('matmul', 'matmult'):
        return matmul(ex, a, b)
    if o not in F_:
        raise Unsupported('tensor operator %s' % o)
    if isinstance(b, ListV) or isinstance(b, tuple):
        b = from_nodes(ex, lib.iter_nodes(ex, b))
    if isinstance(a, ListV) or isinstance(a, tuple):
        a = from_nodes(ex, lib.iter_nodes(ex, a))
    return emap(ex, F_[o], a, b, dt='f' if o == 'div' else ('b' if o in ('and', 'or') else None))


def neg(ex, a):
    if isinstance(a, Sparse):
        return sp_map(a, lambda v: mul(const(-1), v))
    return emap(ex, lambda x: mul(const(-1), asnum(x)), a)


def touch(ex, t):
    """A write into t: reported when t shares the storage of a protected object."""
    o, seen = t, 0
    while o is not None and seen < 10:
        if getattr(o, 'frozen', None):
            ex.frame.append('%s: modifies %s' % (ex.where, o.frozen))
        o = getattr(o, 'base', None)
        seen += 1


def write_into(ex, a, r):
    touch(ex, a)
    if isinstance(a, Tensor) and isinstance(r, Tensor):
        b = getattr(a, 'base', None)
        if b is not None and not getattr(b, 'frozen', None):
            raise Unsupported('write through a view')
        if len(r.shape) != len(a.shape):
            fr = r.fn
            r = emap(ex, lambda x, y: x, r, Tensor(a.shape, lambda *ix: RZERO, r.dt), dt=r.dt)
        ex.setattr(a, 'fn', r.fn)
        return
    if isinstance(a, RTensor) and isinstance(r, RTensor):
        ex.setattr(a, 'nodes', r.nodes)
        return
    raise Unsupported('in-place update')


# ------------------------------------------------------------------------------------------- indexing
def norm_index(ex, k, n):
    if isinstance(k, int) and k < 0:
        if n.op == 'const':
            return const(int(n.args[0]) + k)
        return add(n, const(k))
    return lib.num(k)


def tgetitem(ex, t, k):
    if isinstance(t, Sparse):
        return sp_row(ex, t, k)
    if isinstance(k, ListV):
        k = from_nodes(ex, k.nodes)
    if isinstance(t, RTensor):
        if isinstance(k, int) and t.inner is not None and t.axis == 1:
            if not -t.inner <= k < t.inner:
                raise PyRaise('IndexError', '', ex.where)
            return view_of(RTensor(nmap(t.nodes, lambda v: v[k]), None, 0, t.dt), t)
        if isinstance(k, tuple) and len(k) == 2 and t.inner is not None:
            ki, kr = (k[0], k[1]) if t.axis == 1 else (k[1], k[0])
            if isinstance(ki, int) and isinstance(kr, slice) and kr.start is None and kr.stop is None and kr.step is None:
                return view_of(RTensor(nmap(t.nodes, lambda v: v[ki]), None, 0, t.dt), t)
        if isinstance(k, RTensor) and k.dt == 'b' and k.inner is None:
            z = nzip(t.nodes, k.nodes)
            if z is not None:
                out = nfilter2(z)
                return RTensor(out, t.inner, t.axis, t.dt)
        t = densify(ex, t)
    if not isinstance(k, tuple):
        k = (k,)
    if any(x is Ellipsis for x in k):
        raise Unsupported('ellipsis index')
    # masks
    masks = [x for x in k if isinstance(x, (Tensor, RTensor)) and x.dt == 'b']
    if masks:
        if len(k) != 1:
            raise Unsupported('mask in a tuple index')
        m = densify(ex, k[0])
        if len(m.shape) == 1:
            n = t.shape[0]
            if not dim_eq(ex, m.shape[0], n):
                raise PyRaise('IndexError', 'mask', ex.where)
            q = fresh('q')
            row = t.fn(q) if len(t.shape) == 1 else None
            if row is None:
                if len(t.shape) == 2 and t.shape[1].op == 'const' and t.shape[1].args[0] <= 4:
                    row = tuple(t.fn(q, const(i)) for i in range(int(t.shape[1].args[0])))
                    return RTensor((Loop(q, n, (If(asbool(m.fn(q)), (Item(row),)),)),), len(row), 0, t.dt)
                rest = t.shape[1:]
                return RowsTensor((Loop(q, n, (If(asbool(m.fn(q)), (Item(q),)),)),), t)
            return RTensor((Loop(q, n, (If(asbool(m.fn(q)), (Item(row),)),)),), None, 0, t.dt)
        raise Unsupported('multi-dimensional mask')
    plan, d = [], 0
    shape = []
    gather = None
    for x in k:
        if x is None:
            plan.append(('new', None, None))
            shape.append(ONE)
            continue
        if d >= len(t.shape):
            raise PyRaise('IndexError', 'too many indices', ex.where)
        n = t.shape[d]
        if isinstance(x, slice):
            if x.step not in (None, 1):
                if x.step == -1 and x.start is None and x.stop is None:
                    plan.append(('rev', n, None))
                    shape.append(n)
                    d += 1
                    continue
                raise Unsupported('slice step')
            a = ZERO if x.start is None else bound(ex, x.start, n)
            b = n if x.stop is None else bound(ex, x.stop, n)
            ln = n if x.start is None and x.stop is None else (b if a is ZERO else add(b, mul(const(-1), a)))
            if ln.op == 'const' and ln.args[0] < 0:
                ln = ZERO
            elif ln is not n and ln.op != 'const' and a is not ZERO and ex.entailed(le(ZERO, ln)) is not True:
                ln = tmax(ZERO, ln)
            plan.append(('slice', a, None))
            shape.append(ln)
        elif isinstance(x, (Tensor, RTensor)):
            x = densify(ex, x)
            if not x.shape:
                plan.append(('int', x.fn(), None))
            elif gather is None:
                gather = (len(shape), len(x.shape))
                plan.append(('gather', x, None))
                shape += list(x.shape)
            else:
                if len(x.shape) != gather[1]:
                    raise Unsupported('index broadcasting')
                plan.append(('gather2', x, None))
        elif isinstance(x, (int, Term)):
            kt = norm_index(ex, x, n)
            bad = ex.entailed(and_(le(ZERO, kt), lt(kt, n)))
            if bad is False:
                raise PyRaise('IndexError', '', ex.where)
            if bad is None:
                if ex.decide(not_(and_(le(ZERO, kt), lt(kt, n)))):
                    raise PyRaise('IndexError', '', ex.where)
            plan.append(('int', kt, None))
        else:
            raise Unsupported('tensor index %s' % type(x).__name__)
        d += 1
    rest = t.shape[d:]
    shape = tuple(shape) + tuple(rest)
    g = t.fn

    def fn(*ix):
        ix = [lift(i) for i in ix]
        pos, out = 0, []
        gi = None
        for kind, x, _ in plan:
            if kind == 'new':
                pos += 1
            elif kind == 'slice':
                out.append(add(ix[pos], x))
                pos += 1
            elif kind == 'rev':
                out.append(add(x, mul(const(-1), ix[pos]), const(-1)))
                pos += 1
            elif kind == 'gather':
                gi = ix[pos:pos + len(x.shape)]
                out.append(x.fn(*gi))
                pos += len(x.shape)
            elif kind == 'gather2':
                out.append(x.fn(*gi))
            else:
                out.append(x)
        return g(*(out + list(ix[pos:])))
    copy = any(p[0].startswith('gather') for p in plan)
    if not shape and not copy:
        r = Tensor((), lambda: fn(), t.dt)
    else:
        r = Tensor(shape, fn, t.dt)
    if not copy:
        r.base = t
    return r


class RowsTensor:
    """Rows of a tensor selected by a mask (row index sequence + source)."""

    def __init__(self, nodes, src):
        self.nodes, self.src = nodes, src
        self.dt = src.dt
        self.frozen = None
        self.birth = birth()


def view_of(r, t):
    r.base = t
    return r


def nfilter2(z):
    out = []
    for n in z:
        if isinstance(n, Item):
            out.append(If(asbool(n.val[1]), (Item(n.val[0]),)))
        elif isinstance(n, Loop):
            out.append(Loop(n.var, n.hi, nfilter2(n.body)))
        else:
            out.append(If(n.cond, nfilter2(n.body)))
    return tuple(out)


def bound(ex, x, n):
    if isinstance(x, int) and x < 0:
        if n.op == 'const':
            return const(max(0, int(n.args[0]) + x))
        return tmax(ZERO, add(n, const(x)))
    t = lib.num(x)
    r = ex.entailed(le(t, n))
    if r is True:
        return t
    if t.op == 'const' and n.op == 'const':
        return const(min(t.args[0], n.args[0]))
    return tmin(t, n)


def tsetitem(ex, t, k, v):
    touch(ex, t)
    if isinstance(v, ListV):
        v = from_nodes(ex, v.nodes)
    b = getattr(t, 'base', None)
    if b is not None and not getattr(b, 'frozen', None):
        raise Unsupported('write through a view')
    if isinstance(t, RTensor):
        if isinstance(k, RTensor) and k.dt == 'b':
            z = nzip(t.nodes, k.nodes)
            if z is not None and not isinstance(v, (Tensor, RTensor)):
                x = lib.num(v)
                inner = t.inner
                if inner is None:
                    ex.setattr(t, 'nodes', nmap(z, lambda p: ite(asbool(p[1]), x, lift(p[0]))))
                    return
        raise Unsupported('assignment into a ragged tensor')
    old = t.fn
    if not isinstance(k, tuple):
        k = (k,)
    if len(k) == 1 and isinstance(k[0], (Tensor, RTensor)) and k[0].dt == 'b':
        m = densify(ex, k[0])
        if isinstance(v, (Tensor, RTensor)) and not (isinstance(v, Tensor) and not v.shape):
            raise Unsupported('masked assignment of a tensor')
        x = lift_t(v).fn()
        r = len(m.shape)
        for a, c in zip(m.shape, t.shape):
            if not dim_eq(ex, a, c):
                raise PyRaise('IndexError', 'mask', ex.where)
        ex.setattr(t, 'fn', lambda *ix: ite(asbool(m.fn(*ix[:r])), conv(x, t.dt), old(*ix)))
        return
    conds, d, pos = [], 0, []
    free = []
    idxs = []
    for x in k:
        n = t.shape[d]
        if isinstance(x, (ListV, lib.GroupRef)):
            x = from_nodes(ex, lib.iter_nodes(ex, x), dt='i')
        if isinstance(x, slice):
            if x.step not in (None, 1):
                raise Unsupported('slice step')
            a = ZERO if x.start is None else bound(ex, x.start, n)
            e = n if x.stop is None else bound(ex, x.stop, n)
            full = x.start is None and x.stop is None
            conds.append((lambda i, a=a, e=e, full=full: TRUE if full else and_(le(a, i), lt(i, e))))
            free.append((d, a, add(e, mul(const(-1), a))))
        elif isinstance(x, (int, Term)) or (isinstance(x, Tensor) and not x.shape):
            kt = x.fn() if isinstance(x, Tensor) else norm_index(ex, x, n)
            if ex.decide(not_(and_(le(ZERO, kt), lt(kt, n)))):
                raise PyRaise('IndexError', '', ex.where)
            conds.append(lambda i, kt=kt: eq(i, kt))
        elif isinstance(x, (Tensor, RTensor)):
            for bs, cs, val in leaves(from_any_nodes(ex, x)):
                bad = exists(bs, and_(*(cs + [not_(and_(le(ZERO, lift(val)), lt(lift(val), n)))])))
                if bad is not FALSE and ex.entailed(bad) is not False and not ex.norm().prove(not_(bad))[0] and ex.decide(bad):
                    raise Unsupported('assignment at an index outside the tensor')
            idxs.append((d, x))
            conds.append(None)
        else:
            raise Unsupported('assignment index')
        d += 1
    if idxs:
        if isinstance(v, (Tensor, RTensor)) and not (isinstance(v, Tensor) and not v.shape):
            raise Unsupported('indexed assignment of a tensor')
        x = lift_t(v).fn()
        rows = [from_any_nodes(ex, y) for _, y in idxs]
        z = nzip(*rows)
        if z is None:
            raise Unsupported('index tensors')
        dims = [dd for dd, _ in idxs]

        def hit(ix):
            parts = []
            for bs, cs, vals in leaves(z):
                parts.append(exists(bs, and_(*(cs + [eq(lift(val), ix[dd]) for val, dd in zip(vals, dims)]))))
            return and_(*([or_(*parts)] + [c(ix[i]) for i, c in enumerate(conds) if c is not None]))
        ex.setattr(t, 'fn', lambda *ix: ite(hit([lift(i) for i in ix]), conv(x, t.dt), old(*ix)))
        return
    v = densify(ex, lift_t(v))
    nd = d
    rest = list(range(nd, len(t.shape)))

    def fn(*ix):
        ix = [lift(i) for i in ix]
        c = and_(*[f(ix[i]) for i, f in enumerate(conds)])
        sub = [add(ix[dd], mul(const(-1), a)) for dd, a, _ in free] + [ix[r] for r in rest]
        sub = sub[len(sub) - len(v.shape):] if len(v.shape) else []
        sub = [ZERO if s is ONE else i for s, i in zip(v.shape, sub)]
        return ite(c, conv(v.fn(*sub), t.dt), old(*ix))
    ex.setattr(t, 'fn', fn)


def from_any_nodes(ex, t):
    if isinstance(t, RTensor):
        return t.nodes
    if len(t.shape) != 1:
        raise Unsupported('index rank')
    n = t.shape[0]
    if n.op == 'const' and n.args[0] <= 8:
        return tuple(Item(t.fn(const(i))) for i in range(int(n.args[0])))
    q = fresh('q')
    return (Loop(q, n, (Item(t.fn(q)),)),)


def conv(x, dt):
    x = lift(x)
    if dt == 'b' and x.sort != 'B':
        return ne(x, ZERO)
    if dt in 'fi' and x.sort == 'B':
        return ite(x, ONE, ZERO)
    return x


# ------------------------------------------------------------------------------------------- shapes
def ints(ex, a):
    if len(a) == 1 and isinstance(a[0], (tuple, ListV, SymTuple)):
        v = a[0]
        a = list(v) if isinstance(v, tuple) else [n.val for n in v.nodes]
    return [x if isinstance(x, int) else lib.pyint(lib.num(x)) for x in a]


def reshape(ex, t, dims):
    if isinstance(t, RTensor):
        if t.inner is None and dims == [-1]:
            return view_of(RTensor(t.nodes, None, 0, t.dt), t)
        if t.inner is None and dims == [1, -1]:
            return view_of(RTensor(nmap(t.nodes, lambda v: (v,)), 1, 1, t.dt), t)
        if t.inner is None and dims == [-1, 1]:
            return view_of(RTensor(nmap(t.nodes, lambda v: (v,)), 1, 0, t.dt), t)
        if t.inner == 1 and dims == [-1]:
            return view_of(RTensor(nmap(t.nodes, lambda v: v[0]), None, 0, t.dt), t)
        t = densify(ex, t)
    src = list(t.shape)
    dims = [d if isinstance(d, int) else lib.num(d) for d in dims]
    tot = mul(*src) if src else ONE
    if -1 in [d for d in dims if isinstance(d, int)]:
        i = [j for j, d in enumerate(dims) if isinstance(d, int) and d == -1][0]
        others = [lift(d) for j, d in enumerate(dims) if j != i]
        a = [s for s in src if s is not ONE]
        o = [s for s in others if s is not ONE]
        for s in list(o):
            hit = [x for x in a if x is s]
            if not hit:
                hit = [x for x in a if ex.entailed(eq(x, s))]
            if hit:
                a = [x for x in a if x is not hit[0]] + [x for x in a if x is hit[0]][1:]
                o.remove(s)
        if o:
            if len(a) == 1 and len(o) >= 1:
                # size is a product: (h*c) viewed as (h, c)
                need = mul(*o)
                cand = ex.norm().poly(a[0])
                rest = None
                for s in o:
                    pass
                fa = factors_of(a[0])
                ok = True
                for s in o:
                    if s in fa:
                        fa.remove(s)
                    else:
                        ok = False
                if not ok:
                    raise Unsupported('view')
                a = fa
            else:
                raise Unsupported('view')
        dims[i] = mul(*a) if a else ONE
    dst = [lift(d) for d in dims]
    a, b = [s for s in src if s is not ONE], [d for d in dst if d is not ONE]
    g = t.fn
    if len(a) == len(b) and all(x is y or dim_eq(ex, x, y) for x, y in zip(a, b)):
        pos = [j for j, d in enumerate(dst) if d is not ONE]

        def fn(*ix):
            it = iter([ix[p] for p in pos])
            return g(*[ZERO if s is ONE else next(it) for s in src])
    elif len(a) > 1 and len(b) == 1:
        def fn(*ix):
            k = lift([i for i, d in zip(ix, dst) if d is not ONE][0])
            return g(*unflatten(k, src))
    else:
        # general case through the flat index
        def fn(*ix):
            k = flatten_index([lift(i) for i in ix], dst)
            return g(*unflatten(k, src))
    r = Tensor(dst, fn, t.dt)
    r.base = t
    return r


def factors_of(t):
    return list(t.args) if t.op == 'mul' else [t]


def flatten_index(ix, dims):
    k = ZERO
    for i, d in zip(ix, dims):
        k = add(mul(k, d), i)
    return k


def unflatten(k, dims):
    """Index tuple of the flat position k (recognises k built by flatten_index)."""
    real = [d for d in dims if d is not ONE]
    out = []
    rest = k
    for d in reversed(real[1:]):
        q, r = divmod_term(rest, d)
        out.append(r)
        rest = q
    out.append(rest)
    out.reverse()
    it = iter(out if real else [])
    return [ZERO if d is ONE else next(it) for d in dims]


def divmod_term(k, d):
    """(k div d, k mod d); k = d*a + b with b a bare index variable is split structurally (0 <= b < d by construction)."""
    if k.op == 'add':
        mult, rem = [], []
        for x in k.args:
            f = factors_of(x)
            if d in f:
                f = list(f)
                f.remove(d)
                mult.append(mul(*f) if f else ONE)
            elif d.op == 'const' and x.op == 'mul' and x.args[0].op == 'const' and (x.args[0].args[0] / d.args[0]).denominator == 1:
                mult.append(mul(const(x.args[0].args[0] / d.args[0]), *x.args[1:]))
            else:
                rem.append(x)
        if mult and len(rem) <= 1:
            r = rem[0] if rem else ZERO
            return add(*mult), r
    if k is ZERO:
        return ZERO, ZERO
    return idiv(k, d), imod(k, d)


def transpose(ex, t, perm=None):
    if isinstance(t, Sparse):
        r = Sparse(nmap(t.nodes, lambda v: (v[1], v[0], v[2])) if t.nodes is not None else None, (t.dims[1], t.dims[0]), False,
                   lambda i, j: t.dense(j, i), lambda i, j: t.pat(j, i))
        r.uniq_ = t.coal or getattr(t, 'uniq_', False)
        r.order_of = t
        return r
    if isinstance(t, RTensor):
        if t.inner is None:
            return t
        return view_of(RTensor(t.nodes, t.inner, 1 - t.axis, t.dt), t)
    n = len(t.shape)
    perm = perm or (list(range(n))[::-1] if n == 2 else None)
    if n < 2:
        return t
    if perm is None:
        raise Unsupported('transpose')
    g = t.fn
    inv = [perm.index(i) for i in range(n)]
    return view_of(Tensor([t.shape[p] for p in perm], lambda *ix: g(*[ix[inv[i]] for i in range(n)]), t.dt), t)


def repeat(ex, t, reps):
    if isinstance(t, RTensor):
        if t.inner == 1 and t.axis == 1 and len(reps) == 2 and reps[1] == 1:
            n = reps[0]
            return RTensor(nmap(t.nodes, lambda v: (v[0],) * n), n, 1, t.dt)
        t = densify(ex, t)
    sh = [ONE] * (len(reps) - len(t.shape)) + list(t.shape)
    out, keep = [], []
    for s, r in zip(sh, reps):
        r = lift(r) if not isinstance(r, Term) else r
        out.append(s if r is ONE else (r if s is ONE else mul(s, r)))
        keep.append('id' if r is ONE else ('zero' if s is ONE else s))
    g, k0 = t.fn, len(reps) - len(t.shape)

    def fn(*ix):
        r = []
        for i, kp in list(zip(ix, keep))[k0:]:
            r.append(i if kp == 'id' else (ZERO if kp == 'zero' else imod(lift(i), kp)))
        return g(*r)
    return Tensor(out, fn, t.dt)


def cat_sparse(ex, ts, dim):
    if not all(isinstance(t, Sparse) for t in ts):
        raise Unsupported('cat of sparse and dense tensors')
    d = dim % 2
    o = 1 - d
    for t in ts[1:]:
        if not ex.decide(eq(t.dims[o], ts[0].dims[o])):
            raise PyRaise('RuntimeError', 'Sizes of tensors must match', ex.where)
    offs, tot = [], ZERO
    for t in ts:
        offs.append(tot)
        tot = add(tot, t.dims[d])

    def at(f, z):
        def g(i, j):
            ix = (lift(i), lift(j))
            r = []
            for t, off in zip(ts, offs):
                c = and_(le(off, ix[d]), lt(ix[d], add(off, t.dims[d])))
                jx = list(ix)
                jx[d] = add(ix[d], mul(const(-1), off))
                r.append((c, f(t, *jx)))
            return z(r)
        return g
    dims = [None, None]
    dims[d], dims[o] = tot, ts[0].dims[o]
    r = Sparse(None, dims, False, at(lambda t, i, j: t.dense(i, j), lambda r: add(*([RZERO] + [iverson(c, x) for c, x in r]))), at(lambda t, i, j: t.pat(i, j), lambda r: or_(*[and_(c, x) for c, x in r])))
    if all(t.nodes is not None for t in ts):
        ns = ()
        for t, off in zip(ts, offs):
            ns += nrefresh(nmap(t.nodes, lambda e, off=off: ((add(lift(e[0]), off), e[1], e[2]) if d == 0 else (e[0], add(lift(e[1]), off), e[2]))))
        r.nodes = ns
    elif all(t.coal or getattr(t, 'uniq_', False) or t.nodes == () for t in ts):
        r.uniq_ = True
    else:
        raise Unsupported('cat of uncoalesced sparse tensors')
    return r


def cat(ex, ts, dim):
    ts = [t for t in ts]
    if any(isinstance(t, Sparse) for t in ts):
        return cat_sparse(ex, ts, dim)
    if not ts:
        raise PyRaise('RuntimeError', 'cat', ex.where)
    # torch skips empty 1-d tensors
    keep = [t for t in ts if not (isinstance(t, Tensor) and len(t.shape) == 1 and t.shape[0] is ZERO)]
    if not keep:
        return ts[0]
    ts = keep
    rank = 1 if all(len(rshape(t)) == 1 for t in ts) else len(rshape(ts[0]))
    if any(len(rshape(t)) != rank for t in ts):
        raise PyRaise('RuntimeError', 'cat', ex.where)
    if dim < 0:
        dim += rank
    if dim >= rank:
        raise PyRaise('IndexError', 'cat', ex.where)
    dt = 'f' if any(t.dt == 'f' for t in ts) else ts[0].dt
    if len(ts) == 1:
        return copy_t(ts[0])
    if rank == 1:
        return RTensor(tuple(n for t in ts for n in nrefresh(from_any_nodes(ex, t))), None, 0, dt)
    # two-row index arrays along their long axis
    if rank == 2 and all(rshape(t)[1 - dim].op == 'const' and rshape(t)[1 - dim].args[0] <= 4 for t in ts) and all((isinstance(t, RTensor) and t.axis == dim) or isinstance(t, Tensor) for t in ts):
        k = {int(rshape(t)[1 - dim].args[0]) for t in ts}
        if len(k) != 1:
            raise PyRaise('RuntimeError', 'cat', ex.where)
        k = k.pop()
        nodes = ()
        for t in ts:
            if isinstance(t, RTensor):
                nodes += nrefresh(t.nodes)
            else:
                q = fresh('q')
                nodes += (Loop(q, t.shape[dim], (Item(tuple(t.fn(*((const(i), q) if dim == 1 else (q, const(i)))) for i in range(k))),)),)
        return RTensor(nodes, k, dim, dt)
    ts = [densify(ex, t) for t in ts]
    shape = list(ts[0].shape)
    for t in ts[1:]:
        for j in range(rank):
            if j != dim and not dim_eq(ex, t.shape[j], shape[j]):
                raise PyRaise('RuntimeError', 'cat', ex.where)
    offs, tot = [], ZERO
    for t in ts:
        offs.append(tot)
        tot = add(tot, t.shape[dim])
    shape[dim] = tot

    def fn(*ix):
        ix = [lift(i) for i in ix]
        r = None
        for t, o in reversed(list(zip(ts, offs))):
            jx = list(ix)
            jx[dim] = add(ix[dim], mul(const(-1), o))
            x = asnum(t.fn(*jx)) if dt != 'b' else t.fn(*jx)
            r = x if r is None else ite(lt(ix[dim], add(o, t.shape[dim])), x, r)
        return r
    return Tensor(shape, fn, dt)


def stack(ex, ts, dim):
    ts = [densify(ex, lift_t(t)) if not isinstance(t, RTensor) else t for t in ts]
    if any(isinstance(t, RTensor) for t in ts):
        if dim == 0 and all(len(rshape(t)) == 1 for t in ts):
            z = nzip(*[from_any_nodes(ex, t) for t in ts])
            if z is not None:
                return RTensor(z, len(ts), 1, ts[0].dt)
        ts = [densify(ex, t) for t in ts]
    sh = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(sh) or not all(dim_eq(ex, x, y) for x, y in zip(t.shape, sh)):
            raise PyRaise('RuntimeError', 'stack', ex.where)
    if dim < 0:
        dim += len(sh) + 1
    shape = list(sh)
    shape.insert(dim, const(len(ts)))
    return Tensor(shape, lambda *ix: choose([t.fn(*(list(ix[:dim]) + list(ix[dim + 1:]))) for t in ts], lift(ix[dim])), 'f' if any(t.dt == 'f' for t in ts) else ts[0].dt)


def seq_of(ex, v):
    """Host list of the elements of a concrete sequence; None when its length is symbolic."""
    ns = lib.iter_nodes(ex, v)
    return [n.val for n in ns] if all_items(ns) else None


def stack_any(ex, v, dim):
    l = seq_of(ex, v)
    if l is not None:
        if not l:
            raise PyRaise('RuntimeError', 'stack of nothing', ex.where)
        return stack(ex, [lift_t(x) for x in l], dim)
    s = simple(lib.iter_nodes(ex, v))
    if s is None:
        nodes = lib.iter_nodes(ex, v)
        if segments(nodes) is None:
            raise Unsupported('stack of a ragged sequence')
        parts = [stack_any(ex, ListV([n]), dim) for n in nodes]
        d = dim if dim >= 0 else dim + len(parts[0].shape)
        return cat(ex, parts, d)
    var_, hi, val = s
    val = lift_t(val)
    if not isinstance(val, Tensor):
        raise Unsupported('stack')
    vs = [fresh('t') for _ in val.shape]
    body = val.fn(*vs)
    shape = list(val.shape)
    if dim < 0:
        dim += len(shape) + 1
    if any(var_ in fv(x) for x in shape):
        raise Unsupported('stack of different sizes')
    shape.insert(dim, hi)

    def fn(*ix):
        m = dict(zip(vs, [lift(i) for i in list(ix[:dim]) + list(ix[dim + 1:])]))
        m[var_] = lift(ix[dim])
        return subst(body, m)
    return Tensor(shape, fn, val.dt)


# ------------------------------------------------------------------------------------------- reductions
def dims_arg(a, k, n):
    d = a[0] if a else k.get('dim', k.get('axis'))
    if d is None:
        return None
    ds = [d] if isinstance(d, int) else [x if isinstance(x, int) else int(x.args[0]) for x in (d if isinstance(d, tuple) else [y.val for y in d.nodes])]
    return [x + n if x < 0 else x for x in ds]


def reduce_sum(ex, t, ds, keep=False, mean=False):
    if isinstance(t, RTensor):
        if t.inner is None:
            tot = add(*([ZERO] + [sum_(bs, iverson(and_(*cs), asnum(v))) for bs, cs, v in leaves(t.nodes)]))
            if mean:
                tot = fdiv(tot, rlen(t))
            return Tensor((), lambda: tot, 'f' if mean else ('i' if t.dt == 'b' else t.dt))
        if t.axis == 0 and ds == [0] and not keep:
            ls = list(leaves(t.nodes))
            tots = [add(*([ZERO] + [sum_(bs, iverson(and_(*cs), asnum(v[c]))) for bs, cs, v in ls])) for c in range(t.inner)]
            if mean:
                n = rlen(t)
                tots = [fdiv(x, n) for x in tots]
            return Tensor((const(t.inner),), lambda c: choose(tots, lift(c)), 'f' if mean else ('i' if t.dt == 'b' else t.dt))
        t = densify(ex, t)
    if isinstance(t, RowsTensor):
        raise Unsupported('reduction of selected rows')
    n = len(t.shape)
    if ds is None:
        ds = list(range(n))
        if keep:
            raise Unsupported('keepdim')
    if any(d >= n for d in ds):
        raise PyRaise('IndexError', 'dimension out of range', ex.where)
    shape = [ONE if i in ds else s for i, s in enumerate(t.shape) if keep or i not in ds]
    g = t.fn
    cnt = mul(*[t.shape[d] for d in ds]) if ds else ONE

    def fn(*ix):
        it = list(ix)
        full, bs = [], []
        j = 0
        for i in range(n):
            if i in ds:
                q = fresh('s')
                bs.append((q, t.shape[i]))
                full.append(q)
                if keep:
                    j += 1
            else:
                full.append(it[j])
                j += 1
        s = sum_small(tuple(bs), asnum(g(*full)))
        return fdiv(s, cnt) if mean else s
    return Tensor(shape, fn, 'f' if mean else ('i' if t.dt == 'b' else t.dt))


def sum_small(bs, body):
    """Sum, unrolled over dimensions of small constant size."""
    for i, (v, h) in enumerate(bs):
        if h.op == 'const' and h.args[0] <= 4:
            rest = bs[:i] + bs[i + 1:]
            return add(*([ZERO] + [sum_small(rest, subst(body, {v: const(k)})) for k in range(int(h.args[0]))]))
    return sum_(bs, body)


def matmul(ex, a, b):
    if isinstance(a, Sparse):
        return sp_mm(ex, a, b)
    a, b = densify(ex, a), densify(ex, b)
    if len(a.shape) == 2 and len(b.shape) == 2:
        if not dim_eq(ex, a.shape[1], b.shape[0]):
            raise PyRaise('RuntimeError', 'mm', ex.where)
        n = a.shape[1]

        def fn(i, j):
            q = fresh('s')
            return sum_small(((q, n),), mul(a.fn(i, q), b.fn(q, j)))
        return Tensor((a.shape[0], b.shape[1]), fn)
    if len(a.shape) == 2 and len(b.shape) == 1:
        def fn(i):
            q = fresh('s')
            return sum_small(((q, a.shape[1]),), mul(a.fn(i, q), b.fn(q)))
        return Tensor((a.shape[0],), fn)
    if len(a.shape) == 1 and len(b.shape) == 1:
        def fn():
            q = fresh('s')
            return sum_small(((q, a.shape[0]),), mul(a.fn(q), b.fn(q)))
        return Tensor((), fn)
    raise Unsupported('matmul of these ranks')


def softmax(ex, t, dim, log=False):
    t = densify(ex, t)
    n = len(t.shape)
    if dim < 0:
        dim += n
    g = t.fn

    def fn(*ix):
        q = fresh('s')
        jx = list(ix)
        jx[dim] = q
        den = sum_small(((q, t.shape[dim]),), fn1('exp', g(*jx)))
        if log:
            return add(asnum(g(*ix)), mul(const(-1), fn1('log', den)))
        return mul(fn1('exp', g(*ix)), app('inv0', den, sort='R'))
    return Tensor(t.shape, fn)


def copy_t(t):
    if isinstance(t, Tensor):
        r = Tensor(t.shape, t.fn, t.dt)
        r.tag = t.tag
        return r
    if isinstance(t, RTensor):
        return RTensor(t.nodes, t.inner, t.axis, t.dt)
    if isinstance(t, RowsTensor):
        return RowsTensor(t.nodes, t.src)
    return sp_copy(t)


# ------------------------------------------------------------------------------------------- sparse matrices
def sp_copy(s):
    r = Sparse(s.nodes if s.nodes is not None else (), s.dims, s.coal, s._dense, s._pat)
    r.nodes = s.nodes
    r.enum = s.enum
    r.uniq_ = getattr(s, 'uniq_', False)
    return r


def mk_sparse(dims, dense, pat):
    """Coalesced sparse matrix given by its entries and stored pattern."""
    r = Sparse((), dims, True, dense, pat)
    r.nodes = None
    r.uniq_ = True
    return r


def sp_nodes(ex, s):
    """Stored entries (i, j, value) in storage order."""
    if s.nodes is None:
        s.nodes = enum_pattern(ex, s)
    return s.nodes


def enum_pattern(ex, s):
    """Row-major enumeration of a coalesced matrix: a pair of index functions of the position, determined by the pattern."""
    i0, j0 = var('ei$', 'I'), var('ej$', 'I')
    rng = [le(ZERO, i0), lt(i0, s.dims[0]), le(ZERO, j0), lt(j0, s.dims[1])]
    try:
        n = norm.Norm(ex.th, ex.facts + rng)
        key = norm.akey(n.cbool(s.pat(i0, j0)))
    except norm.TooHard:
        key = norm.akey(s.pat(i0, j0))
    p0, dims = s.pat(i0, j0), s.dims
    free = (fv(p0) | fv(dims[0]) | fv(dims[1])) - {i0, j0}
    pre = tuple(v for v in ex.loop_vars if v in free)
    if any(v not in pre for v in free):
        raise Unsupported('enumeration of a pattern with bound variables')
    cv = tuple(var('pre$%d' % i, v.sort) for i, v in enumerate(pre))
    ren = dict(zip(pre, cv))
    if pre:
        key = norm.akey(subst(p0, ren))
        try:
            key = norm.akey(subst(norm.Norm(ex.th, ex.facts + rng).cbool(p0), ren))
        except norm.TooHard:
            pass
    key = (key, norm.akey(subst(dims[0], ren)), norm.akey(subst(dims[1], ren)), len(pre))
    tab = ex.__dict__.setdefault('sp_enums', {})
    hit = tab.get(key)
    if hit is None:
        nm = uniq('nz')
        kn = [nm + '_i', nm + '_j']
        nf = lambda *a: app(nm + '_n', *a, sort='I')
        p0c, dc = subst(p0, ren), [subst(d, ren) for d in dims]
        def pt(a, ks):
            m = dict(zip(cv, a))
            m[i0], m[j0] = ks
            d0, d1 = [subst(d, dict(zip(cv, a))) for d in dc]
            return and_(le(ZERO, ks[0]), lt(ks[0], d0), le(ZERO, ks[1]), lt(ks[1], d1), subst(p0c, m))
        np_ = len(pre)
        register_enum(ex.th, kn, nm + '_pos', 'II', lambda a, ks: pt(a, ks), nf, npre=np_)
        ex.th.axiom(nm + '_n', lambda *a: [le(ZERO, nf(*a))])
        hit = (nm, kn, nf)
        tab[key] = hit
        ex.th.axiom(kn[0], lambda *a: [implies(and_(le(ZERO, a[np_]), lt(a[np_], nf(*a[:np_]))), le(ONE, nf(*a[:np_])))])
    nm, kn, nf = hit
    n = nf(*pre)
    q = fresh('p')
    i, j = app(kn[0], *(pre + (q,)), sort='I'), app(kn[1], *(pre + (q,)), sort='I')
    s.enum = nm
    return (Loop(q, n, (Item((i, j, s.dense(i, j))),)),)


def indices(ex, s):
    ns = sp_nodes(ex, s)
    sm = simple(ns)
    if sm:
        v, hi, val = sm
        t = Tensor((const(2), hi), lambda k, p: choose([lift(vsubst(val[0], {v: lift(p)})), lift(vsubst(val[1], {v: lift(p)}))], lift(k)), 'i')
    else:
        t = RTensor(nmap(ns, lambda e: (e[0], e[1])), 2, 1, 'i')
    t.base = s
    return t


def values(ex, s):
    ns = sp_nodes(ex, s)
    sm = simple(ns)
    if sm:
        v, hi, val = sm
        t = Tensor((hi,), lambda p: asnum(vsubst(val[2], {v: lift(p)})), 'f')
    else:
        t = RTensor(nmap(ns, lambda e: e[2]), None, 0, 'f')
    t.base = s
    return t


def coo(ex, a, k):
    if a:
        idx = a[0]
        vals = a[1] if len(a) > 1 else k.get('values')
        size = a[2] if len(a) > 2 else k.get('size')
    else:
        idx, vals, size = k.get('indices'), k.get('values'), k.get('size')
        if idx is None and size is not None:
            dims = size_dims(ex, size)
            r = Sparse((), dims, False, lambda i, j: RZERO, lambda i, j: FALSE)
            return r
    if isinstance(idx, (ListV, tuple)):
        idx = from_nodes(ex, lib.iter_nodes(ex, idx))
    if isinstance(vals, (ListV, tuple)):
        vals = from_nodes(ex, lib.iter_nodes(ex, vals))
    if size is None:
        raise Unsupported('sparse tensor without a size')
    dims = size_dims(ex, size)
    sh = rshape(idx)
    if len(sh) == 1:
        # torch.tensor([]) for an empty edge list
        raise PyRaise('RuntimeError', 'indices must be 2-d', ex.where)
    if sh[0] is not const(2):
        raise Unsupported('sparse index shape')
    if isinstance(idx, RTensor) and idx.axis != 1:
        raise Unsupported('sparse index layout')
    if not isinstance(idx, RTensor) and isinstance(vals, RTensor):
        n = idx.shape[1]
        q = fresh('q')
        idxn = (Loop(q, n, (Item((idx.fn(ZERO, q), idx.fn(ONE, q))),)),)
    elif isinstance(idx, RTensor):
        idxn = idx.nodes
    else:
        q = fresh('q')
        n = idx.shape[1]
        if n.op == 'const' and n.args[0] <= 8:
            idxn = tuple(Item((idx.fn(ZERO, const(i)), idx.fn(ONE, const(i)))) for i in range(int(n.args[0])))
        else:
            idxn = (Loop(q, n, (Item((idx.fn(ZERO, q), idx.fn(ONE, q))),)),)
    if len(rshape(vals)) == 2 and rshape(vals)[1] is ONE:
        vals = densify(ex, vals)
        raise Unsupported('hybrid sparse tensor')
    if len(rshape(vals)) != 1:
        raise Unsupported('hybrid sparse tensor')
    if isinstance(vals, RTensor):
        z = nzip(idxn, vals.nodes)
        if z is None and simple(idxn) is None:
            vals = densify(ex, vals) if segments(vals.nodes) is not None else None
            z = None
    else:
        z = None
    if z is None:
        if not isinstance(vals, Tensor):
            raise Unsupported('indices and values are not aligned')
        sm = simple(idxn)
        if not dim_eq(ex, nlen(idxn), vals.shape[0]):
            raise PyRaise('RuntimeError', 'indices and values differ in length', ex.where)
        if sm:
            v, hi, val = sm
            z = (Loop(v, hi, (Item((val, vals.fn(v))),)),)
        else:
            # position of every entry in storage order
            z = nmap(lib.enum_nodes(idxn), lambda pv: (pv[1], vals.fn(lift(pv[0]))))
    nodes = nmap(z, lambda e: (lift(e[0][0]), lift(e[0][1]), asnum(e[1])))
    out_of_range(ex, nodes, dims)
    return Sparse(nodes, dims)


def out_of_range(ex, nodes, dims):
    """torch rejects indices outside the size."""
    for bs, cs, (i, j, v) in leaves(nodes):
        bad = exists(bs, and_(*(cs + [not_(and_(le(ZERO, i), lt(i, dims[0]), le(ZERO, j), lt(j, dims[1])))])))
        if bad is FALSE:
            continue
        r = ex.entailed(bad)
        if r is False:
            continue
        if ex.decide(bad):
            raise PyRaise('RuntimeError', 'sparse index out of range', ex.where)


def size_dims(ex, size):
    if isinstance(size, (tuple,)):
        l = list(size)
    elif isinstance(size, (ListV, SymTuple)) and all_items(size.nodes):
        l = [n.val for n in size.nodes]
    else:
        raise Unsupported('size')
    if len(l) != 2:
        raise Unsupported('sparse tensor of rank %d' % len(l))
    return [lib.num(x) for x in l]


def coalesce(ex, s):
    if s.coal:
        return s
    r = mk_sparse(s.dims, s.dense, s.pat)
    ns = s.nodes
    if ns is not None and ns:
        sm = simple(ns)
        if sm:
            v, hi, (i, j, val) = sm
            # already unique and in row-major order: a diagonal, or the index arrays of a coalesced matrix
            if i is v and j is v:
                r.nodes = ns
            elif i.op == 'app' and j.op == 'app' and len(i.args) == 2 and i.args[1] is v and j.args[1:] == (v,) and i.args[0].endswith('_i') and j.args[0] == i.args[0][:-2] + '_j' and \
                    any(h[1][0] == i.args[0] and h[2] is hi for h in ex.__dict__.get('sp_enums', {}).values()):
                r.nodes = ns
    elif ns == ():
        r.nodes = ()
    return r


def sp_map(s, f):
    """Value-wise map of the stored entries."""
    if s.nodes is not None:
        r = Sparse(nmap(s.nodes, lambda e: (e[0], e[1], f(e[2]))), s.dims, s.coal)
        if s.coal:
            r._dense = lambda i, j: iverson(s.pat(i, j), f(s.dense(i, j)))
            r._pat = s._pat
        r.uniq_ = getattr(s, 'uniq_', False)
        return r
    return mk_sparse(s.dims, lambda i, j: iverson(s.pat(i, j), f(s.dense(i, j))), s.pat)


def sp_arith(ex, o, a, b):
    if isinstance(a, Sparse) and isinstance(b, Sparse):
        if o in ('add', 'sub'):
            if not all(dim_eq(ex, x, y) for x, y in zip(a.dims, b.dims)):
                raise PyRaise('RuntimeError', 'sizes', ex.where)
            sg = ONE if o == 'add' else const(-1)
            return mk_sparse(a.dims, lambda i, j: add(a.dense(i, j), mul(sg, b.dense(i, j))), lambda i, j: or_(a.pat(i, j), b.pat(i, j)))
        if o == 'mul':
            return mk_sparse(a.dims, lambda i, j: mul(a.dense(i, j), b.dense(i, j)), lambda i, j: and_(a.pat(i, j), b.pat(i, j)))
        raise Unsupported('sparse %s' % o)
    if isinstance(a, Sparse) and lib.isnumv(b):
        x = lib.num(b)
        if o == 'mul':
            return sp_map_lin(a, x)
        if o == 'div':
            return sp_map_lin(a, recip(x))
    if isinstance(b, Sparse) and lib.isnumv(a) and o == 'mul':
        return sp_map_lin(b, lib.num(a))
    if o == 'add' and isinstance(b, Sparse) and isinstance(a, Tensor):
        a, b = b, a
    if isinstance(a, Sparse) and isinstance(b, Tensor) and o == 'add':
        return Tensor(a.dims, lambda i, j: add(a.dense(i, j), b.fn(i, j)))
    raise Unsupported('sparse %s' % o)


def sp_map_lin(s, c):
    r = sp_map(s, lambda v: mul(c, v))
    r._dense = lambda i, j: mul(c, s.dense(i, j))
    r._pat = s.pat
    return r


def sp_mm(ex, a, b):
    if isinstance(b, Sparse):
        if not dim_eq(ex, a.dims[1], b.dims[0]):
            raise PyRaise('RuntimeError', 'mm', ex.where)
        n = a.dims[1]

        def dense(i, j):
            q = fresh('s')
            return sum_(((q, n),), mul(a.dense(i, q), b.dense(q, j)))

        def pat(i, j):
            q = fresh('s')
            return exists(((q, n),), and_(a.pat(i, q), b.pat(q, j)))
        return mk_sparse((a.dims[0], b.dims[1]), dense, pat)
    b = densify(ex, b)
    if len(b.shape) == 1:
        raise PyRaise('RuntimeError', 'mm of a vector', ex.where)
    if not dim_eq(ex, a.dims[1], b.shape[0]):
        raise PyRaise('RuntimeError', 'mm', ex.where)
    n = a.dims[1]

    def fn(i, *k):
        q = fresh('s')
        return sum_(((q, n),), mul(a.dense(lift(i), q), b.fn(q, *k)))
    return Tensor((a.dims[0],) + tuple(b.shape[1:]), fn)


class SparseVec:
    """Result of torch.sparse.sum over one dimension, or one row of a sparse matrix."""

    def __init__(self, n, dense, pat):
        self.n, self.dense, self.pat = n, dense, pat
        self.birth = birth()
        self.frozen = None


def sp_sum(ex, s, d):
    if d is None:
        i, j = fresh('s'), fresh('s')
        tot = sum_(((i, s.dims[0]), (j, s.dims[1])), s.dense(i, j))
        return Tensor((), lambda: tot)
    d = d % 2

    def dense(i):
        q = fresh('s')
        return sum_(((q, s.dims[d]),), s.dense(i, q) if d == 1 else s.dense(q, i))

    def pat(i):
        q = fresh('s')
        return exists(((q, s.dims[d]),), s.pat(i, q) if d == 1 else s.pat(q, i))
    return SparseVec(s.dims[1 - d], dense, pat)


def sp_row(ex, s, k):
    if isinstance(k, Tensor) and not k.shape:
        k = k.fn()
    if isinstance(k, int) and k < 0:
        raise Unsupported('negative row')
    if isinstance(k, (int, Term)):
        kt = lib.num(k)
        if ex.decide(not_(and_(le(ZERO, kt), lt(kt, s.dims[0])))):
            raise PyRaise('IndexError', '', ex.where)
        return SparseVec(s.dims[1], lambda j: s.dense(kt, j), lambda j: s.pat(kt, j))
    raise Unsupported('sparse subscript')


def vec_attr(ex, o, name):
    M = lambda f: HostFn(name, f)
    if name == 'to_dense':
        return M(lambda ex, a, k: Tensor((o.n,), lambda i: o.dense(lift(i))))
    if name in ('clone', 'coalesce', 'cpu', 'cuda', 'to', 'detach', 'contiguous'):
        return M(lambda ex, a, k: o)
    if name in ('_indices', 'indices'):
        q = fresh('q')
        return M(lambda ex, a, k: RTensor((Loop(q, o.n, (If(o.pat(q), (Item((q,)),)),)),), 1, 1, 'i'))
    if name in ('_values', 'values'):
        q = fresh('q')
        return M(lambda ex, a, k: RTensor((Loop(q, o.n, (If(o.pat(q), (Item(o.dense(q)),)),)),), None, 0, 'f'))
    if name == '_nnz':
        q = fresh('q')
        return M(lambda ex, a, k: sum_(((q, o.n),), iverson(o.pat(q), ONE)))
    if name == 'shape':
        return (o.n,)
    raise Unsupported('sparse vector .%s' % name)


def sp_softmax(ex, a, k):
    s = a[0]
    d = a[1] if len(a) > 1 else k.get('dim')
    d = d % 2
    e = lambda i, j: iverson(s.pat(i, j), fn1('exp', s.dense(i, j)))

    def dense(i, j):
        q = fresh('s')
        den = sum_(((q, s.dims[d]),), e(i, q) if d == 1 else e(q, j))
        return mul(e(i, j), app('inv0', den, sort='R'))
    return mk_sparse(s.dims, dense, s.pat)


# ------------------------------------------------------------------------------------------- tensor attributes
DTYPES = {'torch.float': 'f', 'torch.float32': 'f', 'torch.float64': 'f', 'torch.double': 'f', 'torch.long': 'i', 'torch.int': 'i', 'torch.int64': 'i', 'torch.bool': 'b', 'torch.uint8': 'i'}


def dt_of(v):
    if isinstance(v, Ext):
        n = lib.extname(v.name)
        if n in DTYPES:
            return DTYPES[n]
        n = n.split('.')[-1]
        return 'f' if n.startswith('float') or n == 'double' else ('b' if n.startswith('bool') else 'i')
    if isinstance(v, HostFn):
        return {'float': 'f', 'int': 'i', 'bool': 'b'}.get(v.name)
    return None


def cast(ex, t, dt):
    if dt is None or t.dt == dt:
        return copy_t(t)
    if dt == 'b':
        return emap(ex, asbool, t, dt='b')
    if t.dt == 'b' or dt == 'f':
        return emap(ex, lambda x: asnum(x), t, dt=dt)
    # float -> int: truncation towards zero
    return emap(ex, lambda x: trunc(asnum(x)), t, dt='i')


def trunc(x):
    if x.sort == 'I':
        return x
    return ite(le(ZERO, x), app('ifloor', x, sort='I'), mul(const(-1), app('ifloor', mul(const(-1), x), sort='I')))


DEVICE = Opaque('device')


def tattr(ex, o, name):
    if isinstance(o, SparseVec):
        return vec_attr(ex, o, name)
    if name == 'device':
        return DEVICE
    if name == 'dtype':
        return Opaque('dtype:' + getattr(o, 'dt', 'f'))
    if name == 'ndim':
        return len(rshape(o))
    if name == 'shape':
        return tuple(lib.pyint(s) for s in rshape(o))
    if name in ('T',):
        return transpose(ex, o)
    if name == 'data':
        return o
    if name == 'is_sparse':
        return isinstance(o, Sparse)
    if name == 'requires_grad':
        return False
    f = (SPARSE_METHODS if isinstance(o, Sparse) else TENSOR_METHODS).get(name)
    if f is None:
        if name.endswith('_') and not name.startswith('_') and name[:-1] in TENSOR_METHODS and isinstance(o, (Tensor, RTensor)):
            g = TENSOR_METHODS[name[:-1]]

            def inplace(ex, a, k):
                r = g(ex, a, k)
                write_into(ex, a[0], r)
                return a[0]
            f = inplace
        else:
            raise Unsupported('tensor attribute %s' % name)
    return lib.method(name, f, o)


def el(name):
    return lambda ex, a, k: emap(ex, lambda x: fn1(name, x), a[0], dt='f') if not lib.isnumv(a[0]) else fn1(name, lib.num(a[0]))


def m_sum(ex, a, k, mean=False):
    t = a[0]
    if isinstance(t, (ListV, tuple)):
        t = from_nodes(ex, lib.iter_nodes(ex, t))
    if isinstance(t, Sparse):
        return sp_sum(ex, t, a[1] if len(a) > 1 else k.get('dim'))
    if isinstance(t, RTensor) and reversal_of(t) is not None:
        t = RTensor(reversal_of(t), None, 0, t.dt)          # the order does not matter
    n = len(rshape(t))
    return reduce_sum(ex, t, dims_arg(a[1:], k, n), bool(k.get('keepdim', k.get('keepdims', False))) or (len(a) > 2 and a[2] is True), mean)


def m_mean(ex, a, k):
    return m_sum(ex, a, k, True)


def m_view(ex, a, k):
    return reshape(ex, a[0], ints(ex, a[1:]))


def m_reshape(ex, a, k):
    return reshape(ex, a[0], ints(ex, a[1:]))


def m_squeeze(ex, a, k):
    t = a[0]
    if isinstance(t, RTensor):
        if t.inner == 1:
            return RTensor(nmap(t.nodes, lambda v: v[0]), None, 0, t.dt)
        return t
    d = a[1] if len(a) > 1 else k.get('dim', k.get('axis'))
    n = len(t.shape)
    if d is not None:
        d = d % n
        drop = [d] if t.shape[d] is ONE else []
        if not drop and t.shape[d].op != 'const':
            if ex.decide(eq(t.shape[d], ONE)):
                drop = [d]
    else:
        drop = []
        for i, s in enumerate(t.shape):
            if s is ONE:
                drop.append(i)
            elif s.op != 'const' and ex.decide(eq(s, ONE)):
                drop.append(i)
    g = t.fn
    shape = [s for i, s in enumerate(t.shape) if i not in drop]

    def fn(*ix):
        it = iter(ix)
        return g(*[ZERO if i in drop else next(it) for i in range(n)])
    return view_of(Tensor(shape, fn, t.dt), t)


def m_unsqueeze(ex, a, k):
    t = densify(ex, a[0])
    d = a[1] if len(a) > 1 else k['dim']
    n = len(t.shape) + 1
    d = d % n
    shape = list(t.shape)
    shape.insert(d, ONE)
    return view_of(Tensor(shape, lambda *ix: t.fn(*[x for i, x in enumerate(ix) if i != d]), t.dt), t)


def m_to(ex, a, k):
    """Device moves are the identity; dtype conversions convert."""
    for x in list(a[1:]) + list(k.values()):
        dt = dt_of(x)
        if dt is not None and not isinstance(a[0], Sparse):
            return cast(ex, a[0], dt)
    return a[0]


def same(ex, a, k):
    return a[0]


def m_clone(ex, a, k):
    return copy_t(a[0])


def m_tolist(ex, a, k):
    t = a[0]
    if isinstance(t, RTensor):
        return ListV(tolist_nodes(ex, t))
    if not t.shape:
        return lib.pyint(t.fn())
    return ListV(tolist_nodes(ex, t))


def tolist_nodes(ex, t):
    def one(v):
        if isinstance(v, (Tensor, RTensor)):
            return ListV(tolist_nodes(ex, v)) if rshape(v) else v.fn()
        return v
    return nmap(tensor_rows(ex, t), one)


def m_item(ex, a, k):
    t = a[0]
    if isinstance(t, RTensor):
        raise Unsupported('item')
    if all(s is ONE for s in t.shape):
        return lib.pyint(t.fn(*[ZERO for _ in t.shape]))
    raise PyRaise('ValueError', 'item', ex.where)


def m_size(ex, a, k):
    sh = tuple(lib.pyint(s) for s in rshape(a[0]))
    if len(a) > 1:
        return sh[a[1]]
    if 'dim' in k:
        return sh[k['dim']]
    return sh


def m_dim(ex, a, k):
    return len(rshape(a[0]))


def m_t(ex, a, k):
    return transpose(ex, a[0])


def m_transpose(ex, a, k):
    t = a[0]
    if isinstance(t, Sparse):
        return transpose(ex, t)
    n = len(rshape(t))
    p = list(range(n))
    if len(a) > 2:
        i, j = a[1] % n, a[2] % n
        p[i], p[j] = p[j], p[i]
    return transpose(ex, t, p)


def m_repeat(ex, a, k):
    return repeat(ex, a[0], ints(ex, a[1:]))


def m_mm(ex, a, k):
    return matmul(ex, a[0], a[1])


def m_gather(ex, a, k):
    t, d, idx = densify(ex, a[0]), a[1], densify(ex, a[2])
    d = d % len(t.shape)
    return Tensor(idx.shape, lambda *ix: t.fn(*[idx.fn(*ix) if i == d else x for i, x in enumerate(ix)]), t.dt)


def m_pow(ex, a, k):
    return arith(ex, 'pow', a[0], a[1])


def m_isinf(ex, a, k):
    return emap(ex, lambda x: isinf_t(x), a[0], dt='b')


def m_isnan(ex, a, k):
    return emap(ex, lambda x: isnan_t(x), a[0], dt='b')


def m_scatter(ex, a, k):
    """One-dimensional scatter_add / scatter_reduce(reduce='sum'): r[i] = t[i] + sum of src[p] over the p with index[p] = i."""
    v = dict(zip(('self', 'dim', 'index', 'src', 'reduce', 'include_self'), a))
    v.update(k)
    t, ix, src = [densify(ex, v[n]) for n in ('self', 'index', 'src')]
    if v.get('reduce', 'sum') != 'sum' or v.get('include_self', True) is not True or len(t.shape) != 1 or v['dim'] not in (0, -1):
        raise Unsupported('scatter_reduce arguments')
    if not dim_eq(ex, ix.shape[0], src.shape[0]):
        raise Unsupported('scatter of a part of the source')
    m, base, isf, sf = ix.shape[0], t.fn, ix.fn, src.fn

    def fn(i):
        p = fresh('p')
        return add(asnum(base(i)), sum_(((p, m),), iverson(eq(isf(p), lift(i)), asnum(sf(p)))))
    return Tensor(t.shape, fn, src.dt)


def first_seen(*ts):
    """Orders variables by their first occurrence in the terms."""
    pos = {}

    def walk(t):
        if t.op == 'var':
            pos.setdefault(t, len(pos))
        elif t.op in ('sum', 'exists'):
            for v, h in t.args[0]:
                walk(h)
            walk(t.args[1])
        else:
            for c in children(t):
                walk(c)
    for t in ts:
        walk(t)
    return pos.__getitem__


def order_fn(ex, t, dim, descending):
    """A sorting permutation along dim: a function of the row, assumed to be a permutation that sorts the row."""
    t = densify(ex, t)
    n = len(t.shape)
    if not isinstance(dim, int) or not -n <= dim < max(n, 1):
        raise PyRaise('IndexError', 'dimension out of range', ex.where)
    dim = dim % n
    vs = [fresh('o') for _ in range(n)]
    body = t.fn(*vs)
    m = t.shape[dim]
    # the row sorted is a function of these: the other indices and whatever the entries depend on from outside
    free = (fv(body) | fv(m)) - {vs[dim]}
    pre = tuple(sorted(free, key=first_seen(body, m)))
    key = ('order', norm.akey(body), bool(descending), tuple(v.args[0] for v in pre), vs[dim].args[0], norm.akey(m))
    # alpha-equivalent rows are sorted alike
    try:
        ren = {v: var('ord$%d' % i) for i, v in enumerate(pre)}
        ren[vs[dim]] = var('ord$s')
        key = ('order', norm.akey(ex.norm().canon(subst(body, ren))), bool(descending), len(pre), norm.akey(subst(m, ren)))
    except norm.TooHard:
        pass
    tab = ex.__dict__.setdefault('orders', {})
    nm = tab.get(key)
    if nm is None:
        nm = uniq('ord')
        tab[key] = nm
        register_enum(ex.th, [nm], nm + '_pos', 'I', lambda p, ks: and_(le(ZERO, ks[0]), lt(ks[0], subst(m, dict(zip(pre, p))))), lambda *p: subst(m, dict(zip(pre, p))), npre=len(pre))
        ex.th.axiom(nm, lambda *args: [])
    ex.assumed.add('torch.sort/argsort: returns a permutation sorting each row')
    at = {v: i for i, v in enumerate(vs)}

    def idx(*ix):
        ix = [lift(i) for i in ix]
        return app(nm, *([ix[at[v]] if v in at else v for v in pre] + [ix[dim]]), sort='I')
    return t, dim, idx, nm


def m_argsort(ex, a, k):
    d = a[1] if len(a) > 1 else k.get('dim', k.get('axis', -1))
    t, dim, idx, nm = order_fn(ex, a[0], d, k.get('descending', False))
    r = Tensor(t.shape, idx, 'i')
    r.tag = ('argsort', nm)
    return r


def m_sort(ex, a, k):
    d = a[1] if len(a) > 1 else k.get('dim', k.get('axis', -1))
    t, dim, idx, nm = order_fn(ex, a[0], d, k.get('descending', False))
    vals = Tensor(t.shape, lambda *ix: t.fn(*[idx(*ix) if i == dim else x for i, x in enumerate(ix)]), t.dt)
    return (vals, Tensor(t.shape, idx, 'i'))


def t_topk(ex, a, k):
    """The first k entries of the sorted row (torch.topk along the last dimension)."""
    t = densify(ex, a[0])
    kk = lift(a[1] if len(a) > 1 else k['k'])
    d = a[2] if len(a) > 2 else k.get('dim', -1)
    n = len(t.shape)
    if d % n != n - 1 or not k.get('sorted', True):
        raise Unsupported('topk along another dimension')
    largest = a[3] if len(a) > 3 else k.get('largest', True)
    if ex.decide(not_(and_(le(ZERO, kk), le(kk, t.shape[-1])))):
        raise PyRaise('RuntimeError', 'topk', ex.where)
    t, dim, idx, nm = order_fn(ex, t, -1, bool(largest))
    ex.assumed.add('torch.topk: the first k entries of the sorted row')
    sh = tuple(t.shape[:-1]) + (kk,)
    return (Tensor(sh, lambda *ix: t.fn(*(list(ix[:-1]) + [idx(*ix)])), t.dt), Tensor(sh, idx, 'i'))


def t_cdist(ex, a, k):
    """Euclidean distances between the rows of two matrices."""
    x, y = densify(ex, a[0]), densify(ex, a[1])
    p = a[2] if len(a) > 2 else k.get('p', 2)
    if p != 2 or len(x.shape) != 2 or len(y.shape) != 2:
        raise Unsupported('cdist')
    if not ex.entailed(eq(x.shape[1], y.shape[1])) and ex.decide(ne(x.shape[1], y.shape[1])):
        raise PyRaise('RuntimeError', 'cdist', ex.where)

    def f(i, j):
        u = fresh('u')
        d = add(x.fn(i, u), mul(const(-1), y.fn(j, u)))
        return app('sqrt', sum_(((u, x.shape[1]),), mul(d, d)), sort='R')
    return Tensor((x.shape[0], y.shape[0]), f, 'f')


def m_nonzero(ex, a, k):
    t = a[0]
    if isinstance(t, RTensor) and t.inner is None:
        ns = lib.enum_nodes(t.nodes)
        return RTensor(nfilter2(nmap(ns, lambda pv: ((pv[0],), asbool(pv[1])))), 1, 0, 'i')
    if len(t.shape) == 1:
        q = fresh('q')
        return RTensor((Loop(q, t.shape[0], (If(asbool(t.fn(q)), (Item((q,)),)),)),), 1, 0, 'i')
    raise Unsupported('nonzero')


def m_split(ex, a, k):
    t = densify(ex, a[0])
    sz = a[1]
    d = a[2] if len(a) > 2 else k.get('dim', 0)
    if isinstance(sz, (ListV, tuple)):
        szs = [lib.num(x) for x in (sz if isinstance(sz, tuple) else [n.val for n in sz.nodes])]
    else:
        raise Unsupported('split')
    if not dim_eq(ex, add(*szs), t.shape[d]):
        raise PyRaise('RuntimeError', 'split', ex.where)
    out, off = [], ZERO
    for s in szs:
        sh = list(t.shape)
        sh[d] = s
        out.append(view_of(Tensor(sh, lambda *ix, o=off: t.fn(*[add(lift(x), o) if i == d else x for i, x in enumerate(ix)]), t.dt), t))
        off = add(off, s)
    return tuple(out)


def m_masked_fill(ex, a, k):
    return emap(ex, lambda x, m, v: ite(asbool(m), v, x), a[0], a[1], a[2], dt=a[0].dt)


def m_where(ex, a, k):
    if len(a) == 1:
        t = a[0]
        r = m_nonzero(ex, [t], {})
        return (RTensor(nmap(r.nodes, lambda v: v[0]), None, 0, 'i'),)
    return emap(ex, lambda c, x, y: ite(asbool(c), asnum(x), asnum(y)), a[0], a[1], a[2], dt='f' if 'f' in (lift_t(a[1]).dt, lift_t(a[2]).dt) else 'i')


def m_maxmin(kind):
    def f(ex, a, k):
        t = a[0]
        if isinstance(t, (ListV, tuple)):
            return lib.BUILTINS[kind].f(ex, a, k)
        t = densify(ex, t)
        if len(a) > 1 or k:
            if len(a) > 1 and isinstance(a[1], (Tensor,)):
                return emap(ex, tmax if kind == 'max' else tmin, a[0], a[1])
            d = a[1] if len(a) > 1 else k.get('dim', k.get('axis'))
            if d is None:
                raise Unsupported('max arguments')
            d = d % len(t.shape)
            vs = [fresh('o') for _ in t.shape]
            nm = '%s_along' % kind

            def fn(*ix):
                q = fresh('m')
                jx = list(ix)
                jx.insert(d, q)
                return extremum(ex, kind, ((q, t.shape[d]),), asnum(t.fn(*jx)))
            shape = [s for i, s in enumerate(t.shape) if i != d]
            v = Tensor(shape, fn, t.dt)
            return (v, Opaque('argmax'))
        bs, ix = [], []
        for s in t.shape:
            q = fresh('m')
            bs.append((q, s))
            ix.append(q)
        small = [i for i, s_ in enumerate(t.shape) if s_.op == 'const' and 1 <= s_.args[0] <= 3]
        if len(t.shape) == 2 and len(small) == 1:
            vs = [extremum(ex, kind, tuple(b for i, b in enumerate(bs) if i != small[0]), subst(asnum(t.fn(*ix)), {ix[small[0]]: const(c)})) for c in range(int(t.shape[small[0]].args[0]))]
            v = vs[0]
            for w in vs[1:]:
                v = (tmax if kind == 'max' else tmin)(v, w)
        else:
            v = extremum(ex, kind, tuple(bs), asnum(t.fn(*ix)))
        return Tensor((), lambda: v, t.dt)
    return f


def extremum(ex, kind, bs, body):
    """The largest (smallest) value: an upper (lower) bound that is attained."""
    ren = {v: var('mx$%d' % i) for i, (v, _) in enumerate(bs)}
    try:
        n = norm.Norm(ex.th, ex.facts)
        b = n.canon(subst(body, ren))
        hs = [n.canon(subst(h, ren)) for _, h in bs]
    except norm.TooHard:
        b, hs = subst(body, ren), [subst(h, ren) for _, h in bs]
    free = sorted((fv(b) | frozenset().union(*[fv(h) for h in hs])) - set(ren.values()), key=lambda v: v.args[0])
    tab = ex.__dict__.setdefault('extrema', {})
    key = (kind, norm.akey(b), tuple(norm.akey(h) for h in hs))
    # free variables become arguments
    canon = {v: var('fx$%d' % i, v.sort) for i, v in enumerate(free)}
    key = (kind, norm.akey(subst(b, canon)), tuple(norm.akey(subst(h, canon)) for h in hs))
    nm = tab.get(key)
    if nm is None:
        nm = uniq('ext_' + kind)
        tab[key] = nm
        b2, hs2 = subst(b, canon), [subst(h, canon) for h in hs]
        cv = [canon[v] for v in free]
        mv = [ren[v] for v, _ in bs]

        def ax(*args):
            m = dict(zip(cv, args))
            t = app(nm, *args, sort=body.sort)
            w = [app('%s_at%d' % (nm, i), *args, sort='I') for i in range(len(mv))]
            mm = dict(m)
            mm.update(dict(zip(mv, w)))
            nonempty = and_(*[le(ONE, subst(h, m)) for h in hs2])
            att = and_(*([eq(t, subst(b2, mm))] + [and_(le(ZERO, x), lt(x, subst(h, mm))) for x, h in zip(w, hs2)]))
            return [implies(nonempty, att)]
        ex.th.axiom(nm, ax)
        # bound: instantiated on occurrences of the body's own applications
        for s in subterms(b2):
            if s.op == 'app' and set(mv) <= {x for x in s.args[1:] if x.op == 'var'} and not (fv(s) - set(mv)):
                def bnd(*args, s=s):
                    m = {v: args[list(s.args[1:]).index(v)] for v in mv}
                    t = app(nm, *cv, sort=body.sort)
                    if cv:
                        return []
                    rng = and_(*[and_(le(ZERO, m[v]), lt(m[v], subst(h, m))) for v, h in zip(mv, hs2)])
                    x = subst(b2, m)
                    return [implies(rng, le(x, t) if kind == 'max' else le(t, x))]
                ex.th.axiom(s.args[0], bnd)
                break
    return app(nm, *free, sort=body.sort)


def m_add(o):
    return lambda ex, a, k: arith(ex, o, a[0], a[1])


def m_any(ex, a, k):
    t = densify(ex, a[0])
    bs = [(fresh('a'), s) for s in t.shape]
    return Tensor((), lambda: exists(tuple(bs), asbool(t.fn(*[b[0] for b in bs]))), 'b')


def m_all(ex, a, k):
    t = densify(ex, a[0])
    bs = [(fresh('a'), s) for s in t.shape]
    return Tensor((), lambda: forall(tuple(bs), asbool(t.fn(*[b[0] for b in bs]))), 'b')


def m_softmax(ex, a, k):
    return softmax(ex, a[0], a[1] if len(a) > 1 else k['dim'])


def m_expand(ex, a, k):
    t = densify(ex, a[0])
    ds = ints(ex, a[1:])
    ds = [t.shape[i - (len(ds) - len(t.shape))] if isinstance(d, int) and d == -1 else lift(d) for i, d in enumerate(ds)]
    return emap(ex, lambda x, y: x, t, Tensor(ds, lambda *ix: RZERO), dt=t.dt)


def m_cumsum(ex, a, k):
    t = densify(ex, a[0])
    d = (a[1] if len(a) > 1 else k.get('dim', k.get('axis', 0))) % len(t.shape)

    def fn(*ix):
        q = fresh('c')
        jx = list(ix)
        jx[d] = q
        return sum_(((q, add(lift(ix[d]), ONE)),), asnum(t.fn(*jx)))
    return Tensor(t.shape, fn, t.dt)


def reversed_rt(nodes, dt):
    """A reversed vector, which remembers what it is the reversal of."""
    r = RTensor(lib.reverse_nodes(nodes), None, 0, dt)
    r.rev_of = (r.nodes, nodes)
    return r


def reversal_of(t):
    m = getattr(t, 'rev_of', None)
    return m[1] if m is not None and m[0] is t.nodes else None


def tail_max(ex, u, lo, hi, cond, val):
    """The largest val(u) over lo <= u < hi with cond(u) (the set is not empty where it is used)."""
    ren = {u: var('mx$0')}
    c, v, h = subst(cond, ren), subst(ite(cond, asnum(val), const(0, asnum(val).sort)), ren), hi
    n = norm.Norm(ex.th, list(ex.facts) + [le(ZERO, ren[u]), lt(ren[u], h)])
    try:
        c, v, h = n.canon(c), n.canon(v), n.canon(h)
    except norm.TooHard:
        pass
    free = sorted((fv(c) | fv(v) | fv(h)) - {ren[u]}, key=first_seen(c, v, h))
    fx = {w: var('fx$%d' % i, w.sort) for i, w in enumerate(free)}
    key = tuple(norm.akey(subst(x, fx)) for x in (c, v, h))
    nm = ex.__dict__.setdefault('tailmax', {}).setdefault(key, None) or uniq('tailmax')
    ex.tailmax[key] = nm
    return app(nm, *(list(free) + [lift(lo)]), sort=v.sort)


def t_cummax(ex, a, k):
    """Running maximum of a reversed filtered vector: at each entry the largest of the entries from it to the end."""
    t = a[0]
    d = a[1] if len(a) > 1 else k.get('dim')
    o = reversal_of(t) if isinstance(t, RTensor) else None
    if d not in (0, -1) or o is None or len(o) != 1 or not isinstance(o[0], Loop) or len(o[0].body) != 1 or not isinstance(o[0].body[0], If):
        raise Unsupported('cummax')
    l, c = o[0], o[0].body[0].cond
    br = o[0].body[0].body
    if len(br) != 1 or not isinstance(br[0], Item):
        raise Unsupported('cummax')
    u = fresh('u')
    ren = {l.var: u}
    m = tail_max(ex, u, l.var, l.hi, subst(c, ren), subst(lift(br[0].val), ren))
    ex.assumed.add('torch.cummax: running maximum')
    return (reversed_rt((Loop(l.var, l.hi, (If(c, (Item(m),)),)),), t.dt), Opaque('argmax'))


def m_flip(ex, a, k):
    t = a[0]
    ds = k.get('dims', a[1] if len(a) > 1 else None)
    ds = [ds] if isinstance(ds, int) else list(ds)
    if isinstance(t, RTensor) and t.inner is None:
        o = reversal_of(t)
        if o is not None:
            return RTensor(o, None, 0, t.dt)
        return reversed_rt(t.nodes, t.dt)
    t = densify(ex, t)
    return Tensor(t.shape, lambda *ix: t.fn(*[add(t.shape[i], mul(const(-1), lift(x)), const(-1)) if i in ds else x for i, x in enumerate(ix)]), t.dt)


def m_new(name):
    return lambda ex, a, k: TORCH[name](ex, a[1:], k)


TENSOR_METHODS = {
    'clone': m_clone, 'detach': same, 'cpu': same, 'cuda': same, 'numpy': lambda ex, a, k: as_np(ex, a, k), 'to': m_to, 'contiguous': same, 'copy': m_clone, 'float': lambda ex, a, k: cast(ex, a[0], 'f'),
    'double': lambda ex, a, k: cast(ex, a[0], 'f'), 'long': lambda ex, a, k: cast(ex, a[0], 'i'), 'int': lambda ex, a, k: cast(ex, a[0], 'i'), 'bool': lambda ex, a, k: cast(ex, a[0], 'b'),
    'astype': m_to, 'type': m_to, 'tolist': m_tolist, 'item': m_item, 'size': m_size, 'dim': m_dim, 't': m_t, 'transpose': m_transpose, 'view': m_view, 'reshape': m_reshape, 'flatten': lambda ex, a, k: reshape(ex, a[0], [-1]),
    'squeeze': m_squeeze, 'unsqueeze': m_unsqueeze, 'repeat': m_repeat, 'expand': m_expand, 'sum': m_sum, 'mean': m_mean, 'pow': m_pow, 'mm': m_mm, 'matmul': m_mm, 'gather': m_gather,
    'sigmoid': el('sigmoid'), 'log': el('log'), 'exp': el('exp'), 'tanh': el('tanh'), 'sqrt': el('sqrt'), 'relu': el('relu'), 'abs': lambda ex, a, k: lib.b_abs(ex, a, k),
    'argsort': m_argsort, 'sort': m_sort, 'split': m_split, 'masked_fill': m_masked_fill, 'max': m_maxmin('max'), 'min': m_maxmin('min'), 'add': m_add('add'), 'sub': m_add('sub'), 'mul': m_add('mul'), 'div': m_add('div'),
    'any': m_any, 'all': m_all, 'softmax': m_softmax, 'nonzero': m_nonzero, 'cumsum': m_cumsum, 'numel': lambda ex, a, k: lib.pyint(mul(*rshape(a[0])) if rshape(a[0]) else ONE), 'type_as': lambda ex, a, k: cast(ex, a[0], a[1].dt),
    'neg': lambda ex, a, k: neg(ex, a[0]), 'scatter_reduce': m_scatter, 'scatter_add': m_scatter, 'requires_grad_': same, 'isinf': m_isinf, 'isnan': m_isnan, 'coalesce': same, 'to_dense': same, 'flip': m_flip, 'cummax': t_cummax, 'logical_not': lambda ex, a, k: emap(ex, lambda x: not_(asbool(x)), a[0], dt='b'),
    'fill': lambda ex, a, k: emap(ex, lambda x, v: v, a[0], a[1], dt=a[0].dt), 'zero': lambda ex, a, k: emap(ex, lambda x: ZERO, a[0]),
    'permute': lambda ex, a, k: transpose(ex, densify(ex, a[0]), ints(ex, a[1:])), 'reciprocal': lambda ex, a, k: emap(ex, recip, a[0], dt='f'),
    'rsqrt': lambda ex, a, k: emap(ex, lambda x: app('rsqrt', x, sort='R'), a[0], dt='f'),
}

SPARSE_METHODS = {
    'clone': m_clone, 'detach': same, 'cpu': same, 'cuda': same, 'to': m_to, 'coalesce': lambda ex, a, k: coalesce(ex, a[0]), 'is_coalesced': lambda ex, a, k: a[0].coal, 't': m_t, 'transpose': m_transpose,
    'mm': m_mm, 'matmul': m_mm, 'to_dense': lambda ex, a, k: Tensor(a[0].dims, lambda i, j: a[0].dense(lift(i), lift(j))), 'size': m_size, 'dim': m_dim, 'float': same,
    '_indices': lambda ex, a, k: indices(ex, a[0]), '_values': lambda ex, a, k: values(ex, a[0]), 'indices': lambda ex, a, k: indices(ex, coalesced(ex, a[0])), 'values': lambda ex, a, k: values(ex, coalesced(ex, a[0])),
    '_nnz': lambda ex, a, k: lib.pyint(nlen(sp_nodes(ex, a[0]))), 'sum': m_sum, 'mul': m_add('mul'), 'add': m_add('add'), 'sub': m_add('sub'), 'double': same, 'contiguous': same,
}


def coalesced(ex, s):
    if not s.coal:
        raise PyRaise('RuntimeError', 'uncoalesced', ex.where)
    return s


# ------------------------------------------------------------------------------------------- torch.* / np.*
def t_tensor(ex, a, k):
    v = a[0]
    dt = None
    for x in list(a[1:]) + list(k.values()):
        dt = dt or dt_of(x)
    if isinstance(v, (Tensor, RTensor)):
        r = copy_t(v)
        return cast(ex, r, dt) if dt else r
    if isinstance(v, Sparse):
        return v
    if lib.isnumv(v):
        r = lift_t(v)
    elif isinstance(v, lib.RangeV) or isinstance(v, (ListV, tuple, SymTuple, SetV, lib.Iter, VTup, DictV)):
        ns = lib.iter_nodes(ex, v)
        r = from_nodes(ex, ns)
    else:
        raise Unsupported('tensor of %s' % type(v).__name__)
    return cast(ex, r, dt) if dt and dt != r.dt else r


def t_as(ex, a, k):
    if isinstance(a[0], (Tensor, RTensor)):
        return a[0]
    return t_tensor(ex, a, k)


def size_args(ex, a):
    if len(a) == 1 and isinstance(a[0], (tuple, ListV)):
        a = a[0] if isinstance(a[0], tuple) else [n.val for n in a[0].nodes]
    return [lib.num(x) for x in a if lib.isnumv(x)]


def t_full(val):
    def f(ex, a, k):
        if 'size' in k or 'shape' in k:
            a = [k.get('size', k.get('shape'))]
        dt = None
        for x in list(k.values()) + list(a):
            if isinstance(x, (Ext, HostFn)):
                dt = dt or dt_of(x)
        a = [x for x in a if not isinstance(x, (Ext, HostFn, Opaque))]
        d = dt or 'f'
        c = const(bool(val)) if d == 'b' else (const(val) if d == 'i' else const(val, 'R'))
        return Tensor(size_args(ex, a), lambda *ix: c, d)
    return f


def t_like(val):
    return lambda ex, a, k: Tensor(rshape(a[0]), lambda *ix: const(val, 'R') if a[0].dt == 'f' else (const(val) if a[0].dt == 'i' else const(bool(val))), a[0].dt)


def t_fullv(ex, a, k):
    size = a[0] if a else k.get('size')
    v = a[1] if len(a) > 1 else k.get('fill_value')
    x = lift_t(v).fn()
    return Tensor(size_args(ex, [size]), lambda *ix: x, sort_dt(v))


def t_arange(ex, a, k):
    n = [x for x in a if lib.isnumv(x)]
    lo, hi = (ZERO, lib.num(n[0])) if len(n) == 1 else (lib.num(n[0]), lib.num(n[1]))
    if len(n) > 2:
        raise Unsupported('arange step')
    return Tensor((add(hi, mul(const(-1), lo)),), lambda i: add(lo, lift(i)), 'i')


def t_cat(ex, a, k):
    d = a[1] if len(a) > 1 else k.get('dim', k.get('axis', 0))
    l = seq_of(ex, a[0])
    if l is None:
        ns = lib.iter_nodes(ex, a[0])
        sm = simple(ns)
        if sm and isinstance(sm[2], Sparse):
            return cat_sparse_sym(ex, sm, d)
        if sm and isinstance(sm[2], Tensor) and len(sm[2].shape) == 1 and not ex.loop_vars:
            v, hi, val = sm
            at, tot = concat_index(ex, v, hi, val.shape[0])
            return Tensor((tot,), lambda c: vsubst_fn(val, v, at, c), val.dt)
        if sm and isinstance(sm[2], Tensor) and len(sm[2].shape) > 1 and not any(sm[0] in fv(x) for x in sm[2].shape):
            v, hi, val = sm
            d = d % len(val.shape)
            if not ex.entailed(lt(ZERO, hi)) and ex.decide(le(hi, ZERO)):
                raise PyRaise('RuntimeError', 'cat of nothing', ex.where)
            w, shape = val.shape[d], list(val.shape)
            shape[d] = mul(hi, w)
            vs = [fresh('ti') for _ in val.shape]
            body = val.fn(*vs)

            def fn(*ix):
                jx = [lift(i) for i in ix]
                jx[d] = imod(jx[d], w)
                return subst(body, dict([(v, idiv(lift(ix[d]), w))] + list(zip(vs, jx))))
            return Tensor(shape, fn, val.dt)
        return cat_sym(ex, a[0], d)
    return cat(ex, [t_as(ex, [x], {}) for x in l], d)


def vsubst_fn(val, v, at, c):
    q, p = at(lift(c))
    x = fresh('ti')
    return subst(val.fn(x), {v: q, x: p})


def concat_index(ex, v, hi, width):
    """Positions of the concatenation of pieces of lengths width(v), v < hi: position -> (piece, position in the piece), and the total length.

    off(q) = sum of the widths before piece q, total = off(hi); positions correspond one to one to
    pairs (q, p) with p < width(q), and (q, p) sits at off(q) + p."""
    if ex.loop_vars and ((fv(width) - {v}) | fv(hi)) & set(ex.loop_vars):
        raise Unsupported('concatenation inside a loop')
    cv = var('cq$', 'I')
    w0 = subst(width, {v: cv})
    key = (norm.akey(w0), norm.akey(hi))
    tab = ex.__dict__.setdefault('concats', {})
    hit = tab.get(key)
    if hit is None:
        nm = uniq('cat')
        w = lambda q: subst(w0, {cv: lift(q)})
        u = fresh('u')
        tot = sum_(((u, hi),), w(u))
        def off(q):
            x = fresh('u')
            return sum_(((x, lift(q)),), w(x))
        kn = [nm + '_q', nm + '_p']
        has = lambda pre, ks: and_(le(ZERO, ks[0]), lt(ks[0], hi), le(ZERO, ks[1]), lt(ks[1], w(ks[0])))
        register_enum(ex.th, kn, nm + '_pos', 'II', has, lambda *a: tot)
        ex.th.axiom(nm + '_pos', lambda q, p: [implies(has((), (q, p)), eq(app(nm + '_pos', q, p, sort='I'), add(off(q), p)))])
        hit = (nm, tot, w, off, hi)
        tab[key] = hit
    nm, tot = hit[0], hit[1]
    f = lambda c: (app(nm + '_q', lift(c), sort='I'), app(nm + '_p', lift(c), sort='I'))
    f.name = nm
    return f, tot


def cat_sparse_sym(ex, sm, dim):
    v, hi, val = sm
    d = dim % 2
    o = 1 - d
    if v in fv(val.dims[o]):
        raise Unsupported('cat of matrices of different sizes')
    if not ex.entailed(lt(ZERO, hi)):
        if ex.decide(le(hi, ZERO)):
            raise PyRaise('RuntimeError', 'cat of nothing', ex.where)
    at, tot = concat_index(ex, v, hi, val.dims[d])
    a, b = fresh('ti'), fresh('ti')
    de, pa = val.dense(a, b), val.pat(a, b)

    def f(body):
        def g(i, j):
            ix = [lift(i), lift(j)]
            q, p = at(ix[d])
            ix[d] = p
            return subst(body, {v: q, a: ix[0], b: ix[1]})
        return g
    dims = [None, None]
    dims[d], dims[o] = tot, val.dims[o]
    r = Sparse(None, dims, False, f(de), f(pa))
    if not (val.coal or getattr(val, 'uniq_', False)):
        raise Unsupported('cat of uncoalesced sparse tensors')
    r.uniq_ = True
    return r


def cat_sym(ex, v, d):
    """Concatenation of a symbolic number of one-dimensional pieces."""
    def conv_(ns):
        out = []
        for n in ns:
            if isinstance(n, Item):
                if d != 0 or len(rshape(n.val)) != 1:
                    raise Unsupported('cat of a symbolic number of tensors')
                out += list(nrefresh(from_any_nodes(ex, n.val)))
            elif isinstance(n, Loop):
                out.append(Loop(n.var, n.hi, conv_(n.body)))
            else:
                out.append(If(n.cond, conv_(n.body)))
        return tuple(out)
    return RTensor(conv_(lib.iter_nodes(ex, v)), None, 0)


def t_hstack(ex, a, k):
    l = seq_of(ex, a[0])
    if l is None:
        return cat_sym(ex, a[0], 0)
    l = [t_as(ex, [x], {}) for x in l]
    return cat(ex, l, 0 if all(len(rshape(t)) == 1 for t in l) else 1)


def t_vstack(ex, a, k):
    l = seq_of(ex, a[0])
    if l is None:
        ns = lib.iter_nodes(ex, a[0])
        if any(len(rshape(t_as(ex, [v], {}))) == 2 for _, _, v in leaves(ns)):
            return rows_below(ex, ns)
        return stack_any(ex, a[0], 0)
    l = [t_as(ex, [x], {}) for x in l]
    l = [reshape(ex, t, [1, -1]) if len(rshape(t)) == 1 else t for t in l]
    return cat(ex, l, 0)


def rows_below(ex, nodes):
    """Matrices of a constant small width set below each other."""
    widths = set()

    def conv_(ns):
        out = []
        for n in ns:
            if isinstance(n, Loop):
                out.append(Loop(n.var, n.hi, conv_(n.body)))
            elif isinstance(n, If):
                out.append(If(n.cond, conv_(n.body)))
            else:
                t = t_as(ex, [n.val], {})
                if isinstance(t, RTensor) and t.axis == 0 and t.inner is not None:
                    widths.add(t.inner)
                    out += list(nrefresh(t.nodes))
                    continue
                if not isinstance(t, Tensor) or len(t.shape) != 2 or t.shape[1].op != 'const' or t.shape[1].args[0] > 4:
                    raise Unsupported('a symbolic number of matrices of unknown width')
                w = int(t.shape[1].args[0])
                widths.add(w)
                q = fresh('q')
                out.append(Loop(q, t.shape[0], (Item(tuple(t.fn(q, const(c)) for c in range(w))),)))
        return tuple(out)
    ns = conv_(nodes)
    if len(widths) != 1:
        raise PyRaise('ValueError', 'vstack', ex.where)
    if ex.decide(eq(lib.nlen(nodes), ZERO)):
        raise PyRaise('ValueError', 'need at least one array to concatenate', ex.where)
    return RTensor(ns, widths.pop(), 0)


def t_stack(ex, a, k):
    return stack_any(ex, a[0], a[1] if len(a) > 1 else k.get('dim', k.get('axis', 0)))


def t_rand(ex, a, k):
    nm = uniq('rnd')
    pre = tuple(ex.loop_vars)
    ex.th.axiom(nm, lambda *x: [le(RZERO, app(nm, *x, sort='R')), lt(app(nm, *x, sort='R'), const(1, 'R'))])
    ex.events.append(('random', 'torch.rand'))
    return Tensor(size_args(ex, a), lambda *ix: app(nm, *(pre + tuple(lift(i) for i in ix)), sort='R'))


def t_randn(ex, a, k):
    nm = uniq('rndn')
    pre = tuple(ex.loop_vars)
    ex.events.append(('random', 'torch.randn'))
    return Tensor(size_args(ex, a), lambda *ix: app(nm, *(pre + tuple(lift(i) for i in ix)), sort='R'))


def t_bernoulli(ex, a, k):
    """Each entry 0 or 1; never 1 where the probability is 0 and never 0 where it is 1."""
    p = densify(ex, a[0])
    nm = uniq('bern')
    pre = tuple(ex.loop_vars)
    vs = [fresh('b') for _ in p.shape]
    pb = p.fn(*vs)
    np_ = len(pre)

    def ax(*x):
        q = subst(pb, dict(zip(vs, x[np_:])))
        t = app(nm, *x, sort='B')
        return [implies(le(q, ZERO), not_(t)), implies(le(const(1, 'R'), q), t)]
    ex.th.axiom(nm, ax)
    ex.events.append(('random', 'torch.bernoulli'))
    return Tensor(p.shape, lambda *ix: ite(app(nm, *(pre + tuple(lift(i) for i in ix)), sort='B'), ONE, ZERO), 'f')


def t_clamp(ex, a, k):
    lo = a[1] if len(a) > 1 else k.get('min', k.get('a_min'))
    hi = a[2] if len(a) > 2 else k.get('max', k.get('a_max'))
    r = a[0]
    if lo is not None:
        r = emap(ex, lambda x, y: tmax(finite(asnum(x)), asnum(y)), r, lo)
    if hi is not None:
        r = emap(ex, lambda x, y: tmin(finite(asnum(x)), asnum(y)), r, hi)
    return r


def finite(x):
    """Comparisons of values that may be infinite are outside the verified subset."""
    i = isinf_t(x)
    if i is not FALSE:
        raise Unsupported('comparison of a value that may be infinite')
    return x


def m_ew(f, dt=None):
    """An elementwise function of one or two operands."""
    return lambda ex, a, k: emap(ex, f, *(list(a) + [k['other']] if 'other' in k else a), dt=dt)


def sign_t(x):
    x = finite(asnum(x))
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), const(-1), ZERO))


def m_nan_to_num(ex, a, k):
    v = dict(zip(('nan', 'posinf', 'neginf'), a[1:]))
    v.update(k)
    nan, inf = v.get('nan', 0.0), v.get('posinf')

    def f(x):
        i, n = isinf_t(x), isnan_t(x)
        if i is not FALSE and inf is None:
            raise Unsupported('nan_to_num of a value that may be infinite')
        x = ite(n, asnum(nan), x) if n is not FALSE else x
        return ite(i, asnum(inf), x) if i is not FALSE else x
    return emap(ex, f, a[0])


def m_index_select(ex, a, k):
    v = dict(zip(('self', 'dim', 'index'), a))
    v.update(k)
    d = v['dim'] % len(rshape(v['self']))
    return tgetitem(ex, v['self'], tuple([slice(None)] * d + [v['index']]) if d else v['index'])


def t_norm(ex, a, k):
    t = densify(ex, a[0])
    p = k.get('p', k.get('ord', a[1] if len(a) > 1 else 2))
    d = k.get('dim', k.get('axis', a[2] if len(a) > 2 else None))
    return pnorm(ex, t, 2 if p is None else p, None if d is None else [d % len(t.shape)], bool(k.get('keepdim', k.get('keepdims', False))))


def pnorm(ex, t, p, ds, keep):
    if p == 2:
        r = reduce_sum(ex, emap(ex, lambda x: mul(x, x), t), ds, keep)
        return emap(ex, lambda x: fn1('sqrt', x), r, dt='f')
    ab = emap(ex, lambda x: ite(le(ZERO, asnum(x)), asnum(x), mul(const(-1), asnum(x))), t)
    if p == 1:
        return reduce_sum(ex, ab, ds, keep)
    r = reduce_sum(ex, emap(ex, lambda x: tpow(x, lib.num(p)), ab), ds, keep)
    return emap(ex, lambda x: app('root', x, lib.num(p), sort='R'), r, dt='f')


def f_normalize(ex, a, k):
    t = densify(ex, a[0])
    p = a[1] if len(a) > 1 else k.get('p', 2)
    d = a[2] if len(a) > 2 else k.get('dim', 1)
    eps = a[3] if len(a) > 3 else k.get('eps', 1e-12)
    n = pnorm(ex, t, p, [d % len(t.shape)], True)
    return arith(ex, 'div', t, emap(ex, lambda x: app('max_eps', x, lib.num(eps), sort='R'), n, dt='f'))


def f_dropout(ex, a, k):
    tr = k.get('training', a[2] if len(a) > 2 else True)
    if tr is False:
        return a[0]
    if tr is True:
        return dropped(ex, a[0], a[1] if len(a) > 1 else k.get('p', 0.5))
    raise Unsupported('dropout')


def dropped(ex, t, p):
    nm = uniq('drop')
    ex.events.append(('random', 'dropout'))
    pt = lib.num(p)
    pre = tuple(ex.loop_vars)
    return Tensor(t.shape, lambda *ix: mul(t.fn(*ix), app(nm, pt, *(pre + tuple(lift(i) for i in ix)), sort='R')), 'f')


def leaky(ex, a, k):
    s = a[1] if len(a) > 1 else k.get('negative_slope', 0.01)
    return emap(ex, lambda x: app('leaky', lib.num(s), x, sort='R'), a[0], dt='f')


def elu(ex, a, k):
    s = a[1] if len(a) > 1 else k.get('alpha', 1.0)
    return emap(ex, lambda x: app('elu', lib.num(s), x, sort='R'), a[0], dt='f')


def f_softplus(ex, a, k):
    if len(a) > 1 or k:
        raise Unsupported('softplus options')
    return emap(ex, lambda x: mul(const(-1), app('log', app('sigmoid', mul(const(-1), asnum(x)), sort='R'), sort='R')), a[0], dt='f')


def f_logsigmoid(ex, a, k):
    return emap(ex, lambda x: app('log', app('sigmoid', x, sort='R'), sort='R'), a[0], dt='f')


def as_np(ex, a, k):
    """The same values as a NumPy array (shares the memory)."""
    t = a[0]
    if isinstance(t, Tensor):
        r = view_of(Tensor(t.shape, lambda *ix: t.fn(*ix), t.dt), t)
    elif isinstance(t, RTensor):
        r = RTensor(t.nodes, t.inner, t.axis, t.dt, base=t)
    else:
        return t
    r.frozen = t.frozen
    r.tag = 'np'
    return r


def np_unique(ex, a, k):
    if k or len(a) > 1:
        raise Unsupported('np.unique')
    t = densify(ex, t_as(ex, [a[0]], {}))
    vs = [fresh('u') for _ in t.shape]
    r = from_nodes(ex, lib.sorted_enum(ex, SetV(nest(list(zip(vs, t.shape)), asnum(t.fn(*vs))))), dt=t.dt)
    r = densify(ex, r)
    r.tag = 'np'
    return r


def nest(bs, v):
    return (Item(v),) if not bs else (Loop(bs[0][0], bs[0][1], nest(bs[1:], v)),)


def log2(x):
    return mul(fn1('log', x), app('inv0', app('log', const(2, 'R'), sort='R'), sort='R'))


def np_ceil(ex, a, k):
    if lib.isnumv(a[0]):
        x = lib.num(a[0])
        return toreal(app('iceil', x, sort='I')) if x.sort != 'I' else x
    return emap(ex, lambda x: toreal(app('iceil', x, sort='I')), a[0], dt='f')


def np_mean(ex, a, k):
    v = a[0]
    if isinstance(v, (ListV, tuple)):
        v = from_nodes(ex, lib.iter_nodes(ex, v))
    r = m_sum(ex, [v] + list(a[1:]), k, True)
    return r.fn() if isinstance(r, Tensor) and not r.shape else r


def t_scalar_or(f):
    return f


def np_linspace(ex, a, k):
    lo, hi, n = lib.num(a[0]), lib.num(a[1]), lib.num(a[2])
    return Tensor((n,), lambda i: add(lo, mul(add(hi, mul(const(-1), lo)), lift(i), app('inv0', add(n, const(-1)), sort='R'))), 'f')


TORCH = {
    'torch.tensor': t_tensor, 'torch.Tensor': t_tensor, 'torch.FloatTensor': t_tensor, 'torch.LongTensor': t_tensor, 'np.array': lambda ex, a, k: as_np(ex, [t_tensor(ex, a, k)], {}), 'np.asarray': lambda ex, a, k: as_np(ex, [t_as(ex, a, k)], {}), 'np.unique': np_unique, 'torch.as_tensor': t_as, 'torch.from_numpy': t_as,
    'torch.zeros': t_full(0), 'torch.ones': t_full(1), 'np.zeros': t_full(0), 'np.ones': t_full(1), 'torch.zeros_like': t_like(0), 'torch.ones_like': t_like(1), 'np.zeros_like': t_like(0), 'np.ones_like': t_like(1),
    'torch.topk': t_topk, 'torch.cdist': t_cdist, 'torch.full': t_fullv, 'torch.arange': t_arange, 'np.arange': t_arange, 'torch.sparse_coo_tensor': coo, 'torch.Size': lambda ex, a, k: tuple(size_list(a[0])), 'torch.device': lambda ex, a, k: DEVICE,
    'torch.cat': t_cat, 'torch.concat': t_cat, 'np.concatenate': t_cat, 'torch.hstack': t_hstack, 'np.hstack': t_hstack, 'torch.vstack': t_vstack, 'np.vstack': t_vstack, 'torch.stack': t_stack, 'np.stack': t_stack,
    'torch.sparse.mm': m_mm, 'torch.mm': m_mm, 'torch.matmul': m_mm, 'np.matmul': m_mm, 'np.dot': m_mm, 'torch.sparse.sum': m_sum, 'torch.sum': m_sum, 'np.sum': m_sum, 'torch.mean': m_mean, 'np.mean': np_mean,
    'torch.sparse.softmax': sp_softmax, 'torch.softmax': m_softmax, 'F.softmax': m_softmax, 'F.log_softmax': lambda ex, a, k: softmax(ex, a[0], a[1] if len(a) > 1 else k['dim'], True),
    'torch.isinf': m_isinf, 'np.isinf': m_isinf, 'torch.isnan': m_isnan, 'np.isnan': m_isnan, 'torch.exp': el('exp'), 'np.exp': el('exp'), 'torch.log': el('log'), 'torch.sigmoid': el('sigmoid'), 'torch.tanh': el('tanh'),
    'torch.sqrt': el('sqrt'), 'np.sqrt': el('sqrt'), 'F.relu': el('relu'), 'torch.relu': el('relu'), 'F.sigmoid': el('sigmoid'), 'F.tanh': el('tanh'), 'F.leaky_relu': leaky, 'F.elu': elu, 'F.softplus': f_softplus, 'F.logsigmoid': f_logsigmoid,
    'torch.log2': lambda ex, a, k: emap(ex, log2, a[0], dt='f'), 'torch.argsort': m_argsort, 'np.argsort': m_argsort, 'torch.sort': m_sort, 'torch.gather': m_gather, 'torch.nonzero': m_nonzero, 'torch.where': m_where, 'np.where': m_where,
    'torch.bernoulli': t_bernoulli, 'torch.rand': t_rand, 'torch.randn': t_randn, 'torch.logical_not': lambda ex, a, k: emap(ex, lambda x: not_(asbool(x)), a[0], dt='b'), 'torch.clamp': t_clamp, 'np.clip': t_clamp,
    'torch.linalg.norm': t_norm, 'torch.norm': t_norm, 'np.linalg.norm': t_norm, 'F.dropout': f_dropout, 'F.normalize': f_normalize, 'torch.split': m_split, 'torch.flip': m_flip, 'torch.cummax': t_cummax, 'torch.pow': m_pow, 'np.power': m_pow, 'torch.abs': lambda ex, a, k: lib.b_abs(ex, a, k),
    'np.abs': lambda ex, a, k: lib.b_abs(ex, a, k), 'np.ceil': np_ceil, 'torch.max': m_maxmin('max'), 'torch.min': m_maxmin('min'), 'np.max': m_maxmin('max'), 'np.min': m_maxmin('min'), 'np.linspace': np_linspace, 'torch.transpose': m_transpose,
    'np.append': lambda ex, a, k: cat(ex, [t_as(ex, [x], {}) if not lib.isnumv(x) else from_nodes(ex, [Item(x)]) for x in a[:2]], 0), 'torch.squeeze': m_squeeze, 'torch.unsqueeze': m_unsqueeze, 'torch.add': m_add('add'), 'torch.mul': m_add('mul'), 'torch.div': m_add('div'),
    'torch.no_grad': lambda ex, a, k: Opaque('no_grad'), 'torch.numel': TENSOR_METHODS['numel'], 'np.float64': lambda ex, a, k: a[0], 'torch.any': m_any, 'torch.all': m_all, 'torch.cumsum': m_cumsum, 'np.cumsum': m_cumsum,
    'torch.is_tensor': lambda ex, a, k: isinstance(a[0], (Tensor, RTensor, Sparse)), 'torch.clone': m_clone, 'torch.reshape': lambda ex, a, k: reshape(ex, a[0], ints(ex, [a[1]])),
    'torch.sub': m_add('sub'), 'torch.eye': lambda ex, a, k: Tensor((lib.num(a[0]), lib.num(a[0])), lambda i, j: ite(eq(lift(i), lift(j)), ONE, ZERO)),
}


def size_list(v):
    return list(v) if isinstance(v, tuple) else [n.val for n in v.nodes]


EW = {
    'clamp': t_clamp, 'clip': t_clamp, 'clamp_min': t_clamp, 'clamp_max': lambda ex, a, k: t_clamp(ex, [a[0], None, a[1]], {}), 'nan_to_num': m_nan_to_num, 'index_select': m_index_select,
    'logical_and': m_ew(lambda x, y: and_(asbool(x), asbool(y)), 'b'), 'logical_or': m_ew(lambda x, y: or_(asbool(x), asbool(y)), 'b'), 'logical_not': m_ew(lambda x: not_(asbool(x)), 'b'),
    'logical_xor': m_ew(lambda x, y: ne(asnum(asbool(x)), asnum(asbool(y))), 'b'),
    'maximum': m_ew(lambda x, y: tmax(finite(asnum(x)), finite(asnum(y)))), 'minimum': m_ew(lambda x, y: tmin(finite(asnum(x)), finite(asnum(y)))),
    'sign': m_ew(sign_t), 'square': m_ew(lambda x: mul(asnum(x), asnum(x))), 'isfinite': m_ew(lambda x: not_(or_(isinf_t(x), isnan_t(x))), 'b'),
    'floor': m_ew(lambda x: toreal(app('ifloor', asnum(x), sort='I')) if asnum(x).sort != 'I' else x), 'ceil': m_ew(lambda x: toreal(app('iceil', asnum(x), sort='I')) if asnum(x).sort != 'I' else x),
    'lt': m_ew(lambda x, y: lt(finite(asnum(x)), finite(asnum(y))), 'b'), 'le': m_ew(lambda x, y: le(finite(asnum(x)), finite(asnum(y))), 'b'),
    'gt': m_ew(lambda x, y: lt(finite(asnum(y)), finite(asnum(x))), 'b'), 'ge': m_ew(lambda x, y: le(finite(asnum(y)), finite(asnum(x))), 'b'),
}
EW['eq'] = m_ew(lambda x, y: eq(asnum(x), asnum(y)), 'b')
EW['ne'] = m_ew(lambda x, y: ne(asnum(x), asnum(y)), 'b')
for _n, _f in EW.items():
    TENSOR_METHODS.setdefault(_n, _f)
    TORCH.setdefault('torch.' + _n, _f)
for _n, _o in (('greater', 'gt'), ('greater_equal', 'ge'), ('less', 'lt'), ('less_equal', 'le'), ('equal', 'eq'), ('not_equal', 'ne')):
    TORCH.setdefault('np.' + _n, EW[_o])
for _n in ('maximum', 'minimum', 'logical_and', 'logical_or', 'logical_not', 'sign', 'square', 'floor', 'isfinite', 'nan_to_num'):
    TORCH.setdefault('np.' + _n, EW[_n])
TENSOR_METHODS.setdefault('where', lambda ex, a, k: m_where(ex, [a[1], a[0], a[2]], k))
TENSOR_METHODS.setdefault('div', m_add('div'))
TENSOR_METHODS.setdefault('true_divide', m_add('div'))
for _n in ('log2',):
    TENSOR_METHODS.setdefault(_n, TORCH['torch.' + _n])


# ------------------------------------------------------------------------------------------- layers of torch.nn
def layer(ex, kind, attrs):
    o = ObjV(Ext('nn.' + kind), attrs)
    n = ex.__dict__.setdefault('layer_count', 0)
    ex.layer_count = n + 1
    o.name = '%s#%d' % (kind, n)
    ex.__dict__.setdefault('layers', []).append(o)
    return o


def param(ex, name, shape):
    pre = tuple(ex.loop_vars)
    t = Tensor(shape, lambda *ix: app(name, *(pre + tuple(lift(i) for i in ix)), sort='R'))
    t.tag = ('param', name)
    return t


def mk_linear(ex, a, k):
    names = ['in_features', 'out_features', 'bias']
    v = dict(zip(names, a))
    v.update(k)
    o = layer(ex, 'Linear', {})
    i, u = lib.num(v['in_features']), lib.num(v['out_features'])
    nm = uniq('lin')
    o.attrs['in_features'], o.attrs['out_features'] = v['in_features'], v['out_features']
    o.attrs['weight'] = param(ex, nm + '_W', (u, i))
    b = v.get('bias', True)
    if not isinstance(b, bool):
        b = ex.truth(b)
    o.attrs['bias'] = param(ex, nm + '_b', (u,)) if b else None
    return o


def call_linear(ex, o, x):
    x = densify(ex, x)
    W, b = o.attrs['weight'], o.attrs['bias']
    if not dim_eq(ex, x.shape[-1], W.shape[1]):
        raise PyRaise('RuntimeError', 'linear', ex.where)

    def fn(*ix):
        q = fresh('s')
        s = sum_small(((q, W.shape[1]),), mul(x.fn(*(list(ix[:-1]) + [q])), W.fn(ix[-1], q)))
        return add(s, b.fn(ix[-1])) if b is not None else s
    return Tensor(tuple(x.shape[:-1]) + (W.shape[0],), fn)


def mk_simple(kind, names=(), defaults=None):
    def f(ex, a, k):
        v = dict(defaults or {})
        v.update(zip(names, a))
        v.update(k)
        return layer(ex, kind, v)
    return f


def mk_bn(ex, a, k):
    o = layer(ex, 'BatchNorm1d', {'num_features': a[0] if a else k['num_features']})
    o.attrs['sym'] = uniq('bn')
    return o


def mk_list(ex, a, k):
    o = layer(ex, 'ModuleList', {})
    o.attrs['items'] = ListV(lib.iter_nodes(ex, a[0])) if a else ListV([])
    return o


def mk_seq(ex, a, k):
    o = layer(ex, 'Sequential', {})
    o.attrs['items'] = ListV([Item(x) for x in a])
    return o


def mk_embedding(ex, a, k):
    names = ['num_embeddings', 'embedding_dim']
    v = dict(zip(names, a))
    v.update(k)
    o = layer(ex, 'Embedding', {})
    o.attrs['weight'] = param(ex, uniq('emb'), (lib.num(v['num_embeddings']), lib.num(v['embedding_dim'])))
    return o


def mk_parameter(ex, a, k):
    t = a[0]
    if isinstance(t, (Tensor,)):
        if t.tag is None and getattr(t, 'unset', False):
            return param(ex, uniq('par'), t.shape)
        return t
    raise Unsupported('Parameter')


def init_param(ex, a, k):
    """nn.init.*: the parameter becomes an arbitrary value (any initialisation is covered)."""
    return a[0]


def init_const(ex, a, k):
    t = a[0]
    v = lib.num(a[1] if len(a) > 1 else k['val'])
    return t


def call_layer(ex, o, args, kw):
    kind = lib.extname(o.cls.name)[3:]
    x = args[0] if args else None
    if kind == 'Linear':
        return call_linear(ex, o, x)
    if kind in ('Dropout',):
        if o.attrs.get('training', False) is True:
            return dropped(ex, x, o.attrs.get('p', 0.5))
        return x
    if kind == 'ReLU':
        return emap(ex, lambda v: fn1('relu', v), x, dt='f')
    if kind == 'Sigmoid':
        return emap(ex, lambda v: fn1('sigmoid', v), x, dt='f')
    if kind == 'Tanh':
        return emap(ex, lambda v: fn1('tanh', v), x, dt='f')
    if kind == 'ELU':
        return elu(ex, [x, o.attrs.get('alpha', 1.0)], {})
    if kind == 'LeakyReLU':
        return leaky(ex, [x, o.attrs.get('negative_slope', 0.01)], {})
    if kind == 'BatchNorm1d':
        x = densify(ex, x)
        if not dim_eq(ex, x.shape[-1], lib.num(o.attrs['num_features'])):
            raise PyRaise('RuntimeError', 'batch norm', ex.where)
        sy = o.attrs['sym']
        return Tensor(x.shape, lambda *ix: app(sy, x.fn(*ix), lift(ix[-1]), sort='R'))
    if kind == 'Sequential':
        for n in o.attrs['items'].nodes:
            if not isinstance(n, Item):
                raise Unsupported('symbolic Sequential')
            x = ex.call(n.val, [x])
        return x
    if kind == 'Identity':
        return x
    if kind == 'Embedding':
        W = o.attrs['weight']
        x = densify(ex, x)
        return Tensor(tuple(x.shape) + (W.shape[1],), lambda *ix: W.fn(x.fn(*ix[:-1]), ix[-1]))
    raise Unsupported('call of nn.%s' % kind)


def layer_attr(ex, o, name):
    kind = lib.extname(o.cls.name)
    if name in ('eval', 'train', 'to', 'cpu', 'cuda', 'float'):
        return HostFn(name, lambda ex, a, k: o)
    if kind in ('nn.ModuleList', 'nn.Sequential'):
        if name == 'append':
            def app_(ex, a, k):
                ex.setattr(o.attrs['items'], 'nodes', o.attrs['items'].nodes + (Item(a[0]),))
                return o
            return HostFn('append', app_)
        if name in ('add_module',):
            def addm(ex, a, k):
                ex.setattr(o.attrs['items'], 'nodes', o.attrs['items'].nodes + (Item(a[1]),))
                return o
            return HostFn('add_module', addm)
    if name == 'forward':
        return HostFn('forward', lambda ex, a, k: call_layer(ex, o, a, k))
    if name == 'parameters':
        return HostFn('parameters', lambda ex, a, k: Opaque('parameters'))
    if name == 'reset_parameters':
        return HostFn(name, lambda ex, a, k: None)
    if name == 'training':
        return o.attrs.get('training', False)
    return MISSING


def empty(ex, a, k):
    r = param(ex, uniq('par'), size_args(ex, a))
    return r


TORCH.update({
    'nn.Linear': mk_linear, 'nn.Dropout': mk_simple('Dropout', ['p', 'inplace']), 'nn.ReLU': mk_simple('ReLU', ['inplace']), 'nn.Sigmoid': mk_simple('Sigmoid'), 'nn.Tanh': mk_simple('Tanh'), 'nn.ELU': mk_simple('ELU', ['alpha', 'inplace']),
    'nn.LeakyReLU': mk_simple('LeakyReLU', ['negative_slope', 'inplace']), 'nn.BatchNorm1d': mk_bn, 'nn.ModuleList': mk_list, 'nn.Sequential': mk_seq, 'nn.Identity': mk_simple('Identity'), 'nn.Embedding': mk_embedding,
    'nn.Parameter': mk_parameter, 'torch.nn.Parameter': mk_parameter, 'nn.init.xavier_uniform_': init_param, 'nn.init.xavier_normal_': init_param, 'nn.init.normal_': init_param, 'nn.init.constant_': init_const, 'nn.init.zeros_': init_param,
    'nn.init.uniform_': init_param, 'torch.empty': empty,
})
