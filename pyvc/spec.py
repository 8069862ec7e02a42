"""Helpers to write contracts: symbolic inputs, and comparison of results with specification functions."""
from .ir import *
from . import ir, norm, smt, lib, tlib, vals
from .vals import *
from .core import *
from .core import MISSING
from .driver import contract, summary, external
from .loops import LoopSpec


def isym(ex, name, lo=None):
    t = app(name, sort='I')
    if lo is not None:
        ex.assume(le(const(lo), t))
    return t


def rsym(ex, name, lo=None):
    t = app(name, sort='R')
    if lo is not None:
        ex.assume(le(const(lo), t))
    return t


def bsym(ex, name):
    return app(name, sort='B')


def tensor(ex, name, dims, sort='R', dt=None, frozen=True):
    t = Tensor(dims, lambda *ix: app(name, *ix, sort=sort), dt or {'R': 'f', 'I': 'i', 'B': 'b'}[sort])
    if frozen:
        t.frozen = 'argument ' + name
    return t


def getcls(ex, qual):
    mn, _, nm = qual.partition(':')
    return ex.prog.lookup(ex.prog.module(mn), nm)


def func(ex, qual):
    return ex.prog.get(qual)


def callq(ex, qual, *args, **kw):
    return ex.call_func(ex.prog.get(qual), list(args), kw)


def obj(ex, qual, **attrs):
    return ObjV(getcls(ex, qual), dict(attrs))


def indices_for(dims):
    ix = [fresh('x') for _ in dims]
    return ix, [le(ZERO, i) for i in ix] + [lt(i, lift(d)) for i, d in zip(ix, dims)]


def teq(ex, label, got, dims, fn):
    """got is a tensor of the given shape with got[ix] = fn(ix) everywhere."""
    if isinstance(got, (Sparse, RTensor, SparseVec_)) or not isinstance(got, Tensor):
        try:
            got = tlib.densify(ex, got)
        except Exception:
            pass
    if isinstance(got, Term):
        got = Tensor((), lambda: got_)
    if not isinstance(got, Tensor):
        ex.fail(label, 'result is %s, not a tensor' % type(got).__name__)
        return False
    if len(got.shape) != len(dims):
        ex.fail(label, 'rank %d instead of %d' % (len(got.shape), len(dims)))
        return False
    if dims and not ex.check(label + ': shape', and_(*[eq(a, lift(b)) for a, b in zip(got.shape, dims)])):
        return False
    ix, rng = indices_for(dims)
    return ex.check(label, eq_any(got.fn(*ix), fn(*ix)), hyps=rng)


SparseVec_ = tlib.SparseVec


def eq_any(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'B' and b.sort != 'B':
        a = ite(a, ONE, ZERO)
    if b.sort == 'B' and a.sort != 'B':
        b = ite(b, ONE, ZERO)
    return eq(a, b)


def speq(ex, label, got, dims, fn, pat=None):
    """got is a sparse matrix of the given shape with dense values fn and, if given, stored pattern pat."""
    if not isinstance(got, Sparse):
        return teq(ex, label, got, dims, fn)
    if not ex.check(label + ': shape', and_(*[eq(a, lift(b)) for a, b in zip(got.dims, dims)])):
        return False
    ix, rng = indices_for(dims)
    return ex.check(label, eq_any(got.dense(*ix), fn(*ix)), hyps=rng)


def ssum(n, f, name='s'):
    v = fresh(name)
    return sum_(((v, lift(n)),), f(v))


def forall_(n, f):
    v = fresh('a')
    return forall(((v, lift(n)),), f(v))


def exists_(n, f):
    v = fresh('e')
    return exists(((v, lift(n)),), f(v))


def unchanged(ex):
    """No obligation-relevant frozen object was written."""
    if ex.frame:
        ex.fail('frame', '; '.join(ex.frame))
    else:
        ex.ok('frame')


def raises(ex, thunk):
    """Kind of the exception raised by thunk, or None (with its value)."""
    try:
        return None, thunk()
    except PyRaise as e:
        ex.__dict__['last_raise'] = '%s %s at %s' % (e.kind, e.msg, e.where)
        return e.kind, None


class TensorRec(LoopSpec):
    """A loop of n iterations whose state is one tensor: state(l) = sym(l, ix), sym(0, ix) = the value before the loop,
    sym(l+1, ix) = step(l, sym(l, .), ix).  The defining equations of sym are the specification; that the loop body
    computes them is checked as an inductive obligation."""

    def __init__(self, label, n, shape, sym, step):
        self.label, self.n, self.shape, self.sym, self.step = label, lift(n), [lift(s) for s in shape], sym, step
        self.hit = False

    def state(self, l):
        l = lift(l)
        return Tensor(self.shape, lambda *ix: app(self.sym, l, *[lift(i) for i in ix], sort='R'))

    def match(self, ex, loop, locs, frame):
        return loop.hi is self.n and bool(self.locs(locs))

    def locs(self, locs):
        out = []
        for l in locs.values():
            if isinstance(l.old, Tensor) and len(l.old.shape) == len(self.shape) and all(norm.akey(a) == norm.akey(b) for a, b in zip(l.old.shape, self.shape)):
                out.append(l)
        self.loc = out[0] if len(out) == 1 else None
        return out if len(out) == 1 else []

    def init(self, ex, v, hi):
        self.base = self.loc.old
        self.hit = True

    def enter(self, ex, v):
        self.loc.put(ex, self.state(v))

    def leave(self, ex, v):
        got = self.loc.get()
        st = self.state(v)
        teq(ex, self.label + ': one iteration', got, self.shape, lambda *ix: self.step(v, st, *ix))

    def finish(self, ex, n):
        base, sym = self.base, self.sym
        first = Tensor(self.shape, lambda *ix: ite(eq(self.n, ZERO), base.fn(*ix), app(sym, self.n, *ix, sort='R')))
        self.loc.put(ex, first)


