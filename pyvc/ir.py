"""Terms of the verification-condition language (hash-consed, immutable).

Sorts: 'I' mathematical integers, 'R' mathematical reals, 'B' booleans, 'U' opaque values.
Binders range over 0 <= v < hi (integers); `hi` may mention earlier binders of the same chain.
"""
from fractions import Fraction
import itertools

_table = {}
_fresh = itertools.count()


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_key', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # convenience operators
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, mul(const(-1), lift(o)))
    def __rsub__(self, o): return add(lift(o), mul(const(-1), self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __neg__(self): return mul(const(-1), self)
    def __bool__(self):
        if self.op == 'const' and self.sort == 'B':
            return self.args[0]
        raise TypeError('symbolic term used as a Python bool: %r' % (self,))


def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        t.id = len(_table)
        t._fv = None
        t._key = None
        _table[k] = t
    return t


def const(v, sort=None):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return mk('const', (v,), 'B')
    if sort is None:
        sort = 'I' if isinstance(v, int) else 'R'
    v = Fraction(v) if not isinstance(v, Fraction) else v
    return mk('const', (v,), sort)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
RZERO = const(0, 'R')


def lift(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, (bool, int, float, Fraction)):
        return const(v)
    raise TypeError('cannot lift %r to a term' % (v,))


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def var(name, sort='I'):
    return mk('var', (name,), sort)


def fresh(prefix='b', sort='I'):
    return mk('var', ('%s#%d' % (prefix, next(_fresh)),), sort)


def app(f, *args, sort='I'):
    return mk('app', (f,) + tuple(lift(a) for a in args), sort)


def numsort(*ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def add(*ts):
    ts = [lift(t) for t in ts]
    flat, c = [], Fraction(0)
    for t in ts:
        for u in (t.args if t.op == 'add' else (t,)):
            if u.op == 'const':
                c += u.args[0]
            else:
                flat.append(u)
    s = numsort(*ts)
    if c != 0:
        flat.append(const(c, s))
    if not flat:
        return const(0, s)
    if len(flat) == 1:
        return flat[0]
    return mk('add', tuple(flat), s)


def mul(*ts):
    ts = [lift(t) for t in ts]
    flat, c = [], Fraction(1)
    for t in ts:
        for u in (t.args if t.op == 'mul' else (t,)):
            if u.op == 'const':
                c *= u.args[0]
            else:
                flat.append(u)
    s = numsort(*ts)
    if c == 0:
        return const(0, s)
    if not flat:
        return const(c, s)
    if c != 1:
        flat = [const(c, s)] + flat
    if len(flat) == 1:
        return flat[0]
    return mk('mul', tuple(flat), s)


def toreal(t):
    t = lift(t)
    if t.sort == 'R':
        return t
    if t.op == 'const':
        return const(t.args[0], 'R')
    return t  # ints are used directly as reals


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort in 'IR' and b.sort in 'IR':
        return mk('ite', (c, a, b), numsort(a, b))
    return mk('ite', (c, a, b), a.sort)


def not_(c):
    c = lift(c)
    if c.op == 'const':
        return const(not c.args[0])
    if c.op == 'not':
        return c.args[0]
    return mk('not', (c,), 'B')


def and_(*cs):
    out, seen = [], set()
    for c in cs:
        c = lift(c)
        for d in (c.args if c.op == 'and' else (c,)):
            if d is TRUE:
                continue
            if d is FALSE:
                return FALSE
            if d not in seen:
                seen.add(d)
                out.append(d)
    for d in out:
        if not_(d) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*cs):
    out, seen = [], set()
    for c in cs:
        c = lift(c)
        for d in (c.args if c.op == 'or' else (c,)):
            if d is FALSE:
                continue
            if d is TRUE:
                return TRUE
            if d not in seen:
                seen.add(d)
                out.append(d)
    for d in out:
        if not_(d) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] == b.args[0])
    if a.sort == 'B':
        if a.op == 'const':
            return b if a.args[0] else not_(b)
        if b.op == 'const':
            return a if b.args[0] else not_(a)
    if a.sort == 'U' or b.sort == 'U':
        if a.sort != b.sort:
            return FALSE
        # distinct string literals are distinct; a literal against a symbol stays symbolic
        if a.op == 'app' and b.op == 'app' and a.args[0].startswith('str:') and b.args[0].startswith('str:'):
            return const(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def le(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] <= b.args[0])
    return mk('le', (a, b), 'B')


def lt(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] < b.args[0])
    if a.sort == 'I' and b.sort == 'I':
        return le(add(a, const(1)), b)
    return not_(le(b, a))


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def ne(a, b): return not_(eq(a, b))


def tmax(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), b, a)


def tmin(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def sum_(binders, body):
    """binders: tuple of (var, hi)."""
    binders = tuple((v, lift(h)) for v, h in binders)
    body = lift(body)
    if not binders:
        return body
    if body.op == 'const' and body.args[0] == 0:
        return body
    return mk('sum', (binders, body), body.sort)


def exists(binders, body):
    binders = tuple((v, lift(h)) for v, h in binders)
    body = lift(body)
    if not binders:
        return body
    if body is FALSE:
        return FALSE
    return mk('exists', (binders, body), 'B')


def forall(binders, body):
    return not_(exists(binders, not_(body)))


def iverson(c, t=ONE):
    return ite(c, t, const(0, lift(t).sort))


def idiv(a, b):
    a, b = lift(a), lift(b)
    if a.op == b.op == 'const':
        return const(int(a.args[0]) // int(b.args[0]))
    return app('idiv', a, b, sort='I')


def imod(a, b):
    a, b = lift(a), lift(b)
    if a.op == b.op == 'const':
        return const(int(a.args[0]) % int(b.args[0]))
    return app('imod', a, b, sort='I')


def children(t):
    if t.op in ('const', 'var'):
        return ()
    if t.op == 'app':
        return t.args[1:]
    if t.op in ('sum', 'exists'):
        return tuple(h for _, h in t.args[0]) + (t.args[1],)
    return t.args


def fv(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        elif t.op in ('sum', 'exists'):
            s = fv(t.args[1])
            for v, h in reversed(t.args[0]):
                s = (s - {v}) | fv(h)
            t._fv = s
        else:
            s = frozenset()
            for c in children(t):
                s = s | fv(c)
            t._fv = s
    return t._fv


def rebuild(t, kids):
    op = t.op
    if op == 'app':
        return mk_app(t.args[0], kids, t.sort)
    if op == 'add':
        return add(*kids)
    if op == 'mul':
        return mul(*kids)
    if op == 'ite':
        return ite(*kids)
    if op == 'not':
        return not_(*kids)
    if op == 'and':
        return and_(*kids)
    if op == 'or':
        return or_(*kids)
    if op == 'eq':
        return eq(*kids)
    if op == 'le':
        return le(*kids)
    raise ValueError(op)


# Rewriting hooks run when an application is rebuilt: fname -> fn(args)->Term or None
APP_REWRITES = {}


def mk_app(f, args, sort):
    r = APP_REWRITES.get(f)
    if r is not None:
        x = r(args)
        if x is not None:
            return x
    return mk('app', (f,) + tuple(args), sort)


def subst(t, m, memo=None):
    """Capture-avoiding substitution of variables (dict var->term)."""
    if not m:
        return t
    if memo is None:
        memo = {}
    f = fv(t)
    if not any(v in f for v in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t, t)
    elif t.op in ('sum', 'exists'):
        binders, body = t.args
        mm = dict(m)
        nb = []
        danger = set()
        for k, x in m.items():
            if k in f:
                danger |= fv(x)
        for v, h in binders:
            nh = subst(h, mm)
            if v in danger:
                nv = fresh('b')
                mm[v] = nv
            else:
                nv = v
                mm.pop(v, None)
            nb.append((nv, nh))
        nbody = subst(body, mm)
        r = (sum_ if t.op == 'sum' else exists)(tuple(nb), nbody)
    else:
        r = rebuild(t, [subst(c, m, memo) for c in children(t)])
    memo[t] = r
    return r


def replace_terms(t, m, memo=None):
    """Replace arbitrary closed subterms (dict term->term), not under binders that capture."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ('const', 'var'):
        r = t
    elif t.op in ('sum', 'exists'):
        b, body = t.args
        nb = tuple((v, replace_terms(h, m, memo)) for v, h in b)
        r = (sum_ if t.op == 'sum' else exists)(nb, replace_terms(body, m, memo))
    else:
        r = rebuild(t, [replace_terms(c, m, memo) for c in children(t)])
    memo[t] = r
    return r


def subterms(t, acc=None):
    if acc is None:
        acc = {}
    if t in acc:
        return acc
    acc[t] = True
    for c in children(t):
        subterms(c, acc)
    return acc


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 14:
        return '...'
    d = depth + 1
    o, a = t.op, t.args
    if o == 'const':
        return str(a[0])
    if o == 'var':
        return a[0]
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:])) if len(a) > 1 else str(a[0])
    if o == 'add':
        return '(' + ' + '.join(show(x, d) for x in a) + ')'
    if o == 'mul':
        return '*'.join(show(x, d) for x in a)
    if o == 'ite':
        return 'if(%s, %s, %s)' % tuple(show(x, d) for x in a)
    if o == 'not':
        return '!' + show(a[0], d)
    if o == 'and':
        return '(' + ' & '.join(show(x, d) for x in a) + ')'
    if o == 'or':
        return '(' + ' | '.join(show(x, d) for x in a) + ')'
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'le':
        return '%s <= %s' % (show(a[0], d), show(a[1], d))
    if o in ('sum', 'exists'):
        return '%s[%s](%s)' % (o, ', '.join('%s<%s' % (v.args[0], show(h, d)) for v, h in a[0]), show(a[1], d))
    return o
