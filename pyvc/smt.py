"""Translation of IR terms to z3 (and, for cross-checking, SMT-LIB text for cvc5)."""
import time
import z3
from .ir import *
from . import ir

RLIMIT = 4_000_000


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.0
        self.unknown = 0


STATS = Stats()


def alpha(t, env=None, depth=0, free=None):
    """Alpha-invariant text of t; free variables (not in env) are numbered into `free` (list)."""
    if env is None:
        env = {}
    if free is None:
        free = []
    o = t.op
    if o == 'const':
        return '%s:%s' % (t.args[0], t.sort)
    if o == 'var':
        if t in env:
            return env[t]
        if t not in free:
            free.append(t)
        return '$%d' % free.index(t)
    if o in ('sum', 'exists'):
        e = dict(env)
        parts = []
        for i, (v, h) in enumerate(t.args[0]):
            parts.append(alpha(h, e, depth, free))
            e[v] = '@%d.%d' % (depth, i)
        return '%s[%s](%s)' % (o, ';'.join(parts), alpha(t.args[1], e, depth + 1, free))
    if o == 'app':
        return '%s(%s)' % (t.args[0], ','.join(alpha(c, env, depth, free) for c in t.args[1:]))
    return '(%s %s)' % (o, ' '.join(alpha(c, env, depth, free) for c in t.args))


USORT = z3.DeclareSort('U')
SORTS = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'U': USORT}
FUNCS, MEMO, SUMS, KEYS, QUERIES = {}, {}, {}, {}, {}


def collect(t, seen, out):
    """Subterms of t not in seen yet, parents first."""
    if t in seen:
        return
    seen.add(t)
    out.append(t)
    for c in ir.children(t):
        collect(c, seen, out)


def sums_in(t):
    """The sums and existentials of t that are translated as opaque terms (outermost ones)."""
    r = SUMS.get(t)
    if r is None:
        if t.op in ('sum', 'exists'):
            r = (t,)
        else:
            acc = {}
            for c in ir.children(t):
                for x in sums_in(c):
                    acc[x] = True
            r = tuple(acc)
        SUMS[t] = r
    return r


class Z3Ctx:
    """One translation context; facts are instantiated for the applications that occur.  Translations are shared by all contexts."""

    def __init__(self, axioms=None):
        if len(MEMO) > 300000:
            MEMO.clear()
            SUMS.clear()
            KEYS.clear()
        self.U = USORT
        self.sorts = SORTS
        self.funcs = FUNCS
        self.memo = MEMO
        self.axioms = axioms or {}

    def fn(self, name, argsorts, sort):
        k = (name, tuple(argsorts), sort)
        f = self.funcs.get(k)
        if f is None:
            nm = name if not argsorts else '%s/%d' % (name, len(argsorts))
            f = z3.Function(nm, *[self.sorts[s] for s in argsorts], self.sorts[sort]) if argsorts else z3.Const(nm, self.sorts[sort])
            self.funcs[k] = f
        return f

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == 'const':
            if t.sort == 'B':
                r = z3.BoolVal(a[0])
            elif t.sort == 'I':
                r = z3.IntVal(int(a[0]))
            else:
                r = z3.RealVal(str(a[0]))
        elif o == 'var':
            r = self.fn(a[0], (), t.sort)
        elif o == 'app':
            name, args = a[0], a[1:]
            if name == 'idiv':
                r = self.tr(args[0]) / self.tr(args[1])
            elif name == 'imod':
                r = self.tr(args[0]) % self.tr(args[1])
            elif name == 'floor':
                x = self.tr(args[0])
                r = z3.ToInt(x) if args[0].sort == 'R' else x
            else:
                zs = [self.tr(x) for x in args]
                f = self.fn(name, [x.sort for x in args], t.sort)
                r = f(*zs) if zs else f
        elif o in ('add', 'mul'):
            zs = [self.tr(x) for x in a]
            if t.sort == 'R':
                zs = [z3.ToReal(z) if z.sort() == z3.IntSort() else z for z in zs]
            r = zs[0]
            for z in zs[1:]:
                r = (r + z) if o == 'add' else (r * z)
        elif o == 'ite':
            x, y = self.tr(a[1]), self.tr(a[2])
            x, y = self.coerce(x, y)
            r = z3.If(self.tr(a[0]), x, y)
        elif o == 'not':
            r = z3.Not(self.tr(a[0]))
        elif o == 'and':
            r = z3.And([self.tr(x) for x in a])
        elif o == 'or':
            r = z3.Or([self.tr(x) for x in a])
        elif o == 'eq':
            x, y = self.coerce(self.tr(a[0]), self.tr(a[1]))
            r = x == y
        elif o == 'le':
            x, y = self.coerce(self.tr(a[0]), self.tr(a[1]))
            r = x <= y
        elif o in ('sum', 'exists'):
            free = []
            key = alpha(t, free=free)
            name = '%s{%s}' % (o, key)
            f = self.fn(name, [v.sort for v in free], t.sort)
            r = f(*[self.tr(v) for v in free]) if free else f
        else:
            raise ValueError(o)
        self.memo[t] = r
        return r

    def coerce(self, x, y):
        if x.sort() != y.sort():
            if x.sort() == z3.IntSort() and y.sort() == z3.RealSort():
                x = z3.ToReal(x)
            elif y.sort() == z3.IntSort() and x.sort() == z3.RealSort():
                y = z3.ToReal(y)
        return x, y

    def instantiate(self, roots, rounds=3, cap=400):
        """Ground instances of the declared facts for all applications reachable from roots."""
        out, done, work = [], set(), list(roots)
        seen, exs = set(), []
        for _ in range(rounds):
            new = []
            for r in work:
                todo = []
                collect(r, seen, todo)
                for s in todo:
                    if s.op == 'app':
                        for ax in self.axioms.get(s.args[0], ()):
                            f = ax(*s.args[1:])
                            if f is None:
                                continue
                            for g in (f if isinstance(f, (list, tuple)) else (f,)):
                                if g is not TRUE and g not in done:
                                    done.add(g)
                                    new.append(g)
                    elif s.op in ('sum', 'exists'):
                        if s.op == 'exists' and len(s.args[0]) == 1:
                            # introduction: the free variables in sight are candidate witnesses
                            (v, h), = s.args[0]
                            for c in sorted((c for c in ir.fv(s) if c.sort == v.sort), key=lambda c: c.args[0])[:4]:
                                g = or_(not_(ir.and_(ir.le(const(0), c), ir.lt(c, h), ir.subst(s.args[1], {v: c}))), s)
                                if g is not TRUE and g not in done:
                                    done.add(g)
                                    new.append(g)
                        elif s.op == 'exists' and len(s.args[0]) <= 3:
                            exs.append(s)
                        for ax in self.axioms.get('<%s>' % s.op, ()):
                            for g in ax(s) or ():
                                if g is not TRUE and g not in done:
                                    done.add(g)
                                    new.append(g)
            for s in exs:
                for m in matches(s, seen):
                    (bs, body), conds = s.args, []
                    for v, h in bs:
                        conds += [ir.le(const(0), m[v]), ir.lt(m[v], ir.subst(h, m))]
                    g = or_(not_(ir.and_(*(conds + [ir.subst(body, m)]))), s)
                    if g is not TRUE and g not in done:
                        done.add(g)
                        new.append(g)
            out += new
            if not new or len(out) > cap:
                break
            work = new
        return out


def shifted(x, vs):
    """(v, d) when x is v + d for one of the variables."""
    if x in vs:
        return x, 0
    if isinstance(x, Term) and x.sort == 'I':
        fs = ir.fv(x) & vs
        if len(fs) == 1:
            v, = fs
            d = ir.subst(x, {v: const(0)})
            if d.op == 'const' and ir.add(v, d) is x:
                return v, d.args[0]
    return None, 0


def matches(s, seen, limit=4):
    """Choices of the (several) variables of an existential for which one of its applications occurs in sight."""
    bs, body = s.args
    vs = {v for v, _ in bs}
    pats = []
    for p in ir.subterms(body):
        if p.op == 'app' and len(p.args) > len(vs) and vs <= {shifted(a, vs)[0] for a in p.args[1:]}:
            pats.append(p)
    if not pats:
        return []
    bound = {v for t in seen if t.op in ('sum', 'exists') for v, _ in t.args[0]}
    heads = {p.args[0] for p in pats}
    ground = sorted((t for t in seen if t.op == 'app' and t.args[0] in heads and not (ir.fv(t) & bound)), key=str)
    out = []
    for p in pats:
        for t in ground:
            if t.args[0] == p.args[0] and len(t.args) == len(p.args):
                m, ok = {}, True
                for x, y in zip(p.args[1:], t.args[1:]):
                    v, d = shifted(x, vs)
                    if v is not None:
                        y = ir.add(y, const(-d)) if d else y
                        ok = ok and m.get(v, y) is y
                        m[v] = y
                    else:
                        ok = ok and x is y
                if ok and m not in out:
                    out.append(m)
                    if len(out) >= limit:
                        return out
    return out


def links(sums_and_ex):
    """Facts relating a sum of guarded values and an existential over the same binders and guard that both occur:
    nothing satisfies the guard -> the sum is zero; the guarded value is a positive constant -> the sum is that much at least otherwise."""
    def key(t):
        r = KEYS.get(t)
        if r is None:
            free = []
            k = alpha(t, free=free)
            r = KEYS[t] = k + '|' + ','.join(v.args[0] for v in free)
        return r
    ex, sums, out = {}, [], []
    for t in sums_and_ex:
        if t.op == 'exists':
            ex[key(t)] = t
        elif t.args[1].op == 'ite' and t.args[1].args[2].op == 'const' and t.args[1].args[2].args[0] == 0:
            sums.append(t)
    if not ex or not sums:
        return out
    for t in sums:
        e = ir.exists(t.args[0], t.args[1].args[0])
        cand = ex.get(key(e)) if e.op == 'exists' else None
        if cand is not None:
            x = t.args[1].args[1]
            out.append(or_(cand, eq(t, const(0, t.sort))))
            if x.op == 'const' and x.args[0] > 0:
                out.append(or_(not_(cand), le(const(x.args[0], t.sort), t)))
    return out


def open_terms_bound(t):
    return t


def check(assumptions, axioms=None, rlimit=RLIMIT, model=False, extra=()):
    """Satisfiability of the conjunction. Returns 'sat' | 'unsat' | 'unknown' (and a model if asked)."""
    ctx = Z3Ctx(axioms)
    assumptions = [a for a in assumptions if a is not TRUE]
    if any(a is FALSE for a in assumptions):
        return ('unsat', None) if model else 'unsat'
    inst = ctx.instantiate(assumptions)
    query = None
    if not model:
        query = (frozenset(assumptions + inst), rlimit)
        r = QUERIES.get(query)
        if r is not None:
            return r
    s = z3.Solver()
    s.set('rlimit', rlimit)
    t0 = time.time()
    opaque = {}
    for a in assumptions + inst:
        s.add(ctx.tr(a))
        for x in sums_in(a):
            opaque[x] = True
    for a in links(opaque):
        s.add(ctx.tr(a))
    r = s.check()
    STATS.queries += 1
    STATS.seconds += time.time() - t0
    res = str(r)
    if res == 'unknown':
        STATS.unknown += 1
    if query is not None:
        if len(QUERIES) > 100000:
            QUERIES.clear()
        QUERIES[query] = res
    if model:
        return res, (s.model() if res == 'sat' else None)
    return res


def to_smt2(assumptions, axioms=None):
    ctx = Z3Ctx(axioms)
    inst = ctx.instantiate(assumptions)
    s = z3.Solver()
    for a in list(assumptions) + inst:
        s.add(ctx.tr(a))
    return s.to_smt2()
