"""Normal forms for sums of products with Iverson guards and bounded binders, and the equality/implication prover."""
import itertools
from fractions import Fraction
from math import gcd
from .ir import *
from . import ir, smt


class Mono:
    __slots__ = ('coef', 'binders', 'guards', 'factors', '_k')

    def __init__(self, coef, binders=(), guards=(), factors=()):
        self.coef = coef
        self.binders = tuple(binders)
        self.guards = tuple(guards)
        self.factors = tuple(factors)
        self._k = None


import os
DEBUG = os.environ.get('PYVC_DEBUG')


class TooHard(Exception):
    pass


_alpha_cache = {}


def akey(t):
    k = _alpha_cache.get(t)
    if k is None:
        free = []
        k = smt.alpha(t, free=free) + '|' + ','.join(v.args[0] for v in free)
        _alpha_cache[t] = k
    return k


class Theory:
    """Declared facts about uninterpreted symbols used by one verification task.

    axioms: symbol -> list of functions(args) -> Bool terms (instantiated on every occurrence)
    inverse: list of Inverse (enumerator/position pairs used to eliminate binders)
    """

    def __init__(self):
        self.axioms = {}
        self.inverses = []
        self.defs = {}
        self.nonneg = set()

    def axiom(self, sym, fn):
        self.axioms.setdefault(sym, []).append(fn)

    def fork(self):
        t = Theory()
        t.axioms = {k: list(v) for k, v in self.axioms.items()}
        t.inverses = list(self.inverses)
        t.defs = dict(self.defs)
        return t


class Inverse:
    """Enumeration p -> (key_0(prefix,p),...,key_m(prefix,p)) for 0<=p<n(prefix), with inverse pos(prefix,keys)
    and membership has(prefix,keys).  prefix = number of leading arguments shared by all symbols."""

    def __init__(self, keys, pos, has, npre=0, n=None):
        self.keys, self.pos, self.has, self.npre, self.n = tuple(keys), pos, has, npre, n
        self.range = None       # for a permutation of a list: length of the list (members are a subset of its positions)

    def hast(self, pre, ks):
        return self.has(pre, ks)


class Norm:
    def __init__(self, theory, facts=()):
        self.th = theory
        self.facts = [f for f in facts if f is not TRUE]
        self.pm = {}
        self.bm = {}
        self.cm = {}
        self.imp = {}
        self.univ = None
        self.kf = None
        self.budget = 200000
        self.use_smt = True

    def known(self):
        """The facts, those about sums also in canonical form (so that they can be matched with canonical terms)."""
        if self.kf is None:
            self.kf = list(self.facts)
            n = None
            for f in self.facts:
                if f.op in ('le', 'eq', 'not', 'or') and any(x.op == 'sum' for x in subterms(f)):
                    n = n or Norm(self.th, ())
                    n.kf = []
                    try:
                        g = n.cbool(f)
                    except TooHard:
                        continue
                    if g is not f and g is not TRUE:
                        self.kf.append(g)
        return self.kf

    # ---------------------------------------------------------------- polynomials
    def poly(self, t):
        r = self.pm.get(t)
        if r is None:
            r = self.combine(self._poly(t))
            self.pm[t] = r
        return r

    def _poly(self, t):
        self.budget -= 1
        if self.budget < 0:
            raise TooHard('normaliser budget')
        o, a = t.op, t.args
        if o == 'const':
            return [Mono(a[0])] if a[0] != 0 else []
        if o == 'var':
            return [Mono(Fraction(1), factors=(t,))]
        if o == 'app':
            return self.app_poly(t)
        if o == 'add':
            return [m for x in a for m in self.poly(x)]
        if o == 'mul':
            acc = [Mono(Fraction(1))]
            for x in a:
                px = self.poly(x)
                acc = [m for m in (self.mulmono(u, v) for u in acc for v in px) if m is not None]
                if len(acc) > 3000:
                    raise TooHard('product too large')
                acc = self.combine(acc)
            return acc
        if o == 'ite':
            c, x, y = a
            out = []
            px, py = self.poly(x), self.poly(y)
            if px:
                for g in self.dnf(c):
                    out += [self.guarded(m, g) for m in px]
            if py:
                for g in self.dnf(not_(c)):
                    out += [self.guarded(m, g) for m in py]
            res = []
            for m in out:
                res += self.simp(m)
            return res
        if o == 'sum':
            binders, body = a
            out = []
            # rename binders apart to be safe
            ren = {}
            nb = []
            for v, h in binders:
                nv = fresh('s')
                nb.append((nv, self.canon(subst(h, ren))))
                ren[v] = nv
            body = subst(body, ren)
            for m in self.poly(body):
                m = self.freshen(m)
                out += self.simp(Mono(m.coef, tuple(nb) + m.binders, m.guards, m.factors))
            return out
        raise TooHard('poly of %s' % o)

    def app_poly(self, t):
        f = t.args[0]
        args = [self.canon(x) for x in t.args[1:]]
        if f in ('inv0', 'rsqrt0', 'recip', 'rsqrt', 'exp', 'log', 'sqrt') and args[0].sort == 'I':
            args[0] = self.toterm(self.poly(args[0]), 'R')       # one spelling of the same number
        d = self.th.defs.get(f)
        u = ir.mk_app(f, tuple(args), t.sort)
        if u.op != 'app' or u.args[0] != f:
            return self.poly(u)
        if d is not None:
            v = d(*args)
            if v is not None and v is not u:
                return self.poly(v)
        if f in ('inv0', 'rsqrt0', 'recip', 'rsqrt', 'exp', 'log', 'sqrt') and args[0].op == 'const':
            c = args[0].args[0]
            if f in ('inv0', 'recip') and c != 0:
                return [Mono(1 / c)]
            if f in ('inv0', 'rsqrt0') and c == 0:
                return []
            if f in ('rsqrt0', 'rsqrt', 'sqrt') and c == 1:
                return [Mono(Fraction(1))]
            if f == 'exp' and c == 0:
                return [Mono(Fraction(1))]
            if f == 'log' and c == 1:
                return []
        if f in ('inv0', 'rsqrt0') and args[0].op == 'ite':
            pass
        return [Mono(Fraction(1), factors=(u,))]

    def canon(self, t):
        """Canonical term equal to t."""
        r = self.cm.get(t)
        if r is not None:
            return r
        if t.sort == 'B':
            r = self.cbool(t)
        elif t.sort == 'U':
            if t.op == 'app':
                args = tuple(self.canon(x) for x in t.args[1:])
                r = ir.mk_app(t.args[0], args, 'U')
                if r is not t and r.op == 'app' and r.args[0] != t.args[0]:
                    r = self.canon(r)
            elif t.op == 'ite':
                c = self.cbool(t.args[0])
                r = ite(c, self.canon(t.args[1]), self.canon(t.args[2]))
            else:
                r = t
        else:
            r = self.toterm(self.poly(t), t.sort)
        self.cm[t] = r
        self.cm[r] = r
        return r

    def toterm(self, p, sort='I'):
        parts = []
        for m in sorted(p, key=lambda m: self.mkey(m)):
            parts.append(self.monoterm(m, sort))
        return add(*parts) if parts else const(0, sort)

    def monoterm(self, m, sort='I'):
        """Term of one monomial: everything that does not depend on the bound variables stands outside the sum."""
        m = self.canon_mono(m)
        cs = 'R' if m.coef.denominator != 1 else sort
        bv = {v for v, _ in m.binders}
        gin = [g for g in m.guards if fv(g) & bv]
        gout = [g for g in m.guards if not (fv(g) & bv)]
        fin = [f for f in m.factors if fv(f) & bv]
        fout = [f for f in m.factors if not (fv(f) & bv)]
        if m.binders:
            b = mul(*fin) if fin else ONE
            if gin:
                b = ite(and_(*gin), b, const(0, b.sort))
            b = sum_(m.binders, b)
            if b.sort != 'R' and cs == 'R':
                b = mul(const(1, 'R'), b)
            fout = [b] + fout
        t = mul(const(m.coef, cs), *fout) if fout else const(m.coef, cs)
        if gout:
            t = ite(and_(*gout), t, const(0, t.sort))
        return t

    def freshen(self, m):
        if not m.binders:
            return m
        ren, nb = {}, []
        for v, h in m.binders:
            nv = fresh('s')
            nb.append((nv, subst(h, ren)))
            ren[v] = nv
        return Mono(m.coef, nb, [subst(g, ren) for g in m.guards], [subst(f, ren) for f in m.factors])

    def mulmono(self, u, v):
        if u.binders and v.binders:
            v = self.freshen(v)
        elif u.binders or v.binders:
            # avoid capture of free variables by the other's binders
            if u.binders:
                u = self.freshen(u)
            else:
                v = self.freshen(v)
        m = Mono(u.coef * v.coef, u.binders + v.binders, tuple(dict.fromkeys(u.guards + v.guards)), u.factors + v.factors)
        r = self.simp(m)
        if not r:
            return None
        if len(r) == 1:
            return r[0]
        raise TooHard('guard split in product')

    def guarded(self, m, g):
        if not g:
            return m
        fvs = set()
        for x in g:
            fvs |= fv(x)
        if any(v in fvs for v, _ in m.binders):
            m = self.freshen(m)
        return Mono(m.coef, m.binders, tuple(dict.fromkeys(m.guards + tuple(g))), m.factors)

    # ---------------------------------------------------------------- simplification of one monomial
    def simp(self, m):
        """Returns a list of simplified monomials equal (in sum) to m."""
        binders, guards, factors, coef = list(m.binders), list(m.guards), list(m.factors), m.coef
        changed = True
        while changed:
            changed = False
            r = self.elim(binders, guards)
            if r is None:
                return []
            if r is not False:
                sub, binders, guards = r
                # substitution may restructure factors: renormalise the whole product
                t = mul(*[subst(f, sub) for f in factors]) if factors else ONE
                out = []
                gs = and_(*[subst(g, sub) for g in guards]) if guards else TRUE
                for g in self.dnf(gs):
                    for pm in self.poly(t):
                        pm = self.freshen(pm)
                        out += self.simp(Mono(coef * pm.coef, tuple(binders) + pm.binders, tuple(dict.fromkeys(tuple(g) + pm.guards)), pm.factors))
                return out
        # a binder with one value
        for v, h in binders:
            if h is ONE:
                sub = {v: ZERO}
                t = mul(*[subst(f, sub) for f in factors]) if factors else ONE
                nb = [(w, subst(k, sub)) for w, k in binders if w is not v]
                out = []
                for g in self.dnf(and_(*[subst(g, sub) for g in guards]) if guards else TRUE):
                    for pm in self.poly(t):
                        pm = self.freshen(pm)
                        out += self.simp(Mono(coef * pm.coef, tuple(nb) + pm.binders, tuple(dict.fromkeys(tuple(g) + pm.guards)), pm.factors))
                return out
        # constant guards
        gs = []
        for g in guards:
            if g is TRUE:
                continue
            if g is FALSE:
                return []
            if g not in gs:
                gs.append(g)
        for g in gs:
            if not_(g) in gs:
                return []
        guards = gs
        zf = [f for f in factors if f.op == 'app' and f.args[0] in ('inv0', 'rsqrt0')]
        if zf and guards:
            zl = [self.zero_literal(f.args[1]) for f in zf]
            if any(z is not None and z in guards for z in zl):
                return []
            guards = [g for g in guards if not (g.op == 'not' and g.args[0] in zl)]
        ctx = self.binder_facts(binders)
        if self.use_smt and guards:
            if self.quick_false(guards, ctx):
                return []
            kept = list(guards)
            for g in list(guards):
                rest = [x for x in kept if x is not g]
                if self.droppable(g, rest, ctx, factors):
                    kept = rest
            guards = kept
        r = self.absorb(binders, guards) if self.use_smt and guards and binders else None
        if r is None and self.use_smt and guards and binders:
            r = self.by_enum(binders, guards, ctx, factors)
        if r is None and binders and (guards or factors):
            r = self.from_perm(binders, guards, factors)
            if r is not None:
                binders, guards, factors = r
                r = ({}, binders, guards)
        if r is not None:
            sub, binders, guards = r
            if not sub:
                return self.resimp(coef, binders, guards, factors)
            t = mul(*[subst(f, sub) for f in factors]) if factors else ONE
            out = []
            gs = and_(*[subst(g, sub) for g in guards]) if guards else TRUE
            for g in self.dnf(gs):
                for pm in self.poly(t):
                    pm = self.freshen(pm)
                    out += self.simp(Mono(coef * pm.coef, tuple(binders) + pm.binders, tuple(dict.fromkeys(tuple(g) + pm.guards)), pm.factors))
            return out
        # counting the members of an enumeration
        for i, (v, h) in enumerate(binders):
            gv = [g for g in guards if v in fv(g)]
            if len(gv) != 1 or any(v in fv(x) for x in factors) or any(v in fv(h2) for _, h2 in binders):
                continue
            n = self.count_members(v, h, gv[0], [g for g in guards if g is not gv[0]], ctx)
            if n is not None:
                return [x for pm in self.poly(n) for x in self.simp(self.with_poly(coef, binders[:i] + binders[i + 1:], [g for g in guards if g is not gv[0]], factors, pm))]
        # unused binders
        used = set()
        for x in guards + factors:
            used |= fv(x)
        for i in range(len(binders) - 1, -1, -1):
            v, h = binders[i]
            if v not in used and not any(v in fv(h2) for _, h2 in binders[i + 1:]):
                rest = binders[:i] + binders[i + 1:]
                out = []
                for pm in self.poly(h):
                    pm = self.freshen(pm)
                    out += self.simp(Mono(coef * pm.coef, tuple(rest) + pm.binders, tuple(dict.fromkeys(tuple(guards) + pm.guards)), tuple(factors) + pm.factors))
                return out
        return [Mono(coef, binders, guards, factors)]

    def with_poly(self, coef, binders, guards, factors, pm):
        pm = self.freshen(pm)
        return Mono(coef * pm.coef, tuple(binders) + pm.binders, tuple(dict.fromkeys(tuple(guards) + pm.guards)), tuple(factors) + pm.factors)

    def resimp(self, coef, binders, guards, factors):
        t = mul(*factors) if factors else ONE
        out = []
        for g in self.dnf(and_(*guards)) if guards else [()]:
            for pm in self.poly(t):
                pm = self.freshen(pm)
                out += self.simp(Mono(coef * pm.coef, tuple(binders) + pm.binders, tuple(dict.fromkeys(tuple(g) + pm.guards)), pm.factors))
        return out

    def from_perm(self, binders, guards, factors):
        """sum_{p < n(pre)} F(perm(pre, p)) = sum_{v < N(pre)} [has(pre, v)] F(v): a sum over a rearranged list does not depend on the order.
        (parts of the list: with the position of v as a guard)"""
        bv = [v for v, _ in binders]
        for inv in self.th.inverses:
            if inv.range is None:
                continue
            for i, (p, h) in enumerate(binders):
                occ = {}
                for x in list(guards) + list(factors):
                    if p in fv(x):
                        for t in subterms(x):
                            if t.op == 'app' and t.args[0] == inv.keys[0] and p in fv(t):
                                occ[t] = True
                if len(occ) != 1 or any(p in fv(h2) for _, h2 in binders):
                    continue
                (t,) = occ
                pre, at = tuple(t.args[1:-1]), t.args[-1]
                q, off = (at, ZERO) if at.op == 'var' else self.shifted(at, bv)
                if q is not p or any(p in fv(x) for x in pre) or (set(bv[i:]) & set().union(fv(off), *[fv(x) for x in pre])):
                    continue
                v = fresh('v')
                ng = [replace_terms(x, {t: v}) for x in guards]
                nf = [replace_terms(x, {t: v}) for x in factors]
                if any(p in fv(x) for x in ng + nf):
                    continue
                n = inv.n(*pre)
                short = []
                if off is not ZERO or self.canon(h) is not self.canon(n):
                    bf = self.binder_facts([b for b in binders if b[0] is not p])
                    if not self.use_smt or not self.entails(and_(le(ZERO, self.canon(off)), le(self.canon(add(off, h)), self.canon(n))), bf + [le(ONE, self.canon(h))]):
                        continue
                    pos = app(inv.pos, *(pre + (v,)), sort='I')
                    short = [le(off, pos)] if off is not ZERO else []
                    short.append(lt(pos, add(off, h)))
                has = inv.has(pre, (v,))
                nb = list(binders)
                nb[i] = (v, self.canon(inv.range(pre)))
                return nb, ng + [has] + short, nf
        return None

    def by_enum(self, binders, guards, ctx, factors=()):
        """sum_v [has(pre, v)] F(v, pos(pre, v)) = sum_{p < n(pre)} F(key(pre, p), p): members are visited in the order of the enumeration."""
        bv = {v for v, _ in binders}
        for inv in self.th.inverses:
            if len(inv.keys) != 1 or inv.n is None:
                continue
            for g in guards:
                if g.op != 'le':
                    continue
                for t in subterms(g):
                    if t.op != 'app' or t.args[0] != inv.pos or t.args[-1] not in bv:
                        continue
                    v = t.args[-1]
                    i = [k for k, b in enumerate(binders) if b[0] is v][0]
                    if any(v in fv(h2) for _, h2 in binders):
                        continue
                    pre, ren = t.args[1:-1], {}
                    if any(v in fv(x) for x in pre):
                        # values pinned by the other guards
                        for e in guards:
                            if e.op == 'eq' and v in fv(e):
                                for m in self.poly(add(e.args[0], mul(const(-1), e.args[1]))):
                                    if len(m.factors) == 1 and m.factors[0].op == 'app' and abs(m.coef) == 1 and not m.guards and not m.binders and v in fv(m.factors[0]):
                                        x = m.factors[0]
                                        y = add(x, mul(const(-m.coef), add(e.args[0], mul(const(-1), e.args[1]))))
                                        y = self.canon(y)
                                        if v not in fv(y):
                                            ren[x] = y
                        pre = tuple(replace_terms(x, ren) for x in pre)
                        if any(v in fv(x) for x in pre):
                            continue
                    if any((fv(x) & bv) - {b[0] for b in binders[:i]} for x in pre):
                        continue
                    mem = inv.has(pre, (v,))
                    try:
                        mem = self.cbool(mem)
                    except TooHard:
                        continue
                    if not self.entails(mem, [x for x in guards] + ctx):
                        continue
                    if not self.entails(and_(le(ZERO, v), lt(v, binders[i][1])), [mem] + [x for x in ctx if v not in fv(x)]):
                        continue
                    p = fresh('p')
                    key = app(inv.keys[0], *(tuple(pre) + (p,)), sort=v.sort)
                    subst_pos = app(inv.pos, *(tuple(pre) + (v,)), sort='I')
                    rest = []
                    for x in guards:
                        if v in fv(x) and self.entails(x, [mem] + [y for y in ctx if v not in fv(y)] + [y for y in guards if v not in fv(y)]):
                            continue
                        if ren:
                            x = x if x.op == 'eq' else replace_terms(x, ren)
                        if v in fv(replace_terms(x, {subst_pos: ONE})):
                            rest = None
                            break
                        rest.append(subst(x, {v: key}))
                    if rest is None or any(v in fv(replace_terms(x, dict(ren, **{}) | {t: ONE})) for x in factors):
                        continue
                    nb = list(binders)
                    nb[i] = (p, self.canon(inv.n(*pre)))
                    return {v: key}, nb, rest
        return None

    def count_members(self, v, h, g, others, ctx):
        """sum_{v<h} [has(pre, v)] = size(pre) when every member lies in 0..h-1."""
        if not self.use_smt or g.op != 'app':
            return None
        for inv in self.th.inverses:
            if len(inv.keys) != 1 or inv.n is None or len(g.args) - 1 != inv.npre + 1 or g.args[-1] is not v:
                continue
            pre = g.args[1:-1]
            if any(v in fv(x) for x in pre) or inv.has(pre, (v,)) is not g:
                continue
            w = fresh('w')
            c2 = [x for x in ctx if v not in fv(x)]
            if self.entails(and_(le(ZERO, w), lt(w, h)), [inv.has(pre, (w,))] + list(others) + c2):
                return inv.n(*pre)
        return None

    def absorb(self, binders, guards):
        """A constant range guard on a binder becomes its range: sum_{v<h}[v<c] = sum_{v<c}, sum_{v<h}[v>=c] f(v) = sum_{v<h-c} f(v+c)."""
        bv = {v for v, _ in binders}
        for g in list(guards) + self.implied(guards, bv):
            if g.op != 'le':
                continue
            hit = fv(g) & bv
            if len(hit) != 1:
                continue
            v = next(iter(hit))
            d = self.poly(add(g.args[0], mul(const(-1), g.args[1])))
            lead, rest = None, []
            for m in d:
                if m.factors == (v,) and not m.guards and not m.binders and abs(m.coef) == 1 and lead is None:
                    lead = m
                else:
                    rest.append(m)
            if lead is None or any(n.coef.denominator != 1 for n in rest):
                continue
            r = self.toterm([Mono(-n.coef / lead.coef, n.binders, n.guards, n.factors) for n in rest], 'I')
            if v in fv(r) or r.sort != 'I':
                continue
            i = [k for k, b in enumerate(binders) if b[0] is v][0]
            h = binders[i][1]
            if fv(h) & bv or any(v in fv(h2) for _, h2 in binders):
                continue
            others = [x for x in guards if not (fv(x) & bv)]
            ng = [x for x in guards if x is not g]
            if lead.coef == 1:      # v <= r
                c = add(r, ONE)
                if c is h or (g not in guards and self.canon(c) is self.canon(h)):
                    continue
                if self.entails(and_(le(ZERO, c), le(c, h)), others):
                    return ({}, binders[:i] + [(v, self.canon(c))] + binders[i + 1:], ng)
            else:                   # v >= r
                if r.op == 'const' and r.args[0] <= 0:
                    continue
                if self.entails(and_(le(ZERO, r), le(r, h)), others):
                    nv = fresh('s')
                    return {v: add(nv, r)}, binders[:i] + [(nv, self.canon(add(h, mul(const(-1), r))))] + binders[i + 1:], ng
        return None

    def implied(self, guards, bv):
        """Range facts that follow from key facts of map membership guards."""
        out = []
        for g in guards:
            if g.op != 'app' or not (fv(g) & bv):
                continue
            for ax in self.th.axioms.get(g.args[0], ()):
                for f in ax(*g.args[1:]) or ():
                    if f.op != 'or' or not_(g) not in f.args:
                        continue
                    rest = [x for x in f.args if x is not not_(g)]
                    if len(rest) == 1:
                        out += [x for x in (rest[0].args if rest[0].op == 'and' else rest) if x.op == 'le']
        return out

    def zero_literal(self, x):
        try:
            l = self.literal(eq(x, ZERO))
        except TooHard:
            return None
        return l[0][0] if len(l) == 1 and len(l[0]) == 1 else None

    def binder_facts(self, binders):
        out = []
        for v, h in binders:
            out.append(le(ZERO, v))
            out.append(le(add(v, ONE), h))
        # instances of the universally quantified facts (not exists ...) at the bound variables
        if self.univ is None:
            self.univ = [f.args[0].args for f in self.facts if f.op == 'not' and f.args[0].op == 'exists' and len(f.args[0].args[0]) <= 2]
        for bs, body in self.univ:
            for vs in itertools.permutations([v for v, _ in binders], len(bs)):
                if any(v.sort != b.sort for v, (b, _) in zip(vs, bs)):
                    continue
                ren, rng = {}, []
                for v, (b, h) in zip(vs, bs):
                    rng += [le(ZERO, v), lt(v, subst(h, ren))]
                    ren[b] = v
                out.append(not_(and_(*(rng + [subst(body, ren)]))))
        return out

    def quick_false(self, guards, ctx):
        for g in guards:
            if g.op == 'not' and g.args[0].op == 'exists' and self.witnessed(g.args[0], [x for x in guards if x is not g], ctx):
                return True
        if all(g.op == 'app' for g in guards) and len(guards) < 2:
            return False
        return self.entails(FALSE, list(guards) + ctx)

    def droppable(self, g, rest, ctx, factors):
        if g.op in ('le', 'eq', 'not', 'app', 'exists', 'var'):
            if self.entails(g, rest + ctx):
                return True
        if g.op == 'exists' and self.witnessed(g, rest, ctx):
            return True
        # a guard is redundant when some factor vanishes without it
        if g.op == 'exists' or g.op == 'app':
            for f in factors:
                if self.vanishes(f, g):
                    return True
        return False

    def witnessed(self, g, rest, ctx):
        """Is the existential literal an instance of the other guards (some choice of their variables)?"""
        bs, body = g.args
        have = set(rest) | set(ctx)
        cand = sorted({v for x in list(rest) + list(ctx) for v in fv(x) if v.sort == 'I'}, key=lambda v: v.args[0])
        if not cand or len(cand) ** len(bs) > 60:
            return False
        for pick in itertools.product(cand, repeat=len(bs)):
            ren = {v: w for (v, _), w in zip(bs, pick)}
            need = [le(ZERO, ren[v]) for v, h in bs] + [le(add(ren[v], ONE), subst(h, ren)) for v, h in bs]
            bd = subst(body, ren)
            need += list(bd.args) if bd.op == 'and' else [bd]
            try:
                if all(x is TRUE or x in have or self.canon(x) is TRUE or self.canon(x) in have or (x.op == 'le' and self.entails(x, rest + ctx)) for x in need):
                    return True
            except TooHard:
                continue
        return False

    def vanishes(self, f, g):
        """Does factor f become 0 when literal g is false? (sums and zero-preserving functions of sums)"""
        if f.op == 'app' and f.args[0] in ('inv0', 'rsqrt0', 'neg', 'sqrt') and len(f.args) == 2:
            return self.term_vanishes(f.args[1], g)
        if f.op == 'sum':
            return self.term_vanishes(f, g)
        return False

    def term_vanishes(self, t, g):
        for m in self.poly(t):
            if g in m.guards:
                continue
            if g.op == 'exists':
                ok = False
                sub = [x for x in m.guards if any(v in fv(x) for v, _ in m.binders)]
                cand = [tuple(m.guards), tuple(sub)]
                for c in cand:
                    if c and akey(self.cbool(exists(m.binders, and_(*c)))) == akey(g):
                        ok = True
                if ok:
                    continue
            if any(self.vanishes(f, g) for f in m.factors):
                continue
            return False
        return True

    def elim(self, binders, guards):
        """One binder elimination step. False: nothing to do; None: contradiction; (sub, binders, guards)."""
        bvars = [v for v, _ in binders]
        if not bvars or not guards:
            return False
        eqs = [g for g in guards if g.op == 'eq']
        # enumerator inverses
        for inv in self.th.inverses:
            found = {}
            for g in eqs:
                for (kt, other) in self.key_sides(g, inv):
                    pre, at = kt.args[1:1 + inv.npre], kt.args[1 + inv.npre]
                    p, off = (at, ZERO) if at.op == 'var' else self.shifted(at, bvars)
                    if p is not None and p in bvars:
                        idx = inv.keys.index(kt.args[0])
                        if p in fv(other):
                            continue
                        found.setdefault((pre, p, off), {}).setdefault(idx, []).append((g, other))
            for (pre, p, off), d in found.items():
                if len(d) < len(inv.keys):
                    continue
                ks = tuple(d[i][0][1] for i in range(len(inv.keys)))
                gused = [d[i][0][0] for i in range(len(inv.keys))]
                if any(p in fv(x) for x in pre):
                    continue
                hi = dict(binders)[p]
                posn = app(inv.pos, *(tuple(pre) + ks), sort='I')
                short = []
                if off is not ZERO:
                    # a later part of the enumeration
                    posn = add(posn, mul(const(-1), off))
                    bf = self.binder_facts([b for b in binders if b[0] is not p])
                    if not self.use_smt or not self.entails(and_(le(ZERO, self.canon(off)), le(self.canon(add(off, hi)), self.canon(inv.n(*pre)))), bf + [le(ONE, self.canon(hi))]):
                        continue
                    short = [le(ZERO, posn), lt(posn, hi)]
                elif self.canon(hi) is not self.canon(inv.n(*pre)):
                    # an initial part of the enumeration
                    if not self.use_smt or not self.entails(le(self.canon(hi), self.canon(inv.n(*pre))), self.binder_facts([b for b in binders if b[0] is not p])):
                        continue
                    short = [lt(posn, hi)]
                i = bvars.index(p)
                dep = [j for j in range(len(binders)) if j != i and p in fv(binders[j][1])]
                kfv = set().union(*[fv(x) for x in ks]) if ks else set()
                kfv |= fv(off)
                if any(binders[j][0] in kfv for j in dep):
                    continue
                # binders mentioned in ks must not follow-dependency on p; order is irrelevant otherwise
                sub = {p: posn}
                nb = [(v, subst(h, sub)) for v, h in binders if v is not p]
                # keep chain well-formed: hi of later binders may only mention earlier ones (ks may mention later) -> topological sort
                nb = self.topo(nb)
                if nb is None:
                    continue
                ng = [subst(g, sub) for g in guards if g not in gused] + [inv.has(pre, ks)] + short
                return sub, nb, ng
        for g in eqs:
            if g.args[0].sort not in ('I',) and g.args[1].sort not in ('I',):
                continue
            if 'R' in (g.args[0].sort, g.args[1].sort):
                continue
            for v in bvars:
                if v not in fv(g):
                    continue
                s = self.solve(g, v)
                if s is None:
                    continue
                i = bvars.index(v)
                hi = binders[i][1]
                dep = [j for j in range(len(binders)) if j != i and v in fv(binders[j][1])]
                sfv = fv(s)
                if any(binders[j][0] in sfv for j in dep):
                    continue
                sub = {v: s}
                nb = self.topo([(w, subst(h, sub)) for w, h in binders if w is not v])
                if nb is None:
                    continue
                ng = [subst(x, sub) for x in guards if x is not g]
                ng += [le(ZERO, s), le(add(s, ONE), hi)]
                return sub, nb, ng
        return False

    def topo(self, binders):
        vs = {v for v, _ in binders}
        out, placed, rest = [], set(), list(binders)
        while rest:
            for k, (v, h) in enumerate(rest):
                if not ((fv(h) & vs) - placed):
                    out.append((v, h))
                    placed.add(v)
                    rest.pop(k)
                    break
            else:
                return None
        return out

    def key_sides(self, g, inv):
        """Yields (key application, other side) for an equality literal d == 0 with +-1 coefficient on the key."""
        a, b = g.args
        if a.sort == 'U' or b.sort == 'U':
            for x, y in ((a, b), (b, a)):
                if x.op == 'app' and x.args[0] in inv.keys:
                    yield x, y
            return
        d = self.poly(add(a, mul(const(-1), b)))
        for m in d:
            if not m.binders and not m.guards and len(m.factors) == 1 and abs(m.coef) == 1:
                x = m.factors[0]
                if x.op == 'app' and x.args[0] in inv.keys:
                    rest = [Mono(-n.coef / m.coef, n.binders, n.guards, n.factors) for n in d if n is not m]
                    yield x, self.toterm(rest, 'I')

    def shifted(self, t, bvars):
        """t = v + off for exactly one binder v (unit coefficient, not in off): (v, off), else (None, None)."""
        if not (fv(t) & set(bvars)):
            return None, None
        hit, rest = None, []
        for m in self.poly(t):
            if hit is None and m.coef == 1 and not m.binders and not m.guards and len(m.factors) == 1 and m.factors[0] in bvars:
                hit = m.factors[0]
            else:
                rest.append(m)
        if hit is None:
            return None, None
        off = self.toterm(rest, 'I')
        return (None, None) if hit in fv(off) else (hit, off)

    def solve(self, g, v):
        """Integer equality g (a==b) solved for v with unit coefficient; None if impossible."""
        d = self.poly(add(g.args[0], mul(const(-1), g.args[1])))
        hit, rest = None, []
        for m in d:
            if not m.binders and not m.guards and m.factors == (v,) and abs(m.coef) == 1 and hit is None:
                hit = m
            else:
                rest.append(m)
        if hit is None:
            return None
        r = self.toterm([Mono(-n.coef / hit.coef, n.binders, n.guards, n.factors) for n in rest], 'I')
        if v in fv(r):
            return None
        if any(n.coef.denominator != 1 for n in rest):
            return None
        return r

    # ---------------------------------------------------------------- canonical forms
    def canon_mono(self, m):
        if not m.binders:
            return Mono(m.coef, (), sorted(m.guards, key=akey), sorted(m.factors, key=akey))
        best = None
        n = len(m.binders)
        bv0 = {v for v, _ in m.binders}
        h = 0
        for x in list(m.guards) + list(m.factors) + [b[1] for b in m.binders]:
            if fv(x) & bv0:
                h = max(h, self.height(x))
            else:
                # stands outside of the sum: only its free variables must not be captured
                h = max([h] + [int(v.args[0][2:].split('_')[0]) for v in fv(x) if v.args[0].startswith('k$')])
        h += 1
        perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
        for perm in perms:
            order = [m.binders[i] for i in perm]
            # respect dependencies
            ok, seen = True, set()
            allv = {v for v, _ in m.binders}
            for v, hi in order:
                if (fv(hi) & allv) - seen:
                    ok = False
                    break
                seen.add(v)
            if not ok:
                continue
            ren = {v: var('k$%d_%d' % (h, i)) for i, (v, _) in enumerate(order)}
            nb = tuple((ren[v], subst(hi, ren)) for v, hi in order)
            ng = tuple(sorted((subst(g, ren) for g in m.guards), key=akey))
            nf = tuple(sorted((subst(f, ren) for f in m.factors), key=akey))
            k = ('|'.join(akey(x[1]) for x in nb), '&'.join(akey(x) for x in ng), '*'.join(akey(x) for x in nf))
            if best is None or k < best[0]:
                best = (k, nb, ng, nf)
        if best is None:
            raise TooHard('binder order')
        return Mono(m.coef, best[1], best[2], best[3])

    def height(self, t):
        h = self._h.get(t) if hasattr(self, '_h') else None
        if not hasattr(self, '_h'):
            self._h = {}
        if h is None:
            h = max([self.height(c) for c in children(t)] or [0])
            if t.op in ('sum', 'exists'):
                h += 1
            # names already used free with larger heights must not be captured
            for v in fv(t):
                n = v.args[0]
                if n.startswith('k$'):
                    h = max(h, int(n[2:].split('_')[0]))
            self._h[t] = h
        return h

    def mkey(self, m):
        if m._k is None:
            c = self.canon_mono(m)
            m._k = ('|'.join(akey(x[1]) for x in c.binders), '&'.join(akey(x) for x in c.guards), '*'.join(akey(x) for x in c.factors))
        return m._k

    def combine(self, ms):
        d = {}
        for m in ms:
            k = self.mkey(m)
            if k in d:
                n = d[k]
                d[k] = Mono(n.coef + m.coef, n.binders, n.guards, n.factors)
                d[k]._k = k
            else:
                d[k] = m
        return [m for m in d.values() if m.coef != 0]

    # ---------------------------------------------------------------- booleans
    def cbool(self, t):
        r = self.cm.get(t)
        if r is None:
            r = or_(*[and_(*g) for g in self.dnf(t)])
            self.cm[t] = r
        return r

    def dnf(self, t):
        """Disjoint conjunctions (tuples of canonical literals) equivalent to t."""
        r = self.bm.get(t)
        if r is None:
            r = self._dnf(t)
            out = []
            for g in r:
                if any(x is FALSE for x in g):
                    continue
                g = tuple(dict.fromkeys(x for x in g if x is not TRUE))
                if any(not_(x) in g for x in g):
                    continue
                out.append(g)
            if len(out) > 200:
                raise TooHard('dnf size')
            r = out
            self.bm[t] = r
        return r

    def conj(self, xs, ys):
        return [a + b for a in xs for b in ys]

    def _dnf(self, t):
        o, a = t.op, t.args
        if o == 'const':
            return [()] if a[0] else []
        if o == 'and':
            acc = [()]
            for x in a:
                acc = self.conj(acc, self.dnf(x))
                if len(acc) > 400:
                    raise TooHard('dnf')
            return acc
        if o == 'or':
            acc, neg = [], [()]
            for x in a:
                acc += self.conj(neg, self.dnf(x))
                neg = self.conj(neg, self.dnf(not_(x)))
                if len(acc) > 400 or len(neg) > 400:
                    raise TooHard('dnf')
            return acc
        if o == 'not':
            x = a[0]
            if x.op == 'and':
                return self._dnf(or_(*[not_(y) for y in x.args]))
            if x.op == 'or':
                return self._dnf(and_(*[not_(y) for y in x.args]))
            if x.op == 'ite':
                return self._dnf(ite(x.args[0], not_(x.args[1]), not_(x.args[2])))
            ls = self.literal(x)
            if len(ls) == 1 and len(ls[0]) == 1:
                l = ls[0][0]
                return [(self.neg(l),)]
            if len(ls) == 0:
                return [()]
            if ls == [()]:
                return []
            return self._dnf(and_(*[or_(*[self.neg(l) for l in g]) for g in ls])) if not (len(ls) == 1 and len(ls[0]) == 1) else []
        if o == 'ite':
            return self.conj(self.dnf(a[0]), self.dnf(a[1])) + self.conj(self.dnf(not_(a[0])), self.dnf(a[2]))
        return self.literal(t)

    def neg(self, l):
        if l.op == 'le' and l.args[1].op == 'const' and l.args[0].sort == 'I':
            # not (d <= 0)  <=>  1 - d <= 0
            d = add(ONE, mul(const(-1), l.args[0]), l.args[1])
            return self.mkle(d)
        return not_(l)

    def literal(self, t):
        o, a = t.op, t.args
        if o == 'eq':
            x, y = a
            if x.sort == 'B' or y.sort == 'B':
                return self.dnf(or_(and_(x, y), and_(not_(x), not_(y))))
            if x.sort == 'U' or y.sort == 'U':
                for p, q in ((x, y), (y, x)):
                    if p.op == 'ite':
                        return self.dnf(or_(and_(p.args[0], eq(p.args[1], q)), and_(not_(p.args[0]), eq(p.args[2], q))))
                cx, cy = self.canon(x), self.canon(y)
                if cx.op == 'ite' or cy.op == 'ite':
                    return self.dnf(eq(cx, cy))
                e = eq(cx, cy)
                return [(e,)] if e.op != 'const' else ([()] if e is TRUE else [])
            d = self.poly(add(x, mul(const(-1), y)))
            sp = self.split_guard(d)
            if sp is not None and 'R' in (x.sort, y.sort) and any(m.binders for m in d):
                sp = None
            if sp is not None:
                return self.dnf(or_(and_(sp, eq(self.assume_poly(d, sp, True), ZERO)), and_(not_(sp), eq(self.assume_poly(d, sp, False), ZERO))))
            ex = self.count_literal(d, True)
            if ex is not None:
                return self.dnf(ex)
            if len(d) == 1 and not d[0].binders and not d[0].guards and len(d[0].factors) > 1:
                return self.dnf(or_(*[eq(f, ZERO) for f in d[0].factors]))
            e = self.mkeq(d, 'R' if 'R' in (x.sort, y.sort) else 'I')
            return [(e,)] if e.op != 'const' else ([()] if e is TRUE else [])
        if o == 'le':
            x, y = a
            d = self.poly(add(x, mul(const(-1), y)))
            sp = self.split_guard(d)
            if sp is not None:
                return self.dnf(or_(and_(sp, le(self.assume_poly(d, sp, True), ZERO)), and_(not_(sp), le(self.assume_poly(d, sp, False), ZERO))))
            ex = self.count_literal(d, False)
            if ex is not None:
                return self.dnf(ex)
            e = self.mkle_poly(d, 'R' if 'R' in (x.sort, y.sort) else 'I')
            return [(e,)] if e.op != 'const' else ([()] if e is TRUE else [])
        if o == 'exists':
            return self.exists_dnf(t)
        if o == 'app':
            d = self.th.defs.get(a[0])
            args = tuple(self.canon(x) for x in a[1:])
            u = ir.mk_app(a[0], args, 'B')
            if d is not None:
                v = d(*args)
                if v is not None:
                    return self.dnf(v)
            if u.op != 'app' or u.args[0] != a[0]:
                return self.dnf(u)
            return [(u,)]
        if o == 'var':
            return [(t,)]
        if o == 'not':
            return self._dnf(t)
        raise TooHard('literal %s' % o)

    def count_literal(self, d, iseq):
        """A count compared with zero is an existential: 1 - #{phi} <= 0, #{phi} <= 0, #{phi} = 0."""
        cs = [m for m in d if m.binders]
        if len(cs) != 1 or len(d) > 2:
            return None
        m = cs[0]
        rest = [x for x in d if x is not m]
        if m.factors or not m.guards or any(x.factors or x.guards for x in rest):
            return None
        c = rest[0].coef if rest else 0
        e = exists(m.binders, and_(*m.guards))
        if c == 0 and (iseq or m.coef > 0):
            return not_(e)
        if not iseq and m.coef < 0 and c > 0 and c <= -m.coef:
            return e
        return None

    def split_guard(self, d):
        for m in d:
            if m.guards and not m.binders:
                return m.guards[0]
        return None

    def assume_poly(self, d, g, val):
        out = []
        for m in d:
            if not m.binders and g in m.guards:
                if val:
                    out.append(Mono(m.coef, m.binders, [x for x in m.guards if x is not g], m.factors))
            elif not m.binders and self.neg(g) in m.guards:
                if not val:
                    out.append(Mono(m.coef, m.binders, [x for x in m.guards if x is not self.neg(g)], m.factors))
            else:
                out.append(m)
        return self.toterm(out, 'I' if all(m.coef.denominator == 1 and all(f.sort != 'R' for f in m.factors) for m in out) else 'R')

    def mkeq(self, d, sort):
        if not d:
            return TRUE
        if len(d) == 1 and not d[0].factors and not d[0].binders and not d[0].guards:
            return FALSE
        d = sorted(d, key=self.mkey)
        lead = [m for m in d if m.factors or m.binders or m.guards][0]
        sc = self.scale(d, lead, sort)
        if sc is None:
            return FALSE
        return eq(self.toterm([Mono(m.coef * sc, m.binders, m.guards, m.factors) for m in d], sort), const(0, sort))

    def scale(self, d, lead, sort):
        if sort == 'R':
            return 1 / lead.coef
        l = 1
        for m in d:
            l = l * m.coef.denominator // gcd(l, m.coef.denominator)
        g = 0
        for m in d:
            if m.factors or m.binders or m.guards:
                g = gcd(g, int(m.coef * l))
        c = sum((m.coef for m in d if not (m.factors or m.binders or m.guards)), Fraction(0))
        if (c * l) % g != 0:
            return None
        s = Fraction(l, g)
        return s if lead.coef > 0 else -s

    def mkle_poly(self, d, sort):
        if not d:
            return TRUE
        if len(d) == 1 and not d[0].factors and not d[0].binders and not d[0].guards:
            return const(d[0].coef <= 0)
        if sort == 'R':
            lead = sorted([m for m in d if m.factors or m.binders or m.guards], key=self.mkey)[0]
            s = 1 / abs(lead.coef)
            return le(self.toterm([Mono(m.coef * s, m.binders, m.guards, m.factors) for m in d], sort), const(0, sort))
        l = 1
        for m in d:
            l = l * m.coef.denominator // gcd(l, m.coef.denominator)
        g = 0
        c = Fraction(0)
        for m in d:
            if m.factors or m.binders or m.guards:
                g = gcd(g, int(m.coef * l))
            else:
                c += m.coef * l
        from math import ceil
        nc = Fraction(ceil(c / g))
        out = [Mono(m.coef * l / g, m.binders, m.guards, m.factors) for m in d if m.factors or m.binders or m.guards]
        if nc != 0:
            out.append(Mono(nc))
        return le(self.toterm(out, sort), const(0, sort))

    def mkle(self, d):
        return self.mkle_poly(self.poly(d), 'I')

    def exists_dnf(self, t):
        binders, body = t.args
        ren, nb = {}, []
        for v, h in binders:
            nv = fresh('e')
            nb.append((nv, self.canon(subst(h, ren))))
            ren[v] = nv
        body = subst(body, ren)
        conjs = []
        for g in self.dnf(body):
            conjs += self.simp_exists(nb, list(g))
        # or of possibly overlapping conjunctions -> make disjoint
        if len(conjs) <= 1:
            return conjs
        uniq = []
        for c in conjs:
            if c not in uniq:
                uniq.append(c)
        acc, neg = [], [()]
        for c in uniq:
            acc += self.conj(neg, [c])
            nc, pre = [], ()
            for l in c:
                nc.append(pre + (self.neg(l),))
                pre = pre + (l,)
            neg = self.conj(neg, nc)
            if len(acc) > 200:
                raise TooHard('exists dnf')
        return acc

    def simp_exists(self, binders, guards):
        """List of conjunctions (tuples of literals) whose disjunction is equivalent."""
        r = self.elim(binders, guards)
        if r is None:
            return []
        if r is not False:
            sub, nb, ng = r
            out = []
            for g in self.dnf(and_(*[subst(x, sub) for x in ng])):
                out += self.simp_exists(list(nb), list(g))
            return out
        guards = [g for g in dict.fromkeys(guards) if g is not TRUE]
        if any(g is FALSE or not_(g) in guards for g in guards):
            return []
        ctx = self.binder_facts(binders)
        if self.use_smt and guards:
            if self.quick_false(guards, ctx):
                return []
            kept = list(guards)
            for g in list(guards):
                rest = [x for x in kept if x is not g]
                if g.op in ('le', 'eq', 'not', 'app') and self.entails(g, rest + ctx):
                    kept = rest
            guards = kept
        bset = {v for v, _ in binders}
        outer = [g for g in guards if not (fv(g) & bset)]
        inner = [g for g in guards if fv(g) & bset]
        used = set()
        for g in inner:
            used |= fv(g)
        bs = list(binders)
        i = len(bs) - 1
        while i >= 0:
            v, h = bs[i]
            if v not in used and not any(v in fv(h2) for _, h2 in bs[i + 1:]):
                ls = self.dnf(le(ONE, h))
                if not ls:
                    return []
                if ls == [()]:
                    bs.pop(i)
                elif fv(h) & bset:
                    # range of an inner binder: keep as inner guard
                    if len(ls) == 1:
                        inner = inner + list(ls[0])
                        for x in ls[0]:
                            used |= fv(x)
                        bs.pop(i)
                elif len(ls) == 1:
                    outer = outer + list(ls[0])
                    bs.pop(i)
            i -= 1
        outer = [g for g in outer if g is not TRUE]
        if not bs:
            return [tuple(outer + inner)]
        m = self.canon_mono(Mono(Fraction(1), bs, inner, ()))
        return [tuple(outer) + (exists(m.binders, and_(*m.guards) if m.guards else TRUE),)]

    # ---------------------------------------------------------------- entailment
    def entails(self, goal, hyps, rlimit=300000):
        if goal is TRUE:
            return True
        if goal in hyps:
            return True
        key = (goal, frozenset(hyps))
        r = self.imp.get(key)
        if r is None:
            r = smt.check(self.known() + list(hyps) + [not_(goal)], self.th.axioms, rlimit) == 'unsat'
            self.imp[key] = r
        return r

    # ---------------------------------------------------------------- top level proofs
    def prove_eq(self, a, b, depth=0):
        """(ok, how, residue)"""
        d = self.poly(add(a, mul(const(-1), b)))
        if not d:
            return True, 'normaliser', None
        groups = {}
        for m in d:
            c = self.canon_mono(m)
            k = tuple(akey(h) for _, h in c.binders)
            groups.setdefault(k, []).append(c)
        residue = []
        for k, ms in groups.items():
            bs = ms[0].binders
            body = []
            for m in ms:
                ren = {v: w for (v, _), (w, _) in zip(m.binders, bs)}
                t = mul(const(m.coef, 'R'), *[subst(f, ren) for f in m.factors]) if m.factors else const(m.coef, 'R')
                if m.guards:
                    t = ite(and_(*[subst(g, ren) for g in m.guards]), t, RZERO)
                body.append(t)
            s = add(*body)
            if smt.check(self.known() + self.binder_facts(bs) + [not_(eq(s, RZERO))], self.th.axioms) == 'unsat':
                continue
            residue.append((bs, s))
        if not residue:
            return True, 'normaliser+z3', None
        # whole residue at once (sums as uninterpreted functions)
        tot = add(*[sum_(bs, s) for bs, s in residue])
        r = smt.check(self.known() + [not_(eq(tot, RZERO))], self.th.axioms)
        if r == 'unsat':
            return True, 'z3', None
        if depth < 3:
            lits = []
            for m in d:
                bv = {v for v, _ in m.binders}
                lits += [g for g in m.guards if g.op in ('app', 'exists') and not (fv(g) & bv) and g not in lits]
            if lits:
                p = lits[0]
                known = []
                for ax in self.th.axioms.get(p.args[0], ()) if p.op == 'app' else ():
                    for f in ax(*p.args[1:]) or ():
                        try:
                            known.append(self.cbool(f))
                        except TooHard:
                            pass
                for hyp, dd in ((p, [self.without(m, p) for m in d]), (not_(p), [m for m in d if p not in m.guards])):
                    n = Norm(self.th, self.facts + known + [hyp])
                    t = n.toterm([m for m in dd if not_(hyp) not in m.guards], 'R')
                    ok, how, res = n.prove_eq(t, RZERO, depth + 1)
                    if not ok:
                        ok = smt.check(n.facts + [not_(eq(n.canon(t), RZERO))], self.th.axioms) == 'unsat'
                    if not ok:
                        return False, r, tot
                return True, 'normaliser+z3', None
        return False, r, tot

    def without(self, m, g):
        return Mono(m.coef, m.binders, [x for x in m.guards if x is not g], m.factors)

    def prove(self, goal, witness=False):
        """Prove a boolean under the facts. (ok, how, residue)"""
        if goal is TRUE:
            return True, 'trivial', None
        if goal.op == 'and':
            hows = []
            for g in goal.args:
                ok, how, res = self.prove(g)
                if not ok:
                    return ok, how, res
                hows.append(how)
            return True, '+'.join(sorted(set(hows))), None
        if goal.op == 'eq' and goal.args[0].sort in 'IR':
            try:
                ok, how, res = self.prove_eq(*goal.args)
                if ok:
                    return ok, how, res
            except TooHard as e:
                if DEBUG:
                    import traceback
                    traceback.print_exc()
        if goal.op == 'not' and goal.args[0].op == 'exists':
            # universally quantified goal: prove it for fresh values
            binders, body = goal.args[0].args
            ren, extra = {}, []
            for v, h in binders:
                nv = fresh('v')
                extra += [le(ZERO, nv), lt(nv, subst(h, ren))]
                ren[v] = nv
            n = Norm(self.th, self.facts + extra)
            ok, how, res = n.prove(not_(subst(body, ren)))
            if ok:
                return ok, how, res
        if goal.op == 'exists' and len(goal.args[0]) == 1 and not witness:
            # candidate witnesses: the unknowns in sight
            (v, h), = goal.args[0]
            cands = list(fv(goal))
            for f in self.facts:
                cands += [x for x in fv(f) if x not in cands]
            for f in [goal] + self.facts:
                for x in subterms(f):
                    if x.op == 'app' and len(x.args) == 1 and x not in cands:
                        cands.append(x)
            cands = [x for x in cands if x.sort == v.sort][:24]
            for x in cands:
                n = Norm(self.th, self.facts)
                if n.prove(and_(le(ZERO, x), lt(x, h), subst(goal.args[1], {v: x})), True)[0]:
                    return True, 'witness', None
        if goal.op == 'or':
            # assume the negation of all but the last disjunct
            hyps = [not_(x) for x in goal.args[:-1]]
            n = Norm(self.th, self.facts + hyps)
            if goal.args[-1].op in ('eq', 'and', 'not', 'or'):
                ok, how, res = n.prove(goal.args[-1])
                if ok:
                    return ok, how, res
        r = smt.check(self.facts + [not_(goal)], self.th.axioms)
        if r == 'unsat':
            return True, 'z3', None
        try:
            g = self.cbool(goal)
            fs = []
            for f in self.facts:
                fs.append(f)
                try:
                    fs.append(self.cbool(f))
                except TooHard:
                    pass
            r2 = smt.check(fs + [not_(g)], self.th.axioms)
            if r2 == 'unsat':
                return True, 'normaliser+z3', None
            more = []
            for f in smt.Z3Ctx(self.th.axioms).instantiate(fs + [g]):
                try:
                    more.append(self.cbool(f))
                except TooHard:
                    pass
            if more and smt.check(fs + more + [not_(g)], self.th.axioms) == 'unsat':
                return True, 'normaliser+z3', None
            return False, r2, g
        except TooHard as e:
            return False, r, goal
