"""Loops over symbolic sequences: one generic iteration, effects generalised over all iterations."""
import ast
from fractions import Fraction
from .ir import *
from . import ir, norm
from .vals import *
from .core import PyRaise, ReturnX, BreakX, ContinueX, MISSING, Unsupported, PathEnd


def run_for(ex, nodes, body, stmt=None, frame=None, comp=False):
    """True when the loop was left by break."""
    try:
        run_nodes(ex, nodes, body, stmt, frame)
        return False
    except BreakX:
        return True


def run_nodes(ex, nodes, body, stmt=None, frame=None):
    if len(nodes) > 3 and all(isinstance(n, Item) for n in nodes):
        for sp in ex.loop_specs:
            if hasattr(sp, 'each') and sp.each(ex, nodes, body, frame):
                return
    for n in nohole(nodes):
        if isinstance(n, Item):
            try:
                body(n.val)
            except ContinueX:
                pass
        elif isinstance(n, If):
            if ex.truth(n.cond):
                run_nodes(ex, n.body, body, stmt, frame)
        else:
            hi = n.hi
            if hi.op == 'const' and hi.args[0] <= 6:
                for k in range(int(hi.args[0])):
                    run_nodes(ex, nsubst(n.body, {n.var: const(k)}), body, stmt, frame)
            else:
                sym_loop(ex, n, body, stmt, frame)


NUM = (int, float, Fraction)


def is_num(v):
    return (isinstance(v, NUM) and not isinstance(v, bool)) or (isinstance(v, Term) and v.sort in 'IR')


class Loc:
    def __init__(self, o, k, kind, old):
        self.o, self.k, self.kind, self.old = o, k, kind, old
        self.id = (id(o), k, kind)
        self.mode = None
        self.sym = None

    def get(self):
        return getattr(self.o, self.k) if self.kind == 'a' else self.o.get(self.k, MISSING)

    def put(self, ex, v):
        if self.kind == 'a':
            ex.setattr(self.o, self.k, v)
        else:
            ex.setitem(self.o, self.k, v)

    def __repr__(self):
        return '%s.%s' % (type(self.o).__name__, self.k)


def classify(ex, loc, hi):
    if loc.k in ('nodes', 'build') and loc.kind == 'a' and isinstance(loc.o, (ListV, SetV, DictV)):
        if isinstance(loc.o, ListV) and isinstance(loc.old, tuple) and isinstance(loc.first, tuple) and simple(loc.old) and simple(loc.first) \
                and loc.first[0] is not loc.old[0] and ex.entailed(eq(simple(loc.old)[1], hi)):
            return 'upd'
        return 'list'
    if is_num(loc.old):
        return 'num'
    return 'other'


def sym_loop(ex, loop, body, stmt, frame):
    v = fresh('i')
    hi = loop.hi
    if ex.entailed(le(hi, ZERO)):
        return
    sub = nsubst(loop.body, {loop.var: v})
    born = birth()

    def thunk():
        ex.assume(le(ZERO, v))
        ex.assume(lt(v, hi))
        ex.loop_vars.append(v)
        try:
            run_nodes(ex, sub, body, stmt, frame)
        finally:
            ex.loop_vars.pop()

    def collect(paths, known):
        for conds, res, ws, facts in paths:
            for key, (o, k, kind, old, new) in ws.items():
                if getattr(o, 'birth', 10 ** 12) >= born:
                    continue
                if (id(o), k, kind) not in known:
                    known[(id(o), k, kind)] = Loc(o, k, kind, old)
                    known[(id(o), k, kind)].first = new
        return known

    specs = []
    pre_specs = [sp for sp in ex.loop_specs if sp.early(ex, loop, frame)]
    locs = {}
    nob = len(ex.obls)
    if not pre_specs:
        paths = ex.local_paths(thunk)
        collect(paths, locs)
        if not locs and all(p[1][0] == 'ok' for p in paths):
            return
    for rnd in range(4):
        del ex.obls[nob:]
        handled = {}
        specs = [sp for sp in ex.loop_specs if sp.match(ex, loop, locs, frame)]
        for sp in specs:
            for l in sp.locs(locs):
                handled[l.id] = sp
        mark = len(ex.log)
        nf = len(ex.facts)
        for sp in specs:
            sp.init(ex, v, hi)
        for lid, l in locs.items():
            if lid in handled:
                continue
            l.mode = classify(ex, l, hi)
            if l.mode == 'list':
                l.put(ex, (Hole(l),))
            elif l.mode == 'upd':
                sv = simple(l.old)
                l.put(ex, (Upd(l, v, sv[1], vsubst(sv[2], {sv[0]: v})),))
            elif l.mode == 'num':
                l.sym = fresh('acc', 'R' if (isinstance(l.old, Term) and l.old.sort == 'R') or isinstance(l.old, (float, Fraction)) else 'I')
                l.put(ex, l.sym)
            else:
                l.put(ex, Poison('value of an earlier iteration'))

        def thunk2():
            ex.assume(le(ZERO, v))
            ex.assume(lt(v, hi))
            for sp in specs:
                sp.enter(ex, v)
            ex.loop_vars.append(v)
            try:
                run_nodes(ex, sub, body, stmt, frame)
            finally:
                ex.loop_vars.pop()
            for sp in specs:
                sp.leave(ex, v)
        paths = ex.local_paths(thunk2)
        n0 = len(locs)
        collect(paths, locs)
        ex.rollback(mark)
        del ex.facts[nf:]
        ex.memo.clear()
        if len(locs) == n0:
            break
    else:
        raise Unsupported('loop frame does not stabilise')

    paths, deltas = resolve(ex, paths, locs, handled, v)
    okp = [p for p in paths if p[1][0] == 'ok']
    exits = [p for p in paths if p[1][0] != 'ok']
    pcond = lambda p: and_(*p[0])

    def merged(lim):
        """New values of all locations after iterations 0..lim-1 without exit."""
        out = {}
        for lid, l in locs.items():
            if lid in handled:
                continue
            news = []
            for p in okp:
                w = p[2].get(lid)
                news.append((pcond(p), w[4] if w is not None else MISSING))
            if lid in deltas:
                u = fresh('i')
                out[lid] = add(lift(l.old), sum_(((u, lim),), subst(deltas[lid], {v: u})))
                continue
            out[lid] = merge(ex, l, news, v, lim)
        return out

    def commit(vals):
        for lid, val in vals.items():
            if val is not KEEP:
                locs[lid].put(ex, val)

    if exits:
        E = or_(*[pcond(p) for p in exits])
        ext = exists(((v, hi),), E)
        if ex.decide(ext):
            w = ex.fresh('first', 'I')
            ex.assume(and_(le(ZERO, w), lt(w, hi)))
            ex.assume(subst(E, {v: w}))
            u = fresh('u')
            ex.assume(forall(((u, w),), not_(subst(E, {v: u}))))
            chosen = None
            for p in exits[:-1]:
                if ex.decide(subst(pcond(p), {v: w})):
                    chosen = p
                    break
            if chosen is None:
                chosen = exits[-1]
                ex.assume(subst(pcond(chosen), {v: w}))
            for f in chosen[3]:
                ex.assume(subst(f, {v: w}))
            vals = merged(w)
            commit(vals)
            for sp in specs:
                sp.finish(ex, w)
            # effects of the exiting iteration
            for lid, l in locs.items():
                if lid in handled:
                    continue
                x = chosen[2].get(lid)
                if x is None:
                    continue
                new = x[4]
                cur = l.get()
                if l.mode == 'upd':
                    l.put(ex, (Hole(None),))
                    continue
                if l.mode == 'list':
                    suf = suffix(l, new)
                    l.put(ex, tuple(cur) + nsubst(suf, {v: w}))
                elif l.mode == 'num':
                    l.put(ex, vsubst(new, {v: w, l.sym: lift(cur)}) if is_num(cur) and is_num(new) else Poison('left by an early exit'))
                elif new is MISSING:
                    l.put(ex, MISSING)
                else:
                    l.put(ex, vsubst(new, {v: w}))
            for sp in specs:
                sp.exit(ex, w, chosen)
            kind, val = chosen[1]
            if kind == 'raise':
                raise val
            if kind == 'return':
                raise ReturnX(vsubst(val, {v: w}))
            raise BreakX()
        ex.assume(forall(((v, hi),), not_(E)))
    vals = merged(hi)
    commit(vals)
    for sp in specs:
        sp.finish(ex, hi)


def any_subst(x, m):
    if isinstance(x, tuple) and x and isinstance(x[0], Node):
        return nsubst(x, m)
    return vsubst(x, m)


def any_fv(x):
    if x is None or x is MISSING or isinstance(x, Poison):
        return frozenset()
    if isinstance(x, tuple) and x and isinstance(x[0], Node):
        return nodes_fv(x)
    return vfv(x)


def resolve(ex, paths, locs, handled, v):
    """Numbers accumulated by the loop: their value at iteration v is the start value plus the sum of the earlier increments.
    Substitutes these values in everything else the iteration computes."""
    nums = {l.sym: l for lid, l in locs.items() if l.mode == 'num' and lid not in handled and l.sym is not None}
    if not nums:
        return paths, {}
    raw, okp = {}, [p for p in paths if p[1][0] == 'ok']
    nm = ex.norm()
    for sym, l in nums.items():
        ds, ok = [], True
        for p in okp:
            w = p[2].get(l.id)
            if w is None:
                ds.append((p, ZERO))
                continue
            if not is_num(w[4]):
                ok = False
                break
            try:
                d = nm.canon(add(lift(w[4]), mul(const(-1), sym)))
            except norm.TooHard:
                ok = False
                break
            if sym in fv(d):
                ok = False
                break
            ds.append((p, d))
        if ok and ds:
            if len({d for _, d in ds}) == 1:
                raw[sym] = ds[0][1]
            else:
                raw[sym] = add(*[iverson(and_(*p[0]), d) for p, d in ds if d is not ZERO])
    subs, deltas = {}, {}
    while True:
        todo = [s for s in raw if s not in subs and not ((fv(raw[s]) & set(nums)) - set(subs))]
        if not todo:
            break
        for s in todo:
            d = subst(raw[s], subs)
            u = fresh('i')
            subs[s] = add(lift(nums[s].old), sum_(((u, v),), subst(d, {v: u})))
            deltas[nums[s].id] = d
    left = set(nums) - set(subs)
    out = []
    for conds, res, ws, facts in paths:
        if any(fv(c) & left for c in conds):
            raise Unsupported('the iteration depends on a number changed by earlier iterations')
        nws = {}
        for k, (o, kk, kind, old, new) in ws.items():
            l = locs.get(k)
            if l is not None and l.sym is not None and l.sym in nums and l.mode == 'num':
                if l.sym in left and is_num(new) and fv(lift(new)) & left - {l.sym}:
                    new = Poison('accumulated in a loop')
                elif l.id in deltas:
                    new = subst(lift(new), {s: t for s, t in subs.items() if s is not l.sym}) if is_num(new) else new
            elif any_fv(new) & set(nums):
                new = Poison('depends on a number accumulated in the loop') if any_fv(new) & left else any_subst(new, subs)
            nws[k] = (o, kk, kind, old, new)
        kind, val = res[0], res[1] if len(res) > 1 else None
        if kind == 'return' and any_fv(val) & set(nums):
            if any_fv(val) & left:
                raise Unsupported('result of a loop')
            res = (kind, any_subst(val, subs)) + tuple(res[2:])
        out.append(([subst(c, subs) for c in conds], res, nws, [subst(f, subs) for f in facts if not fv(f) & left]))
    return out, deltas


KEEP = object()


def suffix(l, new):
    if not new or not isinstance(new[0], Hole) or new[0].tag is not l:
        raise Unsupported('a list is rewritten inside a loop')
    return nohole(new[1:])


def merge(ex, l, news, v, lim):
    if l.mode == 'list':
        sufs = []
        for c, new in news:
            sufs.append((c, () if new is MISSING else suffix(l, new)))
        sufs_ne = [(c, s) for c, s in sufs if s]
        if not sufs_ne:
            return KEEP
        base = l.old or ()
        if len(sufs_ne) == len(sufs) and all(len(s) == 1 and isinstance(s[0], Item) for _, s in sufs):
            try:
                val = sufs[-1][1][0].val
                for c, s in reversed(sufs[:-1]):
                    val = vite(c, s[0].val, val)
                return tuple(base) + nsubst((Loop(v, lim, (Item(val),)),), {fresh('z'): ZERO})
            except Unsupported:
                pass
        body = []
        for c, s in sufs_ne:
            if c is TRUE:
                body += list(s)
            else:
                body.append(If(c, s))
        return tuple(base) + nsubst((Loop(v, lim, tuple(body)),), {fresh('z'): ZERO})
    changed = [(c, n) for c, n in news if n is not MISSING]
    if not changed:
        return KEEP
    if l.mode == 'upd':
        var_, hi, val = simple(l.old)
        old = vsubst(val, {var_: v})
        cur = None
        for c, n in reversed(news):
            if n is not MISSING and not (len(n) == 1 and isinstance(n[0], Upd) and n[0].tag is l):
                raise Unsupported('a list is rewritten inside a loop')
            x = old if n is MISSING else n[0].cur
            cur = x if cur is None else vite(c, x, cur)
        done = nsubst((Loop(v, lim, (Item(cur),)),), {fresh('z'): ZERO})
        if ex.entailed(eq(lim, hi)):
            return done
        z = fresh('z')
        return done + (Loop(z, add(hi, mul(const(-1), lim)), (Item(vsubst(val, {var_: add(z, lim)})),)),)
    if l.mode == 'num':
        tot = []
        ok = all(is_num(n) for _, n in changed)
        if ok:
            nm = ex.norm()
            for c, n in changed:
                try:
                    d = nm.canon(add(lift(n), mul(const(-1), l.sym)))
                except norm.TooHard:
                    ok = False
                    break
                if l.sym in fv(d):
                    ok = False
                    break
                tot.append(sum_(((v, lim),), iverson(c, d)))
        if ok:
            return add(lift(l.old), *tot)
        if all(is_num(n) and l.sym not in fv(lift(n)) and v not in fv(lift(n)) for _, n in changed):
            vs = {lift(n) for _, n in changed}
            if len(vs) == 1:
                k = vs.pop()
                any_ = exists(((v, lim),), or_(*[c for c, _ in changed]))
                return vite(any_, k, lift(l.old))
        return Poison('accumulated in a loop')
    # constant assignments: flags, cleared caches
    first = changed[0][1]
    if isinstance(l.o, Env) or l.kind == 'i':
        same = all(n is first or same_const(n, first) for _, n in changed)
        if same and not (vfv(first) & {v}) and not has_poison(first):
            any_ = exists(((v, lim),), or_(*[c for c, _ in changed]))
            if l.old is not MISSING:
                try:
                    return vite(any_, first, l.old)
                except Unsupported:
                    pass
                return first if ex.decide(any_) else KEEP
            return Poison('assigned in a loop') if not ex.entailed(any_) else first
    return Poison('assigned in a loop')


def same_const(a, b):
    if isinstance(a, DictV) and isinstance(b, DictV):
        return a.d is not None and b.d is not None and not a.d and not b.d and a.default is b.default
    if isinstance(a, (bool, str, int, float)) and type(a) == type(b):
        return a == b
    return a is None and b is None


def has_poison(v):
    return isinstance(v, Poison)


class LoopSpec:
    """Contract of a loop: a ghost state per iteration for some of the modified locations."""

    def early(self, ex, loop, frame):
        return False

    def match(self, ex, loop, locs, frame):
        return False

    def locs(self, locs):
        return []

    def init(self, ex, v, hi):
        pass

    def enter(self, ex, v):
        pass

    def leave(self, ex, v):
        pass

    def finish(self, ex, n):
        pass

    def exit(self, ex, w, path):
        pass


def assigned_names(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


class WhileSpec(LoopSpec):
    """Contract of a while loop that only changes local variables: inv(ex, locals) is a condition that holds before every
    test of the loop condition.  value(ex, name, old): a fresh value of the variable's kind.  Nothing is said about termination."""

    def __init__(self, inv, name='while loop', sorts=None):
        self.inv, self.name, self.sorts = inv, name, sorts or {}

    def while_(self, ex, frame, s):
        names = assigned_names(s.body)
        vars_ = {k: frame.env[k] for k in sorted(names) if k in frame.env}
        if not all(isinstance(v, (bool, int, float, Fraction, Term)) for v in vars_.values()):
            return False
        ex.check('%s: invariant holds on entry' % self.name, self.inv(ex, vars_))
        new = {}
        for k, v in vars_.items():
            v = lift(v)
            new[k] = ex.fresh('w', v.sort)
            ex.setitem(frame.env, k, new[k])
        for k in names - set(vars_):
            ex.setitem(frame.env, k, Poison('set in a while loop'))
        ex.assume(self.inv(ex, new))
        c = frame.ev(s.test)
        if not ex.truth(c):
            frame.block(s.orelse)
            return True
        mark, born = len(ex.log), birth()
        try:
            frame.block(s.body)
        except BreakX:
            self.only_locals(ex, frame, mark, born, names)
            return True
        except ContinueX:
            pass
        except ReturnX:
            self.only_locals(ex, frame, mark, born, names)
            raise
        self.only_locals(ex, frame, mark, born, names)
        ex.check('%s: invariant is kept' % self.name, self.inv(ex, {k: frame.env[k] for k in new}))
        raise PathEnd()

    def only_locals(self, ex, frame, mark, born, names):
        for _, o, k, _ in ex.log[mark:]:
            if o is frame.env and k in names or getattr(o, 'birth', 0) > born:
                continue
            raise Unsupported('a while loop changes more than local variables')


def once(ex, code, m):
    """Enumerations list every member once: positions with equal keys are equal (instances for the binders in m)."""
    out = []
    for inv in ex.th.inverses:
        if inv.npre:
            continue
        for t in {x for c in code for x in ir.subterms(c) if x.op == 'app' and x.args[0] == inv.keys[0]}:
            p = t.args[1]
            p2 = subst(p, m)
            if p is p2:
                continue
            key = lambda q: [app(k, q, sort=sorts) for k, sorts in keysorts(code, inv)]
            out.append(implies(and_(*[eq(x, y) for x, y in zip(key(p), key(p2))]), eq(p, p2)))
    return out


def keysorts(code, inv):
    found = {x.args[0]: x.sort for c in code for x in ir.subterms(c) if x.op == 'app' and x.args[0] in inv.keys}
    return [(k, found[k]) for k in inv.keys if k in found] if all(k in found for k in inv.keys) else [('<none>', 'B')]


GROW = {'append', 'add'}


class GrowSpec(WhileSpec):
    """Contract of a while loop that changes local numbers and adds elements to local lists or sets.  inv(ex, vals, entry, sizes):
    condition on the numbers (entry: their values before the loop; sizes: number of elements of every container);
    elem(ex, vals, entry, codes): condition on every element; elements are pairwise different."""

    def __init__(self, inv, elem, codec=None, name='while loop', fits=None, also=None, known=None):
        WhileSpec.__init__(self, inv, name)
        self.elem, self.codec, self.fits, self.also, self.known = elem, codec or INT_PAIR, fits, also, known

    def grown(self, frame, s):
        out = {}
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and isinstance(n.func.value, ast.Name):
                k = n.func.value.id
                if isinstance(frame.env.get(k), (ListV, SetV)):
                    out[k] = frame.env[k]
        return out

    def good(self, ex, label, c, vals, entry, distinct=True):
        from . import lib
        ls = list(leaves(nohole(c.nodes)))
        done = []
        for k, (bs, cs, v) in enumerate(ls):
            rng = [x for b, h in bs for x in (le(ZERO, b), lt(b, h))]
            codes = self.codec.enc(v)
            ex.check('%s: every element is as required' % label, self.elem(ex, vals, entry, codes), hyps=rng + list(cs))
            if self.also:
                ex.check('%s: every element is as required (2)' % label, self.also(codes), hyps=rng + list(cs))
            for bs2, cs2, v2 in done:
                rng2 = [x for b, h in bs2 for x in (le(ZERO, b), lt(b, h))]
                ex.check('%s: elements are different' % label, not_(and_(*[eq(x, y) for x, y in zip(codes, self.codec.enc(v2))])), hyps=rng + list(cs) + rng2 + list(cs2))
            if bs and distinct:
                m = {b: fresh('d') for b, h in bs}
                c2 = [subst(x, m) for x in rng + list(cs)]
                same = and_(*[eq(x, subst(x, m)) for x in codes])
                ex.check('%s: elements are different' % label, implies(same, and_(*[eq(b, m[b]) for b, h in bs])), hyps=rng + list(cs) + c2 + once(ex, codes, m))
            done.append((bs, cs, v))

    def while_(self, ex, frame, s):
        from . import lib
        cont = self.grown(frame, s)
        if self.fits is not None and not self.fits(cont):
            return False
        names = assigned_names(s.body) - set(cont)
        vars_ = {k: frame.env[k] for k in sorted(names) if k in frame.env and isinstance(frame.env[k], (bool, int, float, Fraction, Term))}
        entry = {k: lift(v) for k, v in vars_.items()}
        size = lambda: {k: lift(lib.b_len(ex, [c], {})) for k, c in cont.items()}
        ex.check('%s: invariant holds on entry' % self.name, self.inv(ex, entry, entry, size()))
        for k, c in cont.items():
            self.good(ex, '%s, on entry' % self.name, c, entry, entry)
        new = {}
        for k, v in entry.items():
            new[k] = ex.fresh('w', v.sort)
            ex.setitem(frame.env, k, new[k])
        for k in names - set(vars_):
            ex.setitem(frame.env, k, Poison('set in a while loop'))
        members = {}
        for k, c in cont.items():
            if ex.loop_vars:
                raise Unsupported('a while loop with a container inside another loop')
            nm = lib.uniq('grow')
            n = ex.fresh('grown', 'I')
            ex.assume(le(ZERO, n))
            has = lambda *ks, nm=nm: app(nm + '_in', *ks, sort='B')
            ex.th.axiom(nm + '_in', lambda *ks, nm=nm: [implies(app(nm + '_in', *ks, sort='B'), self.elem(ex, new, entry, ks))])
            if self.known:
                self.known(ex, has)
            nodes = nmap(enumerate_map(ex.th, self.codec, has, lambda *a: None, n, name=nm), lambda kv: kv[0])
            ex.setattr(c, 'nodes', nodes)
            members[k] = (has, nodes)
            if isinstance(c, SetV):
                c.uniq, c.grow = True, True
        ex.assume(self.inv(ex, new, entry, size()))
        c = frame.ev(s.test)
        if not ex.truth(c):
            frame.block(s.orelse)
            return True
        mark, born = len(ex.log), birth()
        own = names | set(cont)
        try:
            frame.block(s.body)
        except BreakX:
            self.only(ex, frame, mark, born, own, cont)
            return True
        except ContinueX:
            pass
        except ReturnX:
            self.only(ex, frame, mark, born, own, cont)
            raise
        self.only(ex, frame, mark, born, own, cont)
        now = {k: lift(frame.env[k]) for k in new}
        ex.check('%s: invariant is kept' % self.name, self.inv(ex, now, entry, size()))
        for k, cv in cont.items():
            if frame.env[k] is not cv:
                raise Unsupported('container replaced in a while loop')
            self.good(ex, '%s, after one iteration' % self.name, cv, now, entry, distinct=False)
        raise PathEnd()

    def only(self, ex, frame, mark, born, names, cont):
        for _, o, k, _ in ex.log[mark:]:
            if o is frame.env and k in names or getattr(o, 'birth', 0) > born or any(o is c for c in cont.values()):
                continue
            raise Unsupported('a while loop changes more than local variables')


def run_while(ex, frame, s):
    for sp in ex.loop_specs:
        if hasattr(sp, 'while_') and sp.while_(ex, frame, s):
            return
    for k in range(8):
        c = frame.ev(s.test)
        if isinstance(c, Term) and c.op != 'const' and ex.entailed(c if c.sort == 'B' else ne(c, ZERO)) is None:
            raise Unsupported('while loop without an invariant')
        if not ex.truth(c):
            frame.block(s.orelse)
            return
        try:
            frame.block(s.body)
        except BreakX:
            return
        except ContinueX:
            pass
    raise Unsupported('while loop without an invariant')
