"""Models of Python built-ins and of the small external functions the code uses (assumed contracts)."""
import ast
from fractions import Fraction
from .ir import *
from . import ir, norm
from .vals import *
from .core import *
from .core import MISSING

NUMT = (int, float, Fraction)


def num(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, float):
        return const(Fraction(v), 'R')
    if isinstance(v, (int, Fraction)):
        return const(v)
    raise Unsupported('number expected, got %s' % type(v).__name__)


def isnumv(v):
    return isinstance(v, NUMT) or (isinstance(v, Term) and v.sort in 'IRB')


def plainly_pos(t):
    if t.op == 'const':
        return t.sort != 'B' and t.args[0] > 0
    return t.op == 'app' and (t.args[0] == 'exp' or t.args[0] == 'pow' and plainly_pos(t.args[1]))


def plainly_nonneg(t):
    if t.op == 'const':
        return t.sort != 'B' and t.args[0] >= 0
    if t.op == 'ite':
        return plainly_nonneg(t.args[1]) and plainly_nonneg(t.args[2])
    return t.op == 'sum' and plainly_nonneg(t.args[1])


ir.APP_REWRITES['canon'] = lambda a: a[0] if a[0].op == 'app' and a[0].args[0] == 'canon' else None


def base_axioms(th):
    th.axiom('<sum>', lambda s: [le(ZERO, s)] if plainly_nonneg(s) else [implies(lt(ZERO, s.args[0][0][1]), lt(ZERO, s))] if len(s.args[0]) == 1 and plainly_pos(s.args[1]) else [])
    th.axiom('pow', lambda b, e: [lt(RZERO, app('pow', b, e, sort='R'))] if plainly_pos(b) else [])
    th.axiom('pow', lambda b, e: [implies(lt(ZERO, e), lt(const(1, 'R'), app('pow', b, e, sort='R')))] if b.op == 'const' and b.args[0] > 1 else [])
    th.axiom('max_eps', lambda x, e: [lt(RZERO, app('max_eps', x, e, sort='R'))])
    INF = lambda d: app('INF', d, sort='R')
    th.defs['recip'] = lambda d: add(app('inv0', d, sort='R'), iverson(eq(d, ZERO), INF(d)))
    th.defs['rsqrt'] = lambda d: add(app('rsqrt0', d, sort='R'), iverson(eq(d, ZERO), INF(d)))
    th.defs['fdiv'] = lambda x, y: add(mul(x, app('inv0', y, sort='R')), iverson(eq(y, ZERO), app('UNDEF', x, y, sort='R')))
    th.axiom('inv0', lambda d: [implies(eq(d, ZERO), eq(app('inv0', d, sort='R'), RZERO)), implies(ne(d, ZERO), eq(mul(d, app('inv0', d, sort='R')), ONE)),
                                implies(lt(ZERO, d), lt(RZERO, app('inv0', d, sort='R')))])
    th.axiom('rsqrt0', lambda d: [implies(eq(d, ZERO), eq(app('rsqrt0', d, sort='R'), RZERO)), le(RZERO, app('rsqrt0', d, sort='R'))])
    th.axiom('sqrt', lambda x: [le(RZERO, app('sqrt', x, sort='R')), implies(lt(ZERO, x), lt(RZERO, app('sqrt', x, sort='R')))])
    th.axiom('exp', lambda x: [lt(RZERO, app('exp', x, sort='R')), implies(le(RZERO, x), le(const(1, 'R'), app('exp', x, sort='R')))])
    th.axiom('iround', lambda x: [le(add(x, const(Fraction(-1, 2), 'R')), app('iround', x, sort='I')), le(app('iround', x, sort='I'), add(x, const(Fraction(1, 2), 'R')))])
    th.axiom('log', lambda x: [implies(lt(const(1, 'R'), x), lt(RZERO, app('log', x, sort='R'))), implies(and_(lt(RZERO, x), lt(x, const(1, 'R'))), lt(app('log', x, sort='R'), RZERO)),
                               implies(eq(x, const(1, 'R')), eq(app('log', x, sort='R'), RZERO))])
    th.axiom('sigmoid', lambda x: [lt(RZERO, app('sigmoid', x, sort='R')), lt(app('sigmoid', x, sort='R'), const(1, 'R'))])
    th.axiom('vlen', lambda s: [le(ZERO, app('vlen', s, sort='I'))])
    register_enum(th, ['vat'], 'vpos', 'I', lambda pre, ks: app('vmem', pre[0], ks[0], sort='B'), lambda s: app('vlen', s, sort='I'), npre=1)
    th.axiom('vmem', lambda s, v: [implies(app('vmem', s, v, sort='B'), and_(le(ZERO, v), le(ONE, app('vlen', s, sort='I'))))])
    # floor of a real
    th.axiom('ifloor', lambda x: [le(app('ifloor', x, sort='I'), x), lt(x, add(app('ifloor', x, sort='I'), ONE))])
    th.axiom('iceil', lambda x: [le(x, app('iceil', x, sort='I')), lt(app('iceil', x, sort='I'), add(x, ONE))])


# ------------------------------------------------------------------------------------------- iteration
def iter_nodes(ex, v):
    if isinstance(v, GroupRef):
        return GroupList(ex, v.d, v.k).nodes
    if isinstance(v, (ListV, SymTuple)):
        return nohole(v.nodes)
    if isinstance(v, SetV):
        return set_nodes(ex, v)
    if isinstance(v, VTup):
        return v.nodes()
    if isinstance(v, tuple):
        return tuple(Item(x) for x in v)
    if isinstance(v, str):
        return tuple(Item(x) for x in v)
    if isinstance(v, RangeV):
        q = fresh('r')
        n = v.length()
        return (Loop(q, n, (Item(add(num(v.lo), mul(num(v.step), q))),)),) if not (is_const(n) and n.args[0] <= 0) else ()
    if isinstance(v, DictV):
        return dict_keys(ex, v)
    if isinstance(v, Iter):
        return v.nodes
    if isinstance(v, InnerRef):
        return nmap(inner_items(ex, v), lambda kv: kv[0])
    if isinstance(v, (Tensor, RTensor)):
        from . import tlib
        return tlib.tensor_rows(ex, v)
    if isinstance(v, ObjV) and isinstance(v.cls, Ext) and v.cls.name in ('nn.ModuleList', 'nn.Sequential'):
        return iter_nodes(ex, v.attrs['items'])
    if isinstance(v, ObjV):
        m = ex.find_member(v.cls, '__iter__')
        if m:
            return iter_nodes(ex, ex.call(ex.bind(m, v)))
    raise Unsupported('iteration over %s' % type(v).__name__)


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if isinstance(self.step, int) and self.step == 1:
            d = add(num(self.hi), mul(const(-1), num(self.lo)))
            return d if not is_const(d) else const(max(0, int(d.args[0])))
        if all(isinstance(x, int) for x in (self.lo, self.hi, self.step)):
            return const(len(range(self.lo, self.hi, self.step)))
        raise Unsupported('range step')


class Iter:
    def __init__(self, nodes):
        self.nodes = tuple(nodes)


class KeysIter(Iter):
    """Keys of the dictionary of groups, enumerated only when needed; membership is the dictionary's."""

    def __init__(self, ex, d):
        self.ex, self.d, self.st = ex, d, d.st
        self._n = None

    @property
    def nodes(self):
        if self._n is None:
            self._n = state_group_keys(self.ex, self.st)
        return self._n


class KeysList(ListV):
    def __init__(self, it):
        self.it, self._n = it, None
        self.birth = birth()
        self.frozen, self.kind = None, 'list'

    @property
    def nodes(self):
        if self._n is None:
            self._n = nrefresh(self.it.nodes)
        return self._n

    @nodes.setter
    def nodes(self, v):
        self._n = v


class GroupRef:
    """d[k] of a grouping dictionary under construction."""

    def __init__(self, d, k):
        self.d, self.k = d, k


def set_nodes(ex, s):
    """Enumeration of a set, every member once (order unspecified)."""
    nohole(s.nodes)
    if s.uniq:
        return s.nodes
    if all_items(s.nodes):
        vals = []
        for n in s.nodes:
            if not any(ex.truth(veq(n.val, x)) for x in vals):
                vals.append(n.val)
        return tuple(Item(x) for x in vals)
    ls = list(leaves(s.nodes))
    v0 = ls[0][2]
    codec = codec_for(v0)
    has = lambda *a: or_(*[exists(bs, and_(*(cs + [eq(x, y) for x, y in zip(codec.enc(v), a)]))) for bs, cs, v in leaves(s.nodes)])
    nm = uniq('set')
    n = app(nm + '_n', *ex.loop_vars, sort='I')
    pre = tuple(ex.loop_vars)
    if pre:
        if codec is not INT:
            raise Unsupported('set enumeration inside a loop')
        k = var('setk$', 'I')
        body = has(k)
        member = lambda p, ks: subst(body, dict(list(zip(pre, p)) + [(k, ks[0])]))
        register_enum(ex.th, [nm + '_k0'], nm + '_pos', 'I', member, lambda *p: app(nm + '_n', *p, sort='I'), npre=len(pre))
        ex.th.axiom(nm + '_n', lambda *p: [le(ZERO, app(nm + '_n', *p, sort='I'))])
        q = fresh('q')
        return (Loop(q, n, (Item(app(nm + '_k0', *(pre + (q,)), sort='I')),)),)
    ex.th.axiom(nm + '_n', lambda: [le(ZERO, n)])
    return nmap(enumerate_map(ex.th, codec, has, lambda *a: None, n, name=nm), lambda kv: kv[0])


def codec_for(v):
    if isinstance(v, Term) and v.sort == 'U':
        return STR
    if isinstance(v, str):
        return STR
    if isnumv(v):
        return INT
    if isinstance(v, tuple) and len(v) == 2 and all(isnumv(x) for x in v):
        return INT_PAIR
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, VTup) for x in v):
        return HCODE
    if isinstance(v, VTup):
        return VT
    raise Unsupported('set or dictionary over %s' % type(v).__name__)


VT = Codec('U', lambda v: (v.t,), lambda t: VTup(t))


def set_member(ex, s, v):
    nohole(s.nodes)
    return or_(*[exists(bs, and_(*(cs + [veq(x, v)]))) for bs, cs, x in leaves(s.nodes)])


# ------------------------------------------------------------------------------------------- dictionaries
def dict_of_nodes(ex, nodes):
    if all_items(nodes) and all(hashable_const(n.val[0]) for n in nodes):
        d = DictV({})
        for n in nodes:
            d.d[hkey(n.val[0])] = n.val[1]
        return d
    return finish_map(ex, nodes)


def hashable_const(k):
    return isinstance(k, (str, int, bool, type(None))) or (isinstance(k, tuple) and all(hashable_const(x) for x in k)) or isinstance(k, (Ext,)) or (isinstance(k, Term) and k.op == 'const')


def hkey(k):
    if isinstance(k, Term) and k.op == 'const':
        v = k.args[0]
        return int(v) if k.sort == 'I' else v
    return k


def finish_map(ex, nodes):
    """A dictionary from (key, value) entries; entries must have distinct keys (or the last one wins for literal updates)."""
    codec = None
    for bs, cs, kv in leaves(nodes):
        codec = codec_for(kv[0])
        break
    if codec is None:
        return DictV({})
    if not distinct_keys(ex, nodes, codec):
        raise Unsupported('dictionary with possibly repeated keys')
    return DictV(st=nodes_map(codec, nodes))


def finish_groups(ex, nodes):
    """name -> inner dictionary entries: one functional state of hyperedge groups (None: not of this form)."""
    ls = list(leaves(nodes))
    if not ls or not all(isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[1], (InnerRef, DictV)) for _, _, kv in ls):
        return None
    parts, owners = [], []
    for bs, cs, (k, v) in ls:
        try:
            if codec_for(k) is not STR:
                return None
            ks, = STR.enc(k)
        except Unsupported:
            return None
        if isinstance(v, InnerRef):
            st, g = v.owner.st, v.g
            parts.append((bs, cs, ks, lambda e, st=st, g=g: st.ihas(g, e), lambda e, st=st, g=g: st.iget(g, e), st.inn(g), st.ord(g)))
            owners.append(st.own)
        else:
            norm_dict(ex, v)
            if v.d is not None and not v.d:
                parts.append((bs, cs, ks, lambda e: FALSE, None, ZERO, app('ord_empty', sort='U')))
            elif v.st is not None and not isinstance(v.st, VecMap) and v.st.codec is HCODE:
                parts.append((bs, cs, ks, v.st.has, v.st.get, v.st.n, None))
                owners += maybe_owners(ex)
            else:
                return None
    if not distinct_keys(ex, nodes, STR):
        raise Unsupported('dictionary with possibly repeated keys')
    at = lambda p, a: and_(*(list(p[1]) + [eq(p[2], a)]))

    def get(a, e):
        r = None
        for p in parts:
            if p[4] is None:
                continue
            x = vsum(p[0], and_(at(p, a), p[3](e)), p[4](e))
            r = x if r is None else vadd(r, x)
        return r
    gk = nmap(nodes, lambda kv: (kv[0], None))
    ords = None
    if all(p[6] is not None for p in parts) and len(parts) == 1 and len(parts[0][0]) == 1 and not parts[0][1]:
        (b, hi), k = parts[0][0][0], parts[0][2]
        od = parts[0][6]
        if od.op == 'app' and od.args[-1] is k:
            ords = lambda a: subst(app(od.args[0], *(od.args[1:-1] + (var('ordkey', 'U'),)), sort='U'), {var('ordkey', 'U'): a})
    st = VecMap(lambda a: or_(*[exists(p[0], at(p, a)) for p in parts]), nlen(gk), lambda a, e: or_(*[exists(p[0], and_(at(p, a), p[3](e))) for p in parts]), get,
                lambda a: add(*([ZERO] + [sum_(p[0], iverson(at(p, a), p[5])) for p in parts])), gk, None, ords, SharedOwner(Owner(), *owners) if owners else None)
    return DictV(st=st)


class MaybeOwner:
    """Entry dictionaries of this owner may have been stored."""

    def __init__(self, o):
        self.o = o


def maybe_owners(ex):
    return [MaybeOwner(o) for o in ex.__dict__.get('read_owners', ())]


def read_owner(ex, st):
    l = ex.__dict__.setdefault('read_owners', [])
    if st.own not in l:
        l.append(st.own)


def distinct_keys(ex, nodes, codec):
    ls = list(leaves(nodes))
    for i in range(len(ls)):
        for j in range(i, len(ls)):
            bs, cs, kv = ls[i]
            r = {v: fresh('d') for v, _ in ls[j][0]}
            bs2 = [(r[v], subst(h, r)) for v, h in ls[j][0]]
            cs2 = [subst(c, r) for c in ls[j][1]]
            k2 = vsubst(ls[j][2][0], r)
            same = and_(*[eq(x, y) for x, y in zip(codec.enc(kv[0]), codec.enc(k2))])
            facts = [and_(le(ZERO, v), lt(v, h)) for v, h in list(bs) + bs2] + cs + cs2 + [same]
            goal = FALSE if i != j else and_(*[eq(v, r[v]) for v, _ in bs])
            if i == j and not bs:
                continue
            n = ex.norm(facts)
            try:
                # substitute equal keys through the inverse functions
                g = []
                if i == j:
                    ok = n.prove(goal)[0] or pos_injective(ex, codec.enc(kv[0]), codec.enc(k2), bs, r, facts)
                else:
                    ok = smt_false(ex, facts)
            except norm.TooHard:
                ok = False
            if not ok:
                return False
    return True


def smt_false(ex, facts):
    from . import smt
    return smt.check(ex.facts + facts, ex.th.axioms) == 'unsat'


def pos_injective(ex, k1, k2, bs, r, facts):
    """k(p) == k(p') with k an enumeration: pos(k(p)) == p."""
    for inv in ex.th.inverses:
        for t in k1:
            pass
        ts = [t for t in k1 if t.op == 'app' and t.args[0] in inv.keys]
        if len(ts) == len(inv.keys):
            ts = sorted(ts, key=lambda t: inv.keys.index(t.args[0]))
            if [t.args[0] for t in ts] == list(inv.keys) and len({t.args[1 + inv.npre] for t in ts}) == 1:
                p = ts[0].args[1 + inv.npre]
                # remaining binders must be determined as well
                vs = {v for v, _ in bs}
                if fv(p) & vs == vs and p.op == 'var' and not any(fv(x) & vs for x in ts[0].args[1:1 + inv.npre]):
                    return True
    return False


def norm_dict(ex, d):
    """Finalises a dictionary under construction."""
    if isinstance(d.st, Poison):
        raise Unsupported('a dictionary changed in a loop without a contract')
    if d.build is not None:
        if d.build and isinstance(d.build[0], Hole):
            raise Unsupported('a dictionary is read while a loop is still extending it')
        if d.default is not None:
            raise Unsupported('grouping dictionary read')
        m = finish_groups(ex, d.build) or finish_map(ex, d.build)
        ex.setattr(d, 'build', None)
        ex.setattr(d, 'd', m.d)
        ex.setattr(d, 'st', m.st)
    return d


def dict_keys(ex, d):
    if d.default is not None and d.build is not None:
        return group_keys(ex, d)
    norm_dict(ex, d)
    if d.d is not None:
        return tuple(Item(k) for k in d.d)
    if isinstance(d.st, VecMap):
        return nmap(groups_nodes(ex, d), lambda kv: kv[0])
    return nmap(d.st.nodes(ex.th), lambda kv: kv[0])


def dict_items(ex, d):
    if isinstance(d, InnerRef):
        return inner_items(ex, d)
    if d.default is not None and d.build is not None:
        ks = group_keys(ex, d)
        return nmap(ks, lambda k: (k, GroupList(ex, d, k)))
    norm_dict(ex, d)
    if d.d is not None:
        return tuple(Item((k, v)) for k, v in d.d.items())
    if isinstance(d.st, VecMap):
        return groups_nodes(ex, d)
    return d.st.nodes(ex.th)


def group_keys(ex, d):
    """Distinct keys of a grouping dictionary in order of first insertion: enumeration with inverse."""
    if getattr(d, 'genum', None) is None or d.genum[0] is not d.build:
        s = SetV(nmap(d.build, lambda kv: kv[0]))
        d.genum = (d.build, set_nodes(ex, s))
    return d.genum[1]


def GroupList(ex, d, k):
    """The list stored under k: the values inserted with key k, in insertion order."""
    out = []

    def rec(nodes):
        r = []
        for n in nodes:
            if isinstance(n, Item):
                c = veq(n.val[0], k)
                if c is TRUE:
                    r.append(Item(n.val[1]))
                elif c is not FALSE:
                    r.append(If(c, (Item(n.val[1]),)))
            elif isinstance(n, Loop):
                r.append(Loop(n.var, n.hi, rec(n.body)))
            elif isinstance(n, If):
                r.append(If(n.cond, rec(n.body)))
        return tuple(r)
    return ListV(nrefresh(rec(nohole(d.build))))


def dict_has(ex, d, k):
    if isinstance(d, InnerRef):
        st = d.owner.st
        e, = HCODE.enc(k)
        return st.ihas(d.g, e)
    norm_dict(ex, d)
    if d.d is not None:
        if hashable_const(k):
            return hkey(k) in d.d
        return or_(*[lift(veq_key(k2, k)) for k2 in d.d]) if d.d else False
    if isinstance(d.st, VecMap):
        return d.st.ghas(*STR.enc(k))
    return d.st.has(*d.st.codec.enc(k))


def veq_key(a, b):
    try:
        return veq(a, b)
    except Unsupported:
        return FALSE


def dict_get(ex, d, k):
    """Value under a key known to be present."""
    if isinstance(d, InnerRef):
        e, = HCODE.enc(k)
        return d.owner.st.iget(d.g, e)
    norm_dict(ex, d)
    if d.d is not None:
        if hashable_const(k):
            v = d.d[hkey(k)]
            if isinstance(v, Poison):
                raise Unsupported('dictionary entry after a loop')
            return v
        for k2, v in list(d.d.items()):
            if ex.decide(lift(veq_key(k2, k))):
                return v
        raise Infeasible()
    if isinstance(d.st, VecMap):
        g, = STR.enc(k)
        return InnerRef(d, g)
    return d.st.get(*d.st.codec.enc(k))


def dict_set(ex, d, k, v):
    if isinstance(d, InnerRef):
        st = d.owner.st
        e, = HCODE.enc(k)
        g = d.g
        if d.owner.frozen:
            ex.frame.append('%s: modifies %s' % (ex.where, d.owner.frozen))
        ex.setattr(d.owner, 'st', vec_put(st, g, e, v))
        return
    if d.frozen:
        ex.frame.append('%s: modifies %s' % (ex.where, d.frozen))
    if d.build is not None:
        if d.build and isinstance(d.build[0], Hole) or not all_items(d.build):
            ex.setattr(d, 'build', d.build + (Item((k, v)),))
            return
        norm_dict(ex, d)
    if d.d is not None:
        if hashable_const(k):
            ex.setitem(d.d, hkey(k), v)
            return
        if not d.d:
            ex.setattr(d, 'build', (Item((k, v)),))
            return
        for k2 in list(d.d):
            if ex.decide(lift(veq_key(k2, k))):
                ex.setitem(d.d, k2, v)
                return
        raise Unsupported('symbolic key into a concrete dictionary')
    if isinstance(d.st, VecMap):
        g, = STR.enc(k)
        ex.setattr(d, 'st', vec_put_group(ex, d.st, g, v))
        return
    ks = d.st.codec.enc(k)
    ex.setattr(d, 'st', d.st.put(ks, v))


def dict_del(ex, d, k):
    if isinstance(d, InnerRef):
        e, = HCODE.enc(k)
        ex.setattr(d.owner, 'st', vec_del(d.owner.st, d.g, e))
        return
    norm_dict(ex, d)
    if d.d is not None:
        if hashable_const(k):
            ex.setitem(d.d, hkey(k), MISSING)
            return
        raise Unsupported('deletion of a symbolic key')
    if isinstance(d.st, VecMap):
        g, = STR.enc(k)
        ex.setattr(d, 'st', vec_del_group(d.st, g))
        return
    ex.setattr(d, 'st', d.st.remove(d.st.codec.enc(k)))


def dict_len(ex, d):
    if isinstance(d, InnerRef):
        return d.owner.st.inn(d.g)
    if d.default is not None and d.build is not None:
        return nlen(group_keys(ex, d))
    norm_dict(ex, d)
    if d.d is not None:
        return len(d.d)
    if isinstance(d.st, VecMap):
        return d.st.gn
    return d.st.n


# ---- hyperedge groups (two-level maps)
def vec_put(st, g, e, v):
    h, gt, nn, od = st.ihas, st.iget, st.inn, st.ord
    same = lambda a, b: and_(eq(a, g), eq(b, e))
    return VecMap(st.ghas, st.gn, lambda a, b: or_(same(a, b), h(a, b)), lambda a, b: pick(same(a, b), v, lambda: gt(a, b)),
                  lambda a: add(nn(a), iverson(and_(eq(a, g), not_(h(g, e))))), st._gnodes, None, lambda a: ite(and_(eq(a, g), not_(h(g, e))), app('ord_put', od(a), e, sort='U'), od(a)), st.own)


def pick(c, v, old):
    if c is TRUE:
        return v
    if c is FALSE:
        return old()
    return vite(c, v, old())


def vec_del(st, g, e):
    h, nn, od = st.ihas, st.inn, st.ord
    same = lambda a, b: and_(eq(a, g), eq(b, e))
    return VecMap(st.ghas, st.gn, lambda a, b: and_(not_(same(a, b)), h(a, b)), st.iget, lambda a: add(nn(a), mul(const(-1), iverson(and_(eq(a, g), h(g, e))))), st._gnodes, None,
                  lambda a: ite(and_(eq(a, g), h(g, e)), app('ord_del', od(a), e, sort='U'), od(a)), st.own)


def vec_put_group(ex, st, g, v):
    own = st.own
    if isinstance(v, DictV):
        norm_dict(ex, v)
    if isinstance(v, InnerRef):
        s2, g2 = v.owner.st, v.g
        ih, ig, inn, token = (lambda e: s2.ihas(g2, e)), (lambda e: s2.iget(g2, e)), s2.inn(g2), s2.ord(g2)
        if own is not s2.own:
            own = SharedOwner(own, s2.own)
        get = lambda a, b: pick(eq(a, g), ig(b), lambda: old(a, b))
        old = st.iget
    elif isinstance(v, DictV) and v.d is not None and not v.d:
        ih, ig, inn, token = lambda e: FALSE, lambda e: None, ZERO, app('ord_empty', sort='U')
        get = st.iget
    elif isinstance(v, DictV) and v.st is not None:
        ih, ig, inn, token = v.st.has, v.st.get, v.st.n, getattr(v.st, 'token', None) or app('someorder%d' % birth(), sort='U')
        old = st.iget
        mo = maybe_owners(ex)
        if mo:
            own = SharedOwner(own, *mo)
        get = lambda a, b: pick(eq(a, g), ig(b), lambda: old(a, b)) if old is not None else ig(b)
    else:
        raise Unsupported('group content')
    h, nn, gh, od = st.ihas, st.inn, st.ghas, st.ord
    return VecMap(lambda a: or_(eq(a, g), gh(a)), add(st.gn, iverson(not_(gh(g)))), lambda a, b: or_(and_(eq(a, g), ih(b)), and_(ne(a, g), h(a, b))), get,
                  lambda a: ite(eq(a, g), inn, nn(a)), None, None, lambda a: ite(eq(a, g), token, od(a)), own)


class SharedOwner:
    """Inner dictionaries taken from two families."""

    def __init__(self, *owners):
        self.owners = owners


def vec_del_group(st, g):
    gh, h, nn = st.ghas, st.ihas, st.inn
    return VecMap(lambda a: and_(ne(a, g), gh(a)), add(st.gn, mul(const(-1), iverson(gh(g)))), lambda a, b: and_(ne(a, g), h(a, b)), st.iget, lambda a: ite(eq(a, g), ZERO, nn(a)), None, None, st.ord, st.own)


def groups_nodes(ex, d):
    return nmap(nrefresh(state_groups(ex, d.st)), lambda kv: (kv[0], InnerRef(d, kv[0])))


def state_group_keys(ex, st):
    return nmap(nrefresh(state_groups(ex, st)), lambda kv: kv[0])


def state_groups(ex, st):
    if st._gnodes is None:
        if ex.loop_vars:
            raise Unsupported('enumeration of changed groups inside a loop')
        st._gnodes = enumerate_map(ex.th, STR, st.ghas, lambda g: None, st.gn)
    return st._gnodes


def inner_items(ex, r):
    st = r.owner.st
    read_owner(ex, st)
    if st._inodes is None:
        nm = uniq('ie')
        register_enum(ex.th, [nm + '_k'], nm + '_pos', 'U', lambda pre, ks: st.ihas(pre[0], ks[0]), lambda g: st.inn(g), npre=1)

        def inodes(g):
            q = fresh('p')
            e = app(nm + '_k', g, q, sort='U')
            return (Loop(q, st.inn(g), (Item((HCODE.dec(e), st.iget(g, e))),)),)
        st._inodes = inodes
    return st._inodes(r.g)


# ------------------------------------------------------------------------------------------- operators
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.MatMult: 'matmul'}


def astop(ex, op, a, b):
    o = OPS.get(type(op))
    if o is None:
        raise Unsupported('operator')
    return binop(ex, o, a, b)


def augop(ex, op, a, b):
    o = OPS.get(type(op))
    if o == 'add' and isinstance(a, ListV):
        ex.setattr(a, 'nodes', a.nodes + iter_nodes(ex, b))
        return a
    if isinstance(a, (Tensor, RTensor)):
        from . import tlib
        r = binop(ex, o, a, b)
        tlib.write_into(ex, a, r)
        return a
    return binop(ex, o, a, b)


def binop(ex, o, a, b):
    from . import tlib
    if isinstance(a, (Tensor, RTensor, Sparse)) or isinstance(b, (Tensor, RTensor, Sparse)):
        return tlib.arith(ex, o, a, b)
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        raise Unsupported('operator on objects')
    if isnumv(a) and isnumv(b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return pyarith(o, a, b)
        x, y = num(a), num(b)
        if x.sort == 'B' and y.sort == 'B' and o in ('and', 'or'):
            return and_(x, y) if o == 'and' else or_(x, y)
        if x.sort == 'B':
            x = ite(x, ONE, ZERO)
        if y.sort == 'B':
            y = ite(y, ONE, ZERO)
        if o == 'add':
            return add(x, y)
        if o == 'sub':
            return add(x, mul(const(-1), y))
        if o == 'mul':
            return mul(x, y)
        if o == 'div':
            if is_const(y) and y.args[0] != 0:
                return mul(const(1 / y.args[0], 'R'), x)
            if ex.decide(eq(y, ZERO)):
                raise PyRaise('ZeroDivisionError', '', ex.where)
            return mul(x, app('inv0', y, sort='R'))
        if o in ('floordiv', 'mod'):
            if x.sort == 'R' or y.sort == 'R':
                raise Unsupported('real floor division')
            if not is_const(y) and ex.decide(eq(y, ZERO)):
                raise PyRaise('ZeroDivisionError', '', ex.where)
            return idiv(x, y) if o == 'floordiv' else imod(x, y)
        if o == 'pow':
            return tlib.tpow(x, b)
        raise Unsupported('operator %s' % o)
    if o == 'add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV):
            return ListV(nohole(a.nodes) + nrefresh(nohole(b.nodes)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (str, Term)) and isinstance(b, (str, Term)):
            return app('strcat', strterm(a) if isinstance(a, str) else a, strterm(b) if isinstance(b, str) else b, sort='U')
    if o == 'mul':
        if isinstance(b, ListV) and isnumv(a):
            a, b = b, a
        if isinstance(a, ListV) and isnumv(b):
            n = num(b)
            if len(a.nodes) == 1 and isinstance(a.nodes[0], Item):
                if is_const(n):
                    return ListV([Item(a.nodes[0].val)] * max(0, int(n.args[0])))
                return ListV([Loop(fresh('m'), n, (Item(a.nodes[0].val),))])
            if is_const(n):
                return ListV(tuple(x for _ in range(int(n.args[0])) for x in nrefresh(a.nodes)))
            raise Unsupported('list repetition')
        if isinstance(a, str) and isinstance(b, int):
            return a * b
    if isinstance(a, SetV) and isinstance(b, SetV):
        if o == 'or':
            return SetV(a.nodes + b.nodes)
        if o == 'and':
            return SetV(nfilter(a.nodes, lambda v: set_member(ex, b, v)), a.uniq)
        if o == 'sub':
            return SetV(nfilter(a.nodes, lambda v: not_(set_member(ex, b, v))), a.uniq)
    if isinstance(a, (ListV, SetV)) and isinstance(b, (DictV,)) and o == 'and':
        return SetV(nfilter(a.nodes, lambda v: lift(dict_has(ex, b, v))))
    if isinstance(a, SetV) and isinstance(b, (ListV, Iter)) and o == 'and':
        return SetV(nfilter(a.nodes, lambda v: contains(ex, b, v)), a.uniq)
    if isinstance(a, SetV) and isinstance(b, (ListV, Iter)) and o == 'sub':
        return SetV(nfilter(a.nodes, lambda v: not_(lift(contains(ex, b, v)))), a.uniq)
    if isinstance(a, HostObj) and hasattr(a, 'binop'):
        return a.binop(ex, o, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('(%s %s %s)' % (getattr(a, 'name', a), o, getattr(b, 'name', b)))
    raise Unsupported('%s of %s and %s' % (o, type(a).__name__, type(b).__name__))


def nfilter(nodes, pred):
    out = []
    for n in nodes:
        if isinstance(n, Item):
            c = lift(pred(n.val))
            if c is TRUE:
                out.append(n)
            elif c is not FALSE:
                out.append(If(c, (n,)))
        elif isinstance(n, Loop):
            out.append(Loop(n.var, n.hi, nfilter(n.body, pred)))
        elif isinstance(n, If):
            out.append(If(n.cond, nfilter(n.body, pred)))
        else:
            raise Unsupported('a list is read while a loop is still extending it')
    return tuple(out)


def pyarith(o, a, b):
    try:
        if o == 'add':
            return a + b
        if o == 'sub':
            return a - b
        if o == 'mul':
            return a * b
        if o == 'div':
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                return Fraction(a) / Fraction(b)
            return a / b
        if o == 'floordiv':
            return a // b
        if o == 'mod':
            return a % b
        if o == 'pow':
            return a ** b
        if o == 'and':
            return a & b
        if o == 'or':
            return a | b
    except ZeroDivisionError:
        raise PyRaise('ZeroDivisionError')
    raise Unsupported(o)


def invert(ex, v):
    if isinstance(v, Term) and v.sort == 'B':
        return not_(v)
    if isinstance(v, (Tensor, RTensor)):
        from . import tlib
        return tlib.emap(ex, lambda x: not_(tlib.asbool(x)), v, dt='b')
    raise Unsupported('~')


def contains(ex, c, v):
    """v in c, as a term or bool."""
    if isinstance(c, (DictV, InnerRef)):
        return dict_has(ex, c, v)
    if isinstance(c, SetV):
        return set_member(ex, c, v)
    if isinstance(c, VTup):
        return app('vmem', c.t, num(v), sort='B')
    if isinstance(c, str) and isinstance(v, str):
        return v in c
    if isinstance(c, HostObj) and hasattr(c, 'contains'):
        return c.contains(ex, v)
    if isinstance(c, KeysIter) or isinstance(c, KeysList) and c._n is None:
        return (c.it if isinstance(c, KeysList) else c).st.ghas(*STR.enc(v))
    if isinstance(c, RangeV) and isinstance(c.step, int) and c.step == 1:
        return and_(le(num(c.lo), num(v)), lt(num(v), num(c.hi)))
    nodes = iter_nodes(ex, c)
    parts = []
    for bs, cs, x in leaves(nodes):
        parts.append(exists(bs, and_(*(cs + [lift(veq_key(x, v))]))))
    return or_(*parts)


def compare(ex, op, a, b):
    from . import tlib
    if isinstance(op, (ast.Is, ast.IsNot)):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            r = a is b
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported('poison')
        else:
            r = a is b
        return r if isinstance(op, ast.Is) else not r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(ex, b, a)
        if isinstance(op, ast.In):
            return r
        return not_(r) if isinstance(r, Term) else not r
    if isinstance(a, (Tensor, RTensor)) or isinstance(b, (Tensor, RTensor)):
        f = {ast.Eq: eq, ast.NotEq: ne, ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[type(op)]
        if a is None or b is None:
            return isinstance(op, ast.NotEq)
        return tlib.emap(ex, f, a, b, dt='b')
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if isinstance(a, (ClassV, Ext)) or isinstance(b, (ClassV, Ext)):
            r = type_eq(a, b)
        else:
            r = veq(a, b)
        if isinstance(r, Term) and r.op == 'const':
            r = r.args[0]
        if isinstance(op, ast.Eq):
            return r
        return not_(r) if isinstance(r, Term) else not r
    if isnumv(a) and isnumv(b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = num(a), num(b)
        if isinstance(a, float) and a == float('inf') or isinstance(b, float) and b == float('inf'):
            raise Unsupported('infinity')
        r = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[type(op)](x, y)
        return r.args[0] if r.op == 'const' else r
    if isinstance(a, InfV) or isinstance(b, InfV):
        return inf_compare(op, a, b)
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


class InfV:
    def __init__(self, sign):
        self.sign = sign


def inf_compare(op, a, b):
    va = a.sign if isinstance(a, InfV) else 0
    vb = b.sign if isinstance(b, InfV) else 0
    if va == vb:
        return isinstance(op, (ast.LtE, ast.GtE))
    return {ast.Lt: va < vb, ast.LtE: va <= vb, ast.Gt: va > vb, ast.GtE: va >= vb}[type(op)]


def type_eq(a, b):
    n = lambda x: x.name.replace('builtins.', '') if isinstance(x, Ext) else (x.qual if isinstance(x, ClassV) else x)
    if isinstance(b, tuple):
        return any(type_eq(a, y) for y in b)
    if isinstance(a, HostFn):
        a = Ext(a.name)
    if isinstance(b, HostFn):
        b = Ext(b.name)
    return n(a) == n(b)


# ------------------------------------------------------------------------------------------- subscripts
def index_of(ex, nodes, k, what='list'):
    """Element k of a sequence (with bounds check)."""
    nodes = nohole(nodes)
    if isinstance(k, bool):
        k = int(k)
    if all_items(nodes) and isinstance(k, int):
        if not -len(nodes) <= k < len(nodes):
            raise PyRaise('IndexError', '', ex.where)
        return nodes[k].val
    if isinstance(k, int) and 0 <= k < len(nodes) and all_items(nodes[:k + 1]):
        return nodes[k].val
    n = nlen(nodes)
    kt = num(k)
    if isinstance(k, int) and k < 0:
        kt = add(n, kt)
    if ex.decide(not_(and_(le(ZERO, kt), lt(kt, n)))):
        if not isinstance(k, int) and ex.entailed(le(ZERO, kt)) is None:
            raise Unsupported('possibly negative index')
        raise PyRaise('IndexError', '', ex.where)
    return at_index(ex, nodes, kt)


def at_index(ex, nodes, kt):
    segs = segments(nodes)
    if segs is None:
        if len(nodes) == 1 and isinstance(nodes[0], Loop) and ragged(nodes[0]):
            return renumber(ex, nodes[0])[1](lift(kt))
        raise Unsupported('element of a ragged list')
    if len(segs) == 1:
        return segs[0][1](kt)
    off = ZERO
    opts = []
    for ln, f in segs:
        opts.append((off, ln, f))
        off = add(off, ln)
    # decide the segment if possible, otherwise merge
    for o, ln, f in opts:
        r = ex.entailed(and_(le(o, kt), lt(kt, add(o, ln))))
        if r:
            return f(add(kt, mul(const(-1), o)))
    val = None
    for o, ln, f in reversed(opts):
        x = f(add(kt, mul(const(-1), o)))
        val = x if val is None else vite(lt(kt, add(o, ln)), x, val)
    return val


def slice_nodes(ex, nodes, sl):
    nodes = nohole(nodes)
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return reverse_nodes(nodes)
        raise Unsupported('slice step')
    if all_items(nodes) and all(isinstance(x, (int, type(None))) for x in (sl.start, sl.stop)):
        return nodes[sl.start:sl.stop]
    if isinstance(sl.start, int) and sl.start >= 0 and sl.stop is None and len(nodes) >= sl.start and all_items(nodes[:sl.start]):
        return nodes[sl.start:]
    n = nlen(nodes)

    def clip(x, dflt):
        if x is None:
            return dflt
        t = num(x)
        if isinstance(x, int) and x < 0:
            return tmax(ZERO, add(n, t))
        if not is_const(t) and ex.entailed(le(ZERO, t)) is not True:
            if ex.decide(lt(t, ZERO)):
                return tmax(ZERO, add(n, t))
        if t is ZERO or ex.entailed(le(t, n)):
            return t
        return tmin(t, n)
    a, b = clip(sl.start, ZERO), clip(sl.stop, n)
    ln = tmax(ZERO, add(b, mul(const(-1), a)))
    c = ex.norm()
    try:
        ln2 = c.canon(ln)
        if ex.entailed(le(a, b)):
            ln2 = c.canon(add(b, mul(const(-1), a)))
        a = c.canon(a)
    except norm.TooHard:
        ln2 = ln
    q = fresh('q')
    return (Loop(q, ln2, (Item(at_index(ex, nodes, add(q, a))),)),)


def reverse_nodes(nodes):
    out = []
    for n in reversed(nodes):
        if isinstance(n, Item):
            out.append(n)
        elif isinstance(n, Loop):
            v = fresh('q')
            out.append(Loop(v, n.hi, reverse_nodes(nsubst(n.body, {n.var: add(n.hi, mul(const(-1), v), const(-1))}))))
        elif isinstance(n, If):
            out.append(If(n.cond, reverse_nodes(n.body)))
    return tuple(out)


def getitem(ex, o, k):
    from . import tlib
    if isinstance(o, (Tensor, RTensor, Sparse)):
        return tlib.tgetitem(ex, o, k)
    if isinstance(o, GroupRef):
        o = GroupList(ex, o.d, o.k)
    if isinstance(o, (DictV, InnerRef)):
        if isinstance(o, DictV) and o.default is not None:
            if o.build is not None or (o.d is not None and not o.d and not hashable_const(k)):
                return GroupRef(o, k)
            if o.d is not None and hashable_const(k):
                if hkey(k) not in o.d:
                    v = o.default(ex)
                    ex.setitem(o.d, hkey(k), v)
                return o.d[hkey(k)]
            if getattr(o, 'cachegroups', None):
                return o.cachegroups(ex, o, k)
        h = dict_has(ex, o, k)
        if not (ex.decide(h) if isinstance(h, Term) else h):
            raise PyRaise('KeyError', repr(k), ex.where)
        return dict_get(ex, o, k)
    if isinstance(o, tuple):
        if isinstance(k, Term) and k.op == 'const':
            k = int(k.args[0])
        if isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise PyRaise('IndexError', '', ex.where)
            return o[k]
        if isinstance(k, slice):
            if all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step)):
                return o[k]
        if isinstance(k, Term):
            return index_of(ex, tuple(Item(x) for x in o), k)
        raise Unsupported('tuple index')
    if isinstance(o, str):
        return o[k]
    if isinstance(o, (ListV, SymTuple, VTup)):
        u = upd_of(o)
        if u is not None and isinstance(k, (int, Term)) and ex.entailed(eq(num(k), u.var)):
            return u.cur
        nodes = iter_nodes(ex, o)
        if isinstance(k, slice):
            return ListV(slice_nodes(ex, nodes, k)) if isinstance(o, ListV) else SymTuple(slice_nodes(ex, nodes, k))
        if isinstance(k, Tensor) and not k.shape:
            k = k.fn()
        return index_of(ex, nodes, k)
    if isinstance(o, Opaque):
        return Opaque('%s[%s]' % (o.name, k))
    if isinstance(o, ObjV):
        if isinstance(o.cls, Ext) and o.cls.name in ('nn.ModuleList', 'nn.Sequential'):
            return getitem(ex, o.attrs['items'], k)
        m = ex.find_member(o.cls, '__getitem__')
        if m:
            return ex.call(ex.bind(m, o), [k])
    if isinstance(o, HostObj):
        return o.getitem(ex, k)
    raise Unsupported('subscript of %s' % type(o).__name__)


class HostObj:
    """Base of host-modelled objects (caches, files, ...)."""


class TableV(HostObj):
    """defaultdict(dict): one dictionary per key, created on first access.  tabs: (key, dictionary) pairs accessed so far;
    base(ex, key): the dictionary found under a key never accessed so far (None: a new empty one)."""

    def __init__(self, base=None, name='table'):
        self.birth = birth()
        self.base, self.name = base, name
        self.tabs = ()

    def find(self, ex, k):
        for i, (k2, v) in enumerate(self.tabs):
            c = veq_key(k2, k)
            if c is TRUE or (c is not FALSE and ex.decide(c)):
                return i
        return None

    def getitem(self, ex, k):
        i = self.find(ex, k)
        if i is not None:
            if self.tabs[i][1] is MISSING:
                v = DictV({})
                ex.setattr(self, 'tabs', self.tabs[:i] + ((self.tabs[i][0], v),) + self.tabs[i + 1:])
                return v
            return self.tabs[i][1]
        v = DictV({}) if self.base is None else self.base(ex, k)
        ex.setattr(self, 'tabs', self.tabs + ((k, v),))
        return v

    def setitem(self, ex, k, v):
        i = self.find(ex, k)
        if i is None:
            ex.setattr(self, 'tabs', self.tabs + ((k, v),))
        else:
            ex.setattr(self, 'tabs', self.tabs[:i] + ((self.tabs[i][0], v),) + self.tabs[i + 1:])

    def contains(self, ex, k):
        i = self.find(ex, k)
        if i is not None:
            return self.tabs[i][1] is not MISSING
        if self.base is None:
            return False
        if ex.decide(app('tabled:%s' % self.name, *(STR.enc(k)), sort='B')):
            self.getitem(ex, k)
            return True
        return False

    def delitem(self, ex, k):
        if self.contains(ex, k) is not True:
            raise PyRaise('KeyError', '', ex.where)
        self.setitem(ex, k, MISSING)

    def getattr(self, ex, name):
        if name == 'pop':
            def pop(ex, a, k):
                i = self.find(ex, a[0])
                if len(a) < 2 and self.contains(ex, a[0]) is not True:
                    raise PyRaise('KeyError', '', ex.where)
                old = self.tabs[i][1] if i is not None and self.tabs[i][1] is not MISSING else Opaque('popped')
                self.setitem(ex, a[0], MISSING)
                return old
            return HostFn('pop', pop)
        if name == 'get':
            def get(ex, a, k):
                if self.contains(ex, a[0]) is True:
                    return self.getitem(ex, a[0])
                return a[1] if len(a) > 1 else None
            return HostFn('get', get)
        if name == 'clear':
            def clear(ex, a, k):
                ex.setattr(self, 'tabs', ())
                ex.setattr(self, 'base', None)
            return HostFn('clear', clear)
        if name == 'copy':
            return HostFn('copy', lambda ex, a, k: self.dup(lambda v: v))
        raise Unsupported('defaultdict.%s' % name)

    def dup(self, f):
        t = TableV(self.base, self.name)
        if self.base is not None:
            b = self.base
            t.base = lambda ex, k: lib_dup(ex, self, b, k, f)
        t.tabs = tuple((k, v if v is MISSING else f(v)) for k, v in self.tabs)
        for x in ('content', 'mkspecs'):
            if hasattr(self, x):
                setattr(t, x, getattr(self, x))
        return t

    def deepcopy(self, ex):
        return self.dup(lambda v: deepcopy_val(ex, v))


def lib_dup(ex, src, base, k, f):
    return f(src.getitem(ex, k)) if src.base is base else f(base(ex, k))


def setitem(ex, o, k, v):
    from . import tlib
    if isinstance(o, (Tensor, RTensor)):
        return tlib.tsetitem(ex, o, k, v)
    if isinstance(o, (DictV, InnerRef)):
        return dict_set(ex, o, k, v)
    if isinstance(o, ListV):
        if o.frozen:
            ex.frame.append('%s: modifies %s' % (ex.where, o.frozen))
        u = upd_of(o)
        if u is not None and isinstance(k, (int, Term)) and ex.entailed(eq(num(k), u.var)):
            ex.setattr(o, 'nodes', (Upd(u.tag, u.var, u.hi, v),))
            return
        nodes = nohole(o.nodes)
        if all_items(nodes) and isinstance(k, int):
            if not -len(nodes) <= k < len(nodes):
                raise PyRaise('IndexError', '', ex.where)
            l = list(nodes)
            l[k] = Item(v)
            ex.setattr(o, 'nodes', tuple(l))
            return
        s = simple(nodes)
        if s:
            var_, hi, val = s
            q = fresh('q')
            kt = num(k)
            ex.setattr(o, 'nodes', (Loop(q, hi, (Item(vite(eq(q, kt), v, vsubst(val, {var_: q}))),)),))
            return
        raise Unsupported('list assignment')
    if isinstance(o, HostObj):
        return o.setitem(ex, k, v)
    if isinstance(o, ObjV):
        m = ex.find_member(o.cls, '__setitem__')
        if m:
            return ex.call(ex.bind(m, o), [k, v])
    raise Unsupported('item assignment on %s' % type(o).__name__)


def delitem(ex, o, k):
    if isinstance(o, (DictV, InnerRef)):
        if getattr(o, 'frozen', None):
            ex.frame.append('%s: modifies %s' % (ex.where, o.frozen))
        h = dict_has(ex, o, k)
        if not (ex.decide(h) if isinstance(h, Term) else h):
            raise PyRaise('KeyError', repr(k), ex.where)
        return dict_del(ex, o, k)
    raise Unsupported('del on %s' % type(o).__name__)


def unpack(ex, v, n):
    if isinstance(v, tuple):
        if len(v) != n:
            raise PyRaise('ValueError', 'unpack', ex.where)
        return v
    if isinstance(v, (Tensor, RTensor)):
        from . import tlib
        return tlib.tunpack(ex, v, n)
    if isinstance(v, (ListV, SymTuple)):
        if all_items(v.nodes):
            if len(v.nodes) != n:
                raise PyRaise('ValueError', 'unpack', ex.where)
            return tuple(x.val for x in v.nodes)
        ln = nlen(v.nodes)
        if ex.decide(ne(ln, const(n))):
            raise PyRaise('ValueError', 'unpack', ex.where)
        return tuple(at_index(ex, v.nodes, const(i)) for i in range(n))
    if isinstance(v, VTup) and n:
        ln = app('vlen', v.t, sort='I')
        if ex.decide(ne(ln, const(n))):
            raise PyRaise('ValueError', 'unpack', ex.where)
        return tuple(app('vat', v.t, const(i), sort='I') for i in range(n))
    if isinstance(v, Opaque):
        return tuple(Opaque('%s[%d]' % (v.name, i)) for i in range(n))
    raise Unsupported('unpacking of %s' % type(v).__name__)


# ------------------------------------------------------------------------------------------- attributes of values
def method(name, f, self_):
    return BoundV(HostFn(name, f), self_)


def value_attr(ex, o, name):
    from . import tlib
    if isinstance(o, (Tensor, RTensor, Sparse, tlib.SparseVec)):
        return tlib.tattr(ex, o, name)
    if isinstance(o, ListV):
        f = LIST_METHODS.get(name)
    elif isinstance(o, (DictV, InnerRef)):
        f = DICT_METHODS.get(name)
    elif isinstance(o, SetV):
        f = SET_METHODS.get(name)
    elif isinstance(o, (tuple, SymTuple, VTup)):
        f = TUP_METHODS.get(name)
    elif isinstance(o, GroupRef):
        f = GROUP_METHODS.get(name)
    elif isinstance(o, HostObj):
        return o.getattr(ex, name)
    elif isinstance(o, Opaque):
        if getattr(o, 'attrs', None) and name in o.attrs:
            return o.attrs[name]
        return Opaque('%s.%s' % (o.name, name)) if name in ('device', 'dtype') else OpaqueMethod(o, name)
    elif isinstance(o, SuperV):
        m = ex.find_member(o.obj.cls, name, after=o.cls)
        if m is None:
            if name == '__init__':
                return HostFn('object.__init__', lambda ex, a, k: None)
            raise Unsupported('super().%s' % name)
        if m[0] == 'property':
            return ex.call_func(m[1], [o.obj], {})
        return ex.bind(m, o.obj)
    elif isinstance(o, str):
        f = STR_METHODS.get(name)
    elif isinstance(o, Term) and o.sort == 'U':
        f = STR_METHODS.get(name)
    elif isinstance(o, HostFn) and name in ('__name__',):
        return o.name
    elif isinstance(o, (FuncV,)) and name == '__name__':
        return o.node.name
    elif isnumv(o):
        if name == 'item':
            return HostFn('item', lambda ex, a, k: o)
        f = None
    else:
        f = None
    if f is None:
        if o is None:
            raise PyRaise('AttributeError', name, ex.where)
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
    return method(name, f, o)


class OpaqueMethod:
    def __init__(self, o, name):
        self.o, self.name = o, name

    def __call__(self, ex, args, kw):
        ex.events.append(('call', '%s.%s' % (self.o.name, self.name), tuple(args), tuple(sorted(kw.items(), key=lambda t: t[0]))))
        return Opaque('%s.%s()' % (self.o.name, self.name))


def chk(ex, o):
    if getattr(o, 'frozen', None):
        ex.frame.append('%s: modifies %s' % (ex.where, o.frozen))


def m_append(ex, a, k):
    chk(ex, a[0])
    ex.setattr(a[0], 'nodes', a[0].nodes + (Item(a[1]),))


def m_extend(ex, a, k):
    chk(ex, a[0])
    ex.setattr(a[0], 'nodes', a[0].nodes + tuple(nrefresh(iter_nodes(ex, a[1]))))


def m_copy(ex, a, k):
    return ListV(nohole(a[0].nodes))


def m_list_pop(ex, a, k):
    nodes = nohole(a[0].nodes)
    i = a[1] if len(a) > 1 else -1
    if all_items(nodes) and isinstance(i, int):
        if not nodes:
            raise PyRaise('IndexError')
        l = list(nodes)
        v = l.pop(i)
        ex.setattr(a[0], 'nodes', tuple(l))
        return v.val
    raise Unsupported('list.pop')


def m_sort(ex, a, k):
    chk(ex, a[0])
    r = b_sorted(ex, [a[0]], k)
    ex.setattr(a[0], 'nodes', r.nodes)


def m_list_clear(ex, a, k):
    chk(ex, a[0])
    ex.setattr(a[0], 'nodes', ())


def m_index(ex, a, k):
    nodes = nohole(a[0].nodes)
    if all_items(nodes):
        for i, n in enumerate(nodes):
            if ex.truth(veq(n.val, a[1])):
                return i
        raise PyRaise('ValueError')
    raise Unsupported('list.index')


def m_insert(ex, a, k):
    chk(ex, a[0])
    if isinstance(a[1], int) and a[1] == 0:
        ex.setattr(a[0], 'nodes', (Item(a[2]),) + nohole(a[0].nodes))
        return
    raise Unsupported('list.insert')


LIST_METHODS = {'append': m_append, 'extend': m_extend, 'copy': m_copy, 'pop': m_list_pop, 'sort': m_sort, 'clear': m_list_clear, 'index': m_index, 'insert': m_insert,
                'tolist': lambda ex, a, k: a[0]}
TUP_METHODS = {}


def m_dget(ex, a, k):
    d, key = a[0], a[1]
    dflt = a[2] if len(a) > 2 else k.get('default')
    h = dict_has(ex, d, key)
    if ex.decide(h) if isinstance(h, Term) else h:
        return dict_get(ex, d, key)
    return dflt


def m_dpop(ex, a, k):
    d, key = a[0], a[1]
    chk(ex, d if not isinstance(d, InnerRef) else d.owner)
    h = dict_has(ex, d, key)
    if isinstance(d, InnerRef) and len(a) > 2 and isinstance(h, Term):
        dict_del(ex, d, key)        # removing an absent key changes nothing
        return Opaque('popped')
    if ex.decide(h) if isinstance(h, Term) else h:
        v = dict_get(ex, d, key)
        dict_del(ex, d, key)
        return v
    if len(a) > 2:
        return a[2]
    raise PyRaise('KeyError', '', ex.where)


def m_dclear(ex, a, k):
    d = a[0]
    chk(ex, d)
    if d.d is not None:
        for x in list(d.d):
            ex.setitem(d.d, x, MISSING)
        return
    if isinstance(d.st, VecMap):
        ex.setattr(d, 'st', VecMap(lambda g: FALSE, ZERO, lambda g, e: FALSE, d.st.iget, lambda g: ZERO, None, None, d.st.ord))
        return
    st = d.st
    ex.setattr(d, 'st', MapState(st.codec, lambda *ks: FALSE, st.get, ZERO, ()))


def m_dupdate(ex, a, k):
    d = a[0]
    chk(ex, d)
    for o in a[1:]:
        for n in dict_items(ex, o):
            if not isinstance(n, Item):
                if isinstance(n, Loop) and isinstance(d, DictV) and ((d.d is not None and not d.d) or d.build is not None):
                    ex.setattr(d, 'build', (d.build or ()) + nrefresh((n,)))
                    continue
                raise Unsupported('dict.update')
            dict_set(ex, d, n.val[0], n.val[1])
    for kk, v in k.items():
        dict_set(ex, d, kk, v)


def m_dcopy(ex, a, k):
    return copy_dict(ex, a[0], deep=False)


def copy_dict(ex, d, deep, memo=None):
    if isinstance(d, InnerRef):
        st = d.owner.st
        g = d.g
        ms = MapState(HCODE, lambda e: st.ihas(g, e), lambda e: st.iget(g, e), st.inn(g))
        return DictV(st=ms)
    if d.default is not None and d.build is not None:
        raise Unsupported('copy of a grouping dictionary')
    norm_dict(ex, d)
    if d.d is not None:
        r = DictV({k: (deepcopy_val(ex, v, memo) if deep else v) for k, v in d.d.items()}, default=d.default)
    elif isinstance(d.st, VecMap):
        st = d.st
        r = DictV(st=VecMap(st.ghas, st.gn, st.ihas, st.iget, st.inn, st._gnodes, st._inodes, st.ord, None if deep else st.own))
        r.st.cid = st.cid
        if st._gnodes is None or st._inodes is None:
            groups_nodes(ex, d)
            inner_items(ex, InnerRef(d, app('anygroup', sort='U')))
            r.st._gnodes, r.st._inodes = st._gnodes, st._inodes
    else:
        r = DictV(st=d.st, default=d.default)
    if hasattr(d, 'cachegroups'):
        r.cachegroups = d.cachegroups
    return r


def deepcopy_val(ex, v, memo=None):
    if isinstance(v, (ListV, SetV)):
        nodes = nmap(v.nodes, lambda x: deepcopy_val(ex, x))
        return ListV(nodes) if isinstance(v, ListV) else SetV(nodes, v.uniq)
    if isinstance(v, tuple):
        return tuple(deepcopy_val(ex, x) for x in v)
    if isinstance(v, (DictV, InnerRef)):
        return copy_dict(ex, v, True)
    if isinstance(v, Tensor):
        r = Tensor(v.shape, v.fn, v.dt)
        return r
    if isinstance(v, RTensor):
        return RTensor(v.nodes, v.inner, v.axis, v.dt)
    if isinstance(v, Sparse):
        r = Sparse(v.nodes, v.dims, v.coal, v._dense, v._pat)
        return r
    if isinstance(v, ObjV):
        o = ObjV(v.cls, {k: deepcopy_val(ex, x) for k, x in v.attrs.items()}, (v.name or 'object') + "'")
        for extra in ('snap',):
            if hasattr(v, extra):
                setattr(o, extra, getattr(v, extra))
        return o
    if isinstance(v, HostObj):
        return v.deepcopy(ex)
    return v


def m_keys(ex, a, k):
    if isinstance(a[0], DictV) and a[0].default is None and norm_dict(ex, a[0]).d is None and isinstance(a[0].st, VecMap):
        return KeysIter(ex, a[0])
    return Iter(dict_keys(ex, a[0]) if isinstance(a[0], DictV) else nmap(inner_items(ex, a[0]), lambda kv: kv[0]))


DICT_METHODS = {'get': m_dget, 'keys': m_keys, 'values': lambda ex, a, k: Iter(nmap(dict_items(ex, a[0]), lambda kv: kv[1])), 'items': lambda ex, a, k: Iter(dict_items(ex, a[0])),
                'pop': m_dpop, 'clear': m_dclear, 'update': m_dupdate, 'copy': m_dcopy}


def m_setdefault(ex, a, k):
    h = dict_has(ex, a[0], a[1])
    if not (ex.decide(h) if isinstance(h, Term) else h):
        dict_set(ex, a[0], a[1], a[2] if len(a) > 2 else None)
    return dict_get(ex, a[0], a[1])


DICT_METHODS['setdefault'] = m_setdefault


def m_sadd(ex, a, k):
    chk(ex, a[0])
    if a[0].uniq and getattr(a[0], 'grow', False):
        if not ex.truth(set_member(ex, a[0], a[1])):
            ex.setattr(a[0], 'nodes', a[0].nodes + (Item(a[1]),))
        return
    ex.setattr(a[0], 'nodes', a[0].nodes + (Item(a[1]),))
    if a[0].uniq:
        a[0].uniq = False


def m_supdate(ex, a, k):
    chk(ex, a[0])
    for x in a[1:]:
        ex.setattr(a[0], 'nodes', a[0].nodes + tuple(nrefresh(iter_nodes(ex, x))))


def m_sunion(ex, a, k):
    return SetV(a[0].nodes + tuple(n for x in a[1:] for n in nrefresh(iter_nodes(ex, x))))


SET_METHODS = {'add': m_sadd, 'update': m_supdate, 'union': m_sunion, 'copy': lambda ex, a, k: SetV(a[0].nodes, a[0].uniq)}


def m_gappend(ex, a, k):
    g = a[0]
    ex.setattr(g.d, 'build', (g.d.build or ()) + (Item((g.k, a[1])),))


def m_gextend(ex, a, k):
    g = a[0]
    ex.setattr(g.d, 'build', (g.d.build or ()) + nmap(nrefresh(iter_nodes(ex, a[1])), lambda v: (g.k, v)))


GROUP_METHODS = {'append': m_gappend, 'extend': m_gextend}


def m_split(ex, a, k):
    if all(isinstance(x, str) for x in a):
        return ListV([Item(x) for x in a[0].split(*a[1:])])
    raise Unsupported('split')


def strfn(name):
    def f(ex, a, k):
        if all(isinstance(x, (str, int)) for x in a):
            return getattr(a[0], name)(*a[1:])
        ts = [strterm(x) if isinstance(x, str) else num(x) if isnumv(x) and not (isinstance(x, Term) and x.sort == 'U') else x for x in a]
        return app('str.' + name, *ts, sort='B' if name in ('startswith', 'endswith') else 'U')
    return f


STR_METHODS = {n: strfn(n) for n in ('startswith', 'endswith', 'replace', 'lower', 'upper', 'strip')}
STR_METHODS['split'] = m_split
def m_join(ex, a, k):
    l = [n.val for n in iter_nodes(ex, a[1])] if not isinstance(a[1], str) and all_items(iter_nodes(ex, a[1])) else None
    if isinstance(a[0], str) and l is not None and all(isinstance(x, str) for x in l):
        return a[0].join(l)
    return Opaque('text')


STR_METHODS['join'] = m_join
STR_METHODS['format'] = lambda ex, a, k: Opaque('text')


# ------------------------------------------------------------------------------------------- built-in functions
def b_len(ex, a, k):
    v = a[0]
    if isinstance(v, GroupRef):
        v = GroupList(ex, v.d, v.k)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, (ListV, SymTuple)):
        return pyint(nlen(nohole(v.nodes)))
    if isinstance(v, SetV):
        return pyint(nlen(set_nodes(ex, v)))
    if isinstance(v, VTup):
        return app('vlen', v.t, sort='I')
    if isinstance(v, (DictV, InnerRef)):
        r = dict_len(ex, v)
        return pyint(r) if isinstance(r, Term) else r
    if isinstance(v, RangeV):
        return pyint(v.length())
    if isinstance(v, Iter):
        return pyint(nlen(v.nodes))
    if isinstance(v, (Tensor,)):
        return pyint(v.shape[0])
    if isinstance(v, RTensor):
        return pyint(nlen(v.nodes)) if v.axis == 0 else v.inner
    if isinstance(v, ObjV):
        if isinstance(v.cls, Ext) and v.cls.name in ('nn.ModuleList', 'nn.Sequential'):
            return b_len(ex, [v.attrs['items']], {})
        m = ex.find_member(v.cls, '__len__')
        if m:
            return ex.call(ex.bind(m, v))
    raise Unsupported('len of %s' % type(v).__name__)


def pyint(t):
    if isinstance(t, Term) and t.op == 'const' and t.sort == 'I':
        return int(t.args[0])
    return t


def b_range(ex, a, k):
    a = [pyint(x) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0])
    return RangeV(*a)


def b_enumerate(ex, a, k):
    nodes = nohole(iter_nodes(ex, a[0]))
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if start != 0:
        raise Unsupported('enumerate start')
    return Iter(enum_nodes(nodes, ex))


def ragged(n):
    return len(n.body) == 1 and isinstance(n.body[0], Loop) and n.var in fv(n.body[0].hi) and len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], Item)


def renumber(ex, n):
    """Length and element function of the pieces of a ragged loop laid end to end."""
    from . import tlib
    b = n.body[0]
    at, tot = tlib.concat_index(ex, n.var, n.hi, b.hi)

    def el(c):
        q, p = at(c)
        return nsubst((Item(b.body[0].val),), {n.var: q, b.var: p})[0].val
    return tot, el


def enum_nodes(nodes, ex=None):
    out, off = [], ZERO
    for n in nodes:
        if isinstance(n, Item):
            out.append(Item((pyint(off), n.val)))
            off = add(off, ONE)
        elif isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], Item):
            out.append(Loop(n.var, n.hi, (Item((add(off, n.var), n.body[0].val)),)))
            off = add(off, n.hi)
        elif ex is not None and ragged(n):
            # pieces of different lengths: renumbered by the positions of their concatenation
            tot, at = renumber(ex, n)
            c = fresh('q')
            out.append(Loop(c, tot, (Item((add(off, c), at(c))),)))
            off = add(off, tot)
        else:
            # position = number of earlier elements
            def rec(nodes, pre):
                r = []
                p = pre
                for m in nodes:
                    if isinstance(m, Item):
                        r.append(Item((p, m.val)))
                        p = add(p, ONE)
                    elif isinstance(m, Loop):
                        u = fresh('u')
                        inner = nlen(nsubst(m.body, {m.var: u}))
                        before = add(p, sum_(((u, m.var),), inner))
                        r.append(Loop(m.var, m.hi, rec(m.body, before)))
                        p = add(p, nlen((m,)))
                    else:
                        r.append(If(m.cond, rec(m.body, p)))
                        p = add(p, nlen((m,)))
                return tuple(r)
            out += list(rec((n,), off))
            off = add(off, nlen((n,)))
    return tuple(out)


def b_zip(ex, a, k):
    ns = [nohole(iter_nodes(ex, x)) for x in a]
    z = nzip(*ns)
    if z is not None:
        return Iter(z)
    if all(len(n) == 1 and isinstance(n[0], Loop) and segments(n) for n in ns) or all(segments(n) is not None for n in ns):
        lens = [nlen(n) for n in ns]
        l0 = lens[0]
        m = l0
        for l in lens[1:]:
            if not ex.entailed(eq(l, l0)):
                m = tmin(m, l)
        q = fresh('q')
        return Iter((Loop(q, m, (Item(tuple(at_index(ex, n, q) for n in ns)),)),))
    raise Unsupported('zip of unaligned sequences')


def b_list(ex, a, k):
    if a and isinstance(a[0], KeysIter):
        return KeysList(a[0])
    return ListV(nrefresh(iter_nodes(ex, a[0]))) if a else ListV([])


def b_tuple(ex, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, (tuple, VTup)):
        return v
    for at in ('canon', 'vt'):
        if isinstance(v, ListV) and getattr(v, at, None) is not None and getattr(v, at)[1] is v.nodes:
            return VTup(getattr(v, at)[0])
    ns = iter_nodes(ex, v)
    if all_items(ns):
        return tuple(n.val for n in ns)
    return SymTuple(ns)


def b_set(ex, a, k):
    if not a:
        return SetV([])
    if isinstance(a[0], SetV):
        return SetV(a[0].nodes, a[0].uniq)
    return SetV(nrefresh(iter_nodes(ex, a[0])))


def b_dict(ex, a, k):
    if not a:
        return DictV(dict(k))
    if isinstance(a[0], (DictV, InnerRef)):
        r = copy_dict(ex, a[0], False)
        for kk, v in k.items():
            dict_set(ex, r, kk, v)
        return r
    return dict_of_nodes(ex, iter_nodes(ex, a[0]))


def b_sorted(ex, a, k):
    v = a[0]
    rev = k.get('reverse', False)
    key = k.get('key')
    nodes = iter_nodes(ex, v)
    if key is not None or rev:
        if all_items(nodes) and len(nodes) <= 1:
            return ListV(nodes)
        raise Unsupported('sorted with a key')
    if isinstance(v, ListV) and getattr(v, 'vt', None) is not None and v.vt[1] is v.nodes:
        v = VTup(v.vt[0])
    if isinstance(v, VTup):
        t = v.t if v.t.op == 'app' and v.t.args[0] == 'canon' else app('canon', v.t, sort='U')
        r = ListV(VTup(t).nodes())
        r.canon = (t, r.nodes)
        return r
    if all_items(nodes) and len(nodes) == 2 and all(isnumv(n.val) for n in nodes):
        x, y = num(nodes[0].val), num(nodes[1].val)
        return ListV([Item(ite(le(x, y), x, y)), Item(ite(le(x, y), y, x))])
    if all_items(nodes) and all(isinstance(n.val, (int, str)) for n in nodes):
        return ListV([Item(x) for x in sorted(n.val for n in nodes)])
    if all_items(nodes) and len(nodes) <= 1:
        return ListV(nodes)
    # a set: enumerate its members; the order is ascending
    if isinstance(v, (SetV,)) or (isinstance(v, ListV) and is_uniq(ex, v)):
        s = v if isinstance(v, SetV) else SetV(v.nodes, True)
        return ListV(sorted_enum(ex, s))
    raise Unsupported('sorted of a symbolic list')


def is_uniq(ex, v):
    sm = simple(v.nodes)
    return False


def sorted_enum(ex, s):
    """Ascending enumeration of a set: key(q) with inverse, strictly increasing."""
    if ex.loop_vars:
        raise Unsupported('sorted set inside a loop')
    ls = list(leaves(nohole(s.nodes)))
    if not ls:
        return ()
    codec = codec_for(ls[0][2])
    if len(codec.sorts) != 1:
        raise Unsupported('sorted set of tuples')
    key = ('sortenum', tuple(sorted(norm.akey(exists(bs, and_(*(cs + [app('$member', codec.enc(v)[0], sort='B')])))) for bs, cs, v in ls)))
    hit = ex.suite_memo.get(key) if hasattr(ex, 'suite_memo') else None
    if hit is not None:
        return nrefresh(hit)
    has = lambda *a: or_(*[exists(bs, and_(*(cs + [eq(codec.enc(v)[0], a[0])]))) for bs, cs, v in ls])
    nm = uniq('so')
    n = app(nm + '_n', sort='I')
    ex.th.axiom(nm + '_n', lambda: [le(ZERO, n)])
    nodes = nmap(enumerate_map(ex.th, codec, has, lambda *a: None, n, name=nm), lambda kv: kv[0])
    if not hasattr(ex, 'suite_memo'):
        ex.suite_memo = {}
    ex.suite_memo[key] = nodes
    ex.suite_memo[('enumname', nm)] = True
    # ascending order
    lessf = (lambda x, y: lt(x, y)) if codec.sorts[0] == 'I' else (lambda x, y: app('strlt', x, y, sort='B'))
    kf = lambda p: app(nm + '_k0', p, sort=codec.sorts[0])
    ex.assume(TRUE)
    q1, q2 = fresh('a'), fresh('b')
    ex.sorted_info = getattr(ex, 'sorted_info', {})
    ex.sorted_info[nm] = (codec, has, n, kf, lessf)
    return nrefresh(nodes)


def fold2(ex, f, vals):
    r = vals[0]
    for x in vals[1:]:
        r = f(r, x)
    return r


def b_max(ex, a, k, f=None):
    f = f or tmax
    if len(a) == 1:
        ns = iter_nodes(ex, a[0])
        if all_items(ns) and ns:
            a = [n.val for n in ns]
        else:
            if ex.decide(eq(nlen(ns), ZERO)):
                raise PyRaise('ValueError', 'empty', ex.where)
            nm = 'max' if f is tmax else 'min'
            r = ex.fresh(nm, 'R' if any(num(v).sort == 'R' for _, _, v in leaves(ns)) else 'I')
            # an upper bound that is attained
            ex.assume(or_(*[exists(bs, and_(*(cs + [eq(num(v), r)]))) for bs, cs, v in leaves(ns)]))
            for bs, cs, v in leaves(ns):
                c = le(num(v), r) if f is tmax else le(r, num(v))
                ex.assume(forall(bs, implies(and_(*cs), c)))
            return r
    if all(not isinstance(x, Term) for x in a):
        return (max if f is tmax else min)(a)
    if any(isinstance(x, InfV) for x in a):
        raise Unsupported('max with infinity')
    if 'key' in k:
        raise Unsupported('max with a key')
    return fold2(ex, lambda x, y: f(num(x), num(y)), a)


def b_min(ex, a, k):
    return b_max(ex, a, k, tmin)


def b_sum(ex, a, k):
    ns = iter_nodes(ex, a[0])
    start = num(a[1]) if len(a) > 1 else ZERO
    if all_items(ns) and any(isinstance(n.val, (Tensor, RTensor, Sparse)) for n in ns):
        r = ns[0].val
        for n in ns[1:]:
            r = binop(ex, 'add', r, n.val)
        return r
    sm = simple(ns)
    if sm and isinstance(sm[2], Tensor):
        T = sm[2]
        vs = [fresh('t') for _ in T.shape]
        if sm[0] in set().union(*[fv(s) for s in T.shape]) if T.shape else False:
            raise Unsupported('sum of tensors of varying shape')
        body = T.fn(*vs)
        return Tensor(T.shape, lambda *ix: subst(sum_(((sm[0], sm[1]),), body), dict(zip(vs, ix))), T.dt)
    return pyint(add(start, *[sum_(bs, iverson(and_(*cs), boolnum(num(v)))) for bs, cs, v in leaves(ns)]))


def boolnum(t):
    return ite(t, ONE, ZERO) if t.sort == 'B' else t


def b_abs(ex, a, k):
    v = a[0]
    if isinstance(v, (Tensor, RTensor)):
        from . import tlib
        return tlib.emap(ex, lambda x: ite(le(ZERO, x), x, mul(const(-1), x)), v)
    if not isinstance(v, Term):
        return abs(v)
    return ite(le(ZERO, v), v, mul(const(-1), v))


def b_int(ex, a, k):
    v = a[0]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, Tensor) and not v.shape:
        v = v.fn()
    if isinstance(v, Term):
        if v.sort == 'I':
            return v
        if v.sort == 'B':
            return ite(v, ONE, ZERO)
        if v.sort == 'R':
            # truncation towards zero
            if ex.entailed(le(ZERO, v)):
                return app('ifloor', canon1(ex, v), sort='I')
            if ex.decide(le(ZERO, v)):
                return app('ifloor', canon1(ex, v), sort='I')
            return app('iceil', canon1(ex, v), sort='I')
        return app('int', v, sort='I')
    raise Unsupported('int()')


def canon1(ex, t):
    try:
        return norm.Norm(ex.th, []).canon(t)
    except norm.TooHard:
        return t


def b_float(ex, a, k):
    v = a[0]
    if isinstance(v, str):
        if v in ('inf', '+inf', 'Inf'):
            return InfV(1)
        if v == '-inf':
            return InfV(-1)
        return float(v)
    if isinstance(v, Tensor) and not v.shape:
        return v.fn()
    if isinstance(v, Term):
        return v
    return float(v)


def b_str(ex, a, k):
    v = a[0]
    if hasattr(v, 'text'):
        v = v.text()
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Term):
        if v.sort == 'U':
            if v.op == 'app' and v.args[0] in ('str', ) or v.op == 'app' and v.args[0].startswith('str:'):
                return v
            return app('str', v, sort='U')
        return app('str', v, sort='U')
    return Opaque('text')


def b_bool(ex, a, k):
    return ex.truth(a[0]) if not (isinstance(a[0], Term) and a[0].sort == 'B') else a[0]


TYPES = {'int': lambda v: (isinstance(v, int)) or (isinstance(v, Term) and v.sort in 'IB'), 'float': lambda v: isinstance(v, (float, Fraction)) or (isinstance(v, Term) and v.sort == 'R') or isinstance(v, InfV),
         'str': lambda v: isinstance(v, str) or (isinstance(v, Term) and v.sort == 'U' and not getattr(v, 'notstr', False)), 'list': lambda v: isinstance(v, ListV) and v.kind == 'list',
         'tuple': lambda v: isinstance(v, (tuple, SymTuple, VTup)),
         'dict': lambda v: isinstance(v, (DictV, InnerRef)), 'set': lambda v: isinstance(v, SetV), 'bool': lambda v: isinstance(v, bool) or (isinstance(v, Term) and v.sort == 'B'),
         'torch.Tensor': lambda v: isinstance(v, (Tensor, RTensor, Sparse)) and getattr(v, 'tag', None) != 'np', 'np.ndarray': lambda v: isinstance(v, (Tensor, RTensor)) and getattr(v, 'tag', None) == 'np',
         'numpy.ndarray': lambda v: isinstance(v, (Tensor, RTensor)) and getattr(v, 'tag', None) == 'np', 'nn.Module': lambda v: isinstance(v, ObjV),
         'int_': None}


def cname(c):
    if isinstance(c, HostFn):
        return c.name
    if isinstance(c, Ext):
        return extname(c.name)
    return None


def b_isinstance(ex, a, k):
    from . import tlib
    v, c = a
    if isinstance(c, tuple):
        return any(b_isinstance(ex, [v, x], {}) for x in c)
    if isinstance(v, Poison):
        raise Unsupported('poison')
    if isinstance(c, ClassV):
        return isinstance(v, ObjV) and isinstance(v.cls, ClassV) and ex.is_sub(v.cls, c)
    n = cname(c)
    if n in TYPES and TYPES[n]:
        if isinstance(v, Opaque):
            if getattr(v, 'types', None) is not None:
                return n in v.types
            raise Unsupported('isinstance of an opaque value')
        return TYPES[n](v)
    if isinstance(v, ObjV) and isinstance(v.cls, Ext):
        return extname(v.cls.name) == n
    if n in ('Path', 'pathlib.Path'):
        return isinstance(v, HostObj) and getattr(v, 'kind', None) == 'path'
    if n in ('abc.Callable', 'Callable', 'typing.Callable', 'collections.abc.Callable'):
        return isinstance(v, (FuncV, BoundV, HostFn))
    if n in ('Iterable', 'collections.abc.Iterable'):
        return isinstance(v, (ListV, tuple, SetV, DictV, SymTuple, VTup, str))
    if n and n.startswith('scipy.sparse.') and isinstance(v, (Tensor, tlib.RTensor, ListV, Term, int, float)):
        return False
    raise Unsupported('isinstance against %s' % (n or c))


def b_type(ex, a, k):
    v = a[0]
    if isinstance(v, ObjV):
        return v.cls
    for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
        if TYPES[n](v):
            return BUILTINS.get(n, Ext('builtins.' + n))
    raise Unsupported('type()')


def b_getattr(ex, a, k):
    try:
        if not isinstance(a[1], str):
            raise Unsupported('getattr with a symbolic name')
        return ex.getattr(a[0], a[1])
    except PyRaise as e:
        if e.kind == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


def b_hasattr(ex, a, k):
    try:
        ex.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.kind == 'AttributeError':
            return False
        raise


def b_any(ex, a, k):
    ns = iter_nodes(ex, a[0])
    return or_(*[exists(bs, and_(*(cs + [tobool(v)]))) for bs, cs, v in leaves(ns)])


def b_all(ex, a, k):
    ns = iter_nodes(ex, a[0])
    return and_(*[forall(bs, implies(and_(*cs), tobool(v))) for bs, cs, v in leaves(ns)])


def tobool(v):
    if isinstance(v, bool):
        return const(v)
    if isinstance(v, Term):
        return v if v.sort == 'B' else ne(v, ZERO)
    if v is None:
        return FALSE
    raise Unsupported('truth value')


def b_map(ex, a, k):
    f = a[0]
    out = ListV([])
    ns = iter_nodes(ex, a[1])

    def body(v):
        m_append(ex, [out, ex.call(f, [v])], {})
    from . import loops
    loops.run_for(ex, ns, body)
    return Iter(out.nodes)


def b_filter(ex, a, k):
    f = a[0]
    out = ListV([])

    def body(v):
        if ex.truth(ex.call(f, [v]) if f is not None else v):
            m_append(ex, [out, v], {})
    from . import loops
    loops.run_for(ex, iter_nodes(ex, a[1]), body)
    return Iter(out.nodes)


def b_reversed(ex, a, k):
    return Iter(reverse_nodes(nohole(iter_nodes(ex, a[0]))))


def b_print(ex, a, k):
    return None


def b_id(ex, a, k):
    return Opaque('id')


def b_round(ex, a, k):
    if all(not isinstance(x, Term) for x in a):
        return round(*a)
    if isinstance(a[0], Term) and a[0].sort in 'IR' and (len(a) == 1 or a[1] in (0, None)):
        return a[0] if a[0].sort == 'I' else app('iround', canon1(ex, a[0]), sort='I')
    raise Unsupported('round')


def b_property(ex, a, k):
    return a[0]


def b_open(ex, a, k):
    return ex.suite.fs_open(ex, a, k)


BUILTINS = {n: HostFn(n, f) for n, f in dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, set=b_set, dict=b_dict, sorted=b_sorted, max=b_max, min=b_min,
            sum=b_sum, abs=b_abs, int=b_int, float=b_float, str=b_str, bool=b_bool, isinstance=b_isinstance, type=b_type, getattr=b_getattr, hasattr=b_hasattr, any=b_any, all=b_all, map=b_map,
            filter=b_filter, reversed=b_reversed, print=b_print, id=b_id, round=b_round, open=b_open,
            iter=lambda ex, a, k: a[0], repr=lambda ex, a, k: Opaque('text')).items()}


# ------------------------------------------------------------------------------------------- external functions
ALIAS = {'numpy': 'np', 'torch.nn.functional': 'F', 'torch.nn': 'nn', 'numpy.': 'np.'}


def extname(n):
    if n.startswith('builtins.'):
        return n[9:]
    for a, b in (('torch.nn.functional', 'F'), ('torch.nn', 'nn'), ('numpy', 'np')):
        if n == a:
            return b
        if n.startswith(a + '.'):
            return b + n[len(a):]
    return n


def ext_attr(ex, o, name):
    n = extname(o.name + '.' + name)
    from . import tlib
    if n in ('np.inf', 'math.inf'):
        return InfV(1)
    if n in ('np.newaxis',):
        return None
    if n == 'math.pi':
        return app('pi', sort='R')
    if n in ('math.e',):
        return app('e', sort='R')
    return Ext(o.name + '.' + name)


def call_ext(ex, name, args, kw):
    from . import tlib
    n = extname(name)
    f = ex.suite.externals.get(n)
    if f is not None:
        return f(ex, args, kw)
    f = EXT.get(n) or tlib.TORCH.get(n)
    if f is not None:
        return f(ex, args, kw)
    if n in EXC_PARENT:
        o = Opaque('exception')
        o.exc = n
        return o
    if n.split('.')[-1] in EXC_PARENT and n.startswith('builtins'):
        o = Opaque('exception')
        o.exc = n.split('.')[-1]
        return o
    bare = not [x for x in args if x is not None] and not kw
    if n in UNSEEDED or n.startswith('secrets.') or bare and n in UNSEEDED_BARE:
        ex.events.append(('unseeded', n))
        if ex.__dict__.get('seed_guard'):
            ex.fail('draws only from the seeded generators', '%s at %s' % (n, ex.where))
            raise PathEnd()
    raise Unsupported('external function %s' % n)


# sources of chance that set_seed does not determine
UNSEEDED = {'os.urandom', 'random.SystemRandom', 'uuid.uuid4', 'uuid.uuid1', 'torch.seed'}
UNSEEDED_BARE = {'random.Random', 'random.seed', 'np.random.seed', 'np.random.default_rng', 'np.random.RandomState', 'numpy.random.seed', 'numpy.random.default_rng', 'numpy.random.RandomState'}


def e_deepcopy(ex, a, k):
    return deepcopy_val(ex, a[0])


def e_copy(ex, a, k):
    v = a[0]
    if isinstance(v, ListV):
        return ListV(nohole(v.nodes))
    if isinstance(v, DictV):
        return copy_dict(ex, v, False)
    if isinstance(v, tuple):
        return v
    raise Unsupported('copy.copy')


def e_defaultdict(ex, a, k):
    f = a[0] if a else None
    if isinstance(f, HostFn) and f.name == 'list':
        return DictV({}, default=lambda ex: ListV([]))
    if isinstance(f, HostFn) and f.name == 'dict':
        return TableV()
    if f is not None:
        return DictV({}, default=lambda ex: ex.call(f, []))
    raise Unsupported('defaultdict')


def e_rand(ex, a, k):
    t = ex.fresh('rnd', 'R')
    nm = t.args[0]
    ex.th.axiom(nm, lambda *x: [le(RZERO, app(nm, *x, sort='R')), lt(app(nm, *x, sort='R'), const(1, 'R'))])
    ex.events.append(('random', 'random.random'))
    return t


def e_choice(ex, a, k):
    ns = iter_nodes(ex, a[0])
    n = nlen(ns)
    if ex.decide(le(n, ZERO)):
        raise PyRaise('IndexError', '', ex.where)
    t = ex.fresh('pick', 'I')
    nm = t.args[0]
    ex.assume(and_(le(ZERO, t), lt(t, n)))
    ex.events.append(('random', 'random.choice'))
    if segments(ns) is None:
        # some element: fresh witnesses for the binders of one of the leaves
        ls = list(leaves(ns))
        for i, (bs, cs, v) in enumerate(ls):
            if i + 1 < len(ls) and not ex.decide(ex.fresh('which', 'B')):
                continue
            ren = {}
            for b, h in bs:
                w = ex.fresh('pick', 'I')
                ex.assume(and_(le(ZERO, w), lt(w, subst(h, ren))))
                ren[b] = w
            ex.assume(and_(*[subst(c, ren) for c in cs]))
            return nsubst((Item(v),), ren)[0].val
    return at_index(ex, ns, t)


def e_randrange(ex, a, k):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    t = ex.fresh('rr', 'I')
    if ex.decide(le(num(hi), num(lo))):
        raise PyRaise('ValueError', '', ex.where)
    ex.assume(and_(le(num(lo), t), lt(t, num(hi))))
    ex.events.append(('random', 'random.randrange'))
    return t


def e_shuffle(ex, a, k):
    """random.shuffle: the list is rearranged by an unknown permutation."""
    l = a[0]
    from . import tlib
    ex.events.append(('random', 'random.shuffle'))
    if isinstance(l, (Tensor, RTensor)):
        ns = tlib.tensor_rows(ex, l)
    else:
        ns = nohole(l.nodes)
    if getattr(l, 'frozen', None):
        ex.frame.append('%s: modifies %s' % (ex.where, l.frozen))
    n = canon1(ex, nlen(ns))
    nm = uniq('perm')
    pre = tuple(ex.loop_vars)
    if len(ns) == 1 and isinstance(ns[0], Loop) and len(ns[0].body) == 1 and isinstance(ns[0].body[0], If) and len(ns[0].body[0].body) == 1 and isinstance(ns[0].body[0].body[0], Item):
        # the selected positions, in an unknown order
        v, h, c, val = ns[0].var, ns[0].hi, ns[0].body[0].cond, ns[0].body[0].body[0].val
        m = lambda p: dict(zip(pre, p))
        register_enum(ex.th, [nm], nm + '_inv', 'I', lambda p, ks: and_(le(ZERO, ks[0]), lt(ks[0], subst(h, m(p))), subst(c, dict(m(p), **{}) | {v: ks[0]})), lambda *p: subst(n, m(p)), npre=len(pre))
        ex.th.inverses[-1].range = lambda p: subst(h, m(p))
        q = fresh('q')
        new = (Loop(q, n, nsubst((Item(val),), {v: app(nm, *(pre + (q,)), sort='I')})),)
        return shuffled(ex, l, new)
    register_enum(ex.th, [nm], nm + '_inv', 'I', lambda p, ks: and_(le(ZERO, ks[0]), lt(ks[0], subst(n, dict(zip(pre, p))))), lambda *p: subst(n, dict(zip(pre, p))), npre=len(pre))
    ex.th.inverses[-1].range = lambda p: subst(n, dict(zip(pre, p)))
    q = fresh('q')
    idx = app(nm, *(pre + (q,)), sort='I')
    if segments(ns) is not None:
        val = at_index(ex, ns, idx)
    else:
        sel = ragged_select(ex, ns)
        val = sel(idx)
    shuffled(ex, l, (Loop(q, n, (Item(val),)),))


def shuffled(ex, l, new):
    from . import tlib
    if isinstance(l, RTensor) and l.inner is None:
        tlib.touch(ex, l)
        ex.setattr(l, 'nodes', new)
    elif isinstance(l, (Tensor, RTensor)):
        t = tlib.from_nodes(ex, new, dt=l.dt)
        tlib.write_into(ex, l, t)
    else:
        ex.setattr(l, 'nodes', new)


def ragged_select(ex, ns):
    raise Unsupported('shuffle of a ragged list')


def e_partial(ex, a, k):
    f, pa = a[0], list(a[1:])
    r = HostFn('partial', lambda ex, a2, k2: ex.call(f, pa + list(a2), dict(k, **k2)))
    r.partial = (f, pa, dict(k))
    return r


def e_wraps(ex, a, k):
    return HostFn('wraps', lambda ex, a2, k2: a2[0])


def e_mathlog(ex, a, k):
    from . import tlib
    x = num(a[0])
    if ex.decide(le(x, ZERO)):
        raise PyRaise('ValueError', 'math domain error', ex.where)
    if len(a) > 1:
        raise Unsupported('log base')
    return tlib.fn1('log', x)


def e_mathexp(ex, a, k):
    from . import tlib
    return tlib.fn1('exp', num(a[0]))


def e_sqrt(ex, a, k):
    from . import tlib
    return tlib.fn1('sqrt', num(a[0]))


def e_noop(ex, a, k):
    return None


def e_permutations(ex, a, k):
    if len(a) == 2 and a[1] == 2:
        ns = iter_nodes(ex, a[0])
        s = simple(ns)
        if s:
            i, j = fresh('i'), fresh('j')
            vi, vj = vsubst(s[2], {s[0]: i}), vsubst(s[2], {s[0]: j})
            return Iter((Loop(i, s[1], (Loop(j, s[1], (If(ne(i, j), (Item((vi, vj)),)),)),)),))
    raise Unsupported('permutations')


def e_combinations(ex, a, k):
    if len(a) == 2 and a[1] == 2:
        ns = iter_nodes(ex, a[0])
        s = simple(ns)
        if s:
            i, j = fresh('i'), fresh('j')
            vi, vj = vsubst(s[2], {s[0]: i}), vsubst(s[2], {s[0]: j})
            return Iter((Loop(i, s[1], (Loop(j, s[1], (If(lt(i, j), (Item((vi, vj)),)),)),)),))
    if len(a) == 2 and isinstance(a[0], RangeV) and isinstance(a[1], Term) and a[1].sort == 'I' and not ex.loop_vars:
        # itertools.combinations(range, k): every ascending k-tuple of range members once
        if ex.decide(lt(a[1], ZERO)):
            raise PyRaise('ValueError', 'r must be non-negative', ex.where)
        nm = uniq('comb')
        n = app(nm + '_n', sort='I')
        ex.th.axiom(nm + '_n', lambda: [le(ZERO, n)])
        inr = lambda v: and_(contains(ex, a[0], v)) if isinstance(contains(ex, a[0], v), Term) else lift(contains(ex, a[0], v))
        has = lambda t: app(nm + '_in', t, sort='B')
        ex.th.axiom(nm + '_in', lambda t: [implies(has(t), eq(app('vlen', t, sort='I'), a[1])), implies(has(t), eq(app('canon', t, sort='U'), t))])
        ex.th.axiom('vmem', lambda t, v: [implies(and_(has(t), app('vmem', t, v, sort='B')), inr(v))])
        ex.events.append(('combinations', nm, n, has, a[0], a[1]))
        return Iter(nmap(enumerate_map(ex.th, VT, has, lambda *x: None, n, name=nm), lambda kv: kv[0]))
    raise Unsupported('combinations')


def e_sample(ex, a, k):
    """random.sample(population, k): k different positions of the population, in any order."""
    from . import tlib
    pop, cnt = a[0], a[1]
    if not (isinstance(pop, RangeV) and pop.step == 1) or ex.loop_vars:
        raise Unsupported('random.sample')
    n = num(pop.length())
    if ex.decide(or_(lt(num(cnt), ZERO), lt(n, num(cnt)))):
        raise PyRaise('ValueError', 'Sample larger than population or is negative', ex.where)
    ex.events.append(('random', 'random.sample'))
    t = ex.fresh('samp', 'U')
    ex.assume(eq(app('vlen', t, sort='I'), num(cnt)))
    inr = lambda v: and_(le(num(pop.lo), v), lt(v, num(pop.hi)))
    ex.th.axiom('vmem', lambda s, v: [implies(and_(eq(s, t), app('vmem', s, v, sort='B')), inr(v))])
    ex.events.append(('sample', t, inr, num(cnt)))
    ct = app('canon', t, sort='U')
    ex.assume(eq(app('vlen', ct, sort='I'), num(cnt)))
    ex.th.axiom('vmem', lambda s, v: [implies(and_(eq(s, ct), app('vmem', s, v, sort='B')), app('vmem', t, v, sort='B'))])
    r = ListV(VTup(t).nodes())
    r.vt = (t, r.nodes)
    return r


def e_choices(ex, a, k):
    """random.choices: some members of the population, independently."""
    pop = a[0]
    ws = a[1] if len(a) > 1 else k.get('weights')
    cnt = k.get('k', 1)
    if set(k) - {'weights', 'k'} or len(a) > 2 or cnt != 1:
        raise Unsupported('random.choices')
    if ws is not None and not ex.entailed(eq(nlen(iter_nodes(ex, ws)), nlen(iter_nodes(ex, pop)))):
        raise Unsupported('random.choices: number of weights')
    return ListV([Item(e_choice(ex, [pop], {}))])


def e_product(ex, a, k):
    if len(a) == 2:
        s, t = simple(iter_nodes(ex, a[0])), simple(iter_nodes(ex, a[1]))
        if s and t:
            i, j = fresh('i'), fresh('j')
            return Iter((Loop(i, s[1], (Loop(j, t[1], (Item((vsubst(s[2], {s[0]: i}), vsubst(t[2], {t[0]: j}))),)),)),))
    raise Unsupported('product')


EXT = {'random.sample': e_sample, 'random.choices': e_choices, 'copy.deepcopy': e_deepcopy, 'copy.copy': e_copy, 'collections.defaultdict': e_defaultdict, 'random.random': e_rand, 'random.choice': e_choice, 'random.randrange': e_randrange,
       'random.shuffle': e_shuffle, 'functools.partial': e_partial, 'functools.wraps': e_wraps, 'math.log': e_mathlog, 'math.exp': e_mathexp, 'math.sqrt': e_sqrt, 'warnings.warn': e_noop,
       'itertools.permutations': e_permutations, 'itertools.combinations': e_combinations, 'itertools.product': e_product}


def enter(ex, v):
    if isinstance(v, HostObj):
        return v.enter(ex)
    if isinstance(v, Ext) or isinstance(v, Opaque):
        return v
    raise Unsupported('with %s' % type(v).__name__)


def module_base(ex, c):
    """Hook for classes that derive from nn.Module."""
    for b in ex.mro(c):
        if isinstance(b, Ext) and extname(b.name) in ('nn.Module',):
            return lambda ex, o: o.attrs.setdefault('training', False)
    return None


def obj_attr(ex, o, name):
    from . import tlib
    if isinstance(o.cls, Ext):
        return tlib.layer_attr(ex, o, name)
    if name in ('eval', 'train', 'to', 'cpu', 'cuda'):
        return HostFn(name, lambda ex, a, k: o)
    if name == '__dict__':
        return DictV(dict(o.attrs))
    return MISSING


def class_attr(ex, c, name):
    raise PyRaise('AttributeError', name, ex.where)
