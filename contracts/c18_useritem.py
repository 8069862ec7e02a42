"""P18: user-item datasets; P16: edge lists and adjacency lists."""
from pyvc.spec import *
from pyvc.loops import WhileSpec
from pyvc import lib
from contracts.structs import elements, members_once, list_eq

DS = 'dhg.utils.dataset_wrapers:UserItemDataset'
U = 'dhg.utils.structure'


def interactions(ex, name, nu, ni):
    """A list of (user, item) pairs of arbitrary length."""
    L = isym(ex, name + '_len', 0)
    a, b = (lambda p: app(name + '_u', lift(p), sort='I')), (lambda p: app(name + '_i', lift(p), sort='I'))
    ex.th.axiom(name + '_u', lambda p: [implies(and_(le(ZERO, p), lt(p, L)), and_(le(ZERO, a(p)), lt(a(p), nu)))])
    ex.th.axiom(name + '_i', lambda p: [implies(and_(le(ZERO, p), lt(p, L)), and_(le(ZERO, b(p)), lt(b(p), ni)))])
    p = fresh('p')
    lst = ListV((Loop(p, L, (Item((a(p), b(p))),)),), frozen='the caller interaction list')
    return L, a, b, lst


def recorded(L, a, b, u, i):
    return exists_(L, lambda p: and_(eq(a(p), u), eq(b(p), i)))


def dataset(ex, **kw):
    nu, ni = isym(ex, 'users', 1), isym(ex, 'items', 1)
    L, a, b, lst = interactions(ex, 'rec', nu, ni)
    o = ex.instantiate(getcls(ex, DS), [nu, ni, lst], kw)
    return o, nu, ni, L, a, b


def in_range(ni):
    return lambda ex, vs: and_(*[and_(le(ZERO, v), lt(v, ni)) for v in vs.values() if lift(v).sort == 'I'])


def triple(ex, r, nu, ni, L, a, b):
    if not (isinstance(r, tuple) and len(r) == 3):
        ex.fail('a triple', 'not a triple')
        return None
    u, pos, neg_ = map(lift, r)
    ex.check('the user is in range', and_(le(ZERO, u), lt(u, nu)))
    ex.check('the positive item is a recorded interaction of the user', recorded(L, a, b, u, pos))
    ex.check('the negative item is in range', and_(le(ZERO, neg_), lt(neg_, ni)))
    ex.check('the negative item is no recorded interaction of the user', not_(recorded(L, a, b, u, neg_)))
    return u, pos, neg_


@contract('UserItemDataset training, strict', ['P18', 'P27'], [DS + '.__init__', DS + '.__getitem__', DS + '.sample_neg_item', U + ':edge_list_to_adj_dict'])
def _(ex):
    o, nu, ni, L, a, b = dataset(ex)
    ex.loop_specs.append(WhileSpec(in_range(ni), 'negative sampling'))
    k = isym(ex, 'index', 0)
    ex.assume(lt(k, L))
    r = ex.call(ex.getattr(o, '__getitem__'), [k], {})
    t = triple(ex, r, nu, ni, L, a, b)
    if t:
        ex.check('sample k is the k-th interaction', and_(eq(t[0], a(k)), eq(t[1], b(k))))
    unchanged(ex)


@contract('UserItemDataset training, free', ['P18', 'P27'], [DS + '.__getitem__', DS + '.sample_triplet', DS + '.sample_neg_item'])
def _(ex):
    o, nu, ni, L, a, b = dataset(ex, strict_link=False, phase='train')
    ex.loop_specs.append(WhileSpec(in_range(ni), 'negative sampling'))
    k = isym(ex, 'index', 0)
    kind, r = raises(ex, lambda: ex.call(ex.getattr(o, '__getitem__'), [k], {}))
    if kind:
        # documented precondition: every user has an interaction
        q = fresh('q')
        ex.check('only refused for a user without interactions', exists(((q, nu),), not_(exists_(L, lambda p: eq(a(p), q)))))
        return
    triple(ex, r, nu, ni, L, a, b)
    unchanged(ex)


@contract('UserItemDataset testing', ['P18'], [DS + '.__init__', DS + '.__getitem__'])
def _(ex):
    nu, ni = isym(ex, 'users', 1), isym(ex, 'items', 1)
    L, a, b, lst = interactions(ex, 'rec', nu, ni)
    TL, ta, tb_, tlst = interactions(ex, 'train', nu, ni)
    o = ex.instantiate(getcls(ex, DS), [nu, ni, lst, tlst], {'phase': 'test', 'strict_link': bsym(ex, 'strict')})
    k = isym(ex, 'index', 0)
    ex.assume(lt(k, nu))
    r = ex.call(ex.getattr(o, '__getitem__'), [k], {})
    if not (isinstance(r, tuple) and len(r) == 3):
        ex.fail('a triple', 'not a triple')
        return
    ex.check('the user', eq(lift(r[0]), k))
    teq(ex, 'training items of the user are masked, others are not', r[1], (ni,), lambda i: ite(recorded(TL, ta, tb_, k, i), mul(const(-1), app('inf', sort='R')), RZERO))
    teq(ex, 'recorded items are marked with one, others with zero', r[2], (ni,), lambda i: iverson(recorded(L, a, b, k, i), const(1, 'R')))
    unchanged(ex)


@contract('UserItemDataset length', ['P18'], [DS + '.__len__'])
def _(ex):
    o, nu, ni, L, a, b = dataset(ex)
    ex.check('training: number of interactions', eq(lift(ex.call(ex.getattr(o, '__len__'), [], {})), L))
    TL, ta, tb_, tlst = interactions(ex, 'train', nu, ni)
    p = fresh('p')
    o2 = ex.instantiate(getcls(ex, DS), [nu, ni, ListV((Loop(p, L, (Item((a(p), b(p))),)),)), tlst], {'phase': 'test'})
    ex.check('testing: number of users', eq(lift(ex.call(ex.getattr(o2, '__len__'), [], {})), nu))
    unchanged(ex)


@contract('UserItemDataset refuses a test phase without training interactions and unknown phases', ['P18'], [DS + '.__init__'])
def _(ex):
    for kw in ({'phase': 'test'}, {'phase': 'valid'}):
        k, _ = raises(ex, lambda: dataset(ex, **kw))
        (ex.ok if k else ex.fail)('rejected', 'structural' if k else 'accepted')
