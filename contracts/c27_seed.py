"""P27: set_seed determines every source of chance, and seed() reports it.  The contracts of the functions that draw (P14, P15, P17, P18, P26) additionally
state that on every path only the seeded generators are consulted; their results are then functions of the arguments and of the state set_seed puts those generators in."""
from pyvc.spec import *

S = 'dhg.random._seed'
SOURCES = {'random.seed': 'random', 'np.random.seed': 'numpy', 'torch.manual_seed': 'torch'}


def sources(ex):
    calls = []
    for n in list(SOURCES) + ['numpy.random.seed', 'torch.random.manual_seed', 'torch.cuda.manual_seed', 'torch.cuda.manual_seed_all']:
        def f(ex, a, k, n=n):
            calls.append((SOURCES.get(n.replace('numpy.', 'np.').replace('torch.random', 'torch'), 'other'), list(a) + list(k.values())))
        ex.suite.externals[n] = f
    clock = ex.fresh('now', 'R')
    ex.suite.externals['time.time'] = lambda ex, a, k: clock
    return calls, clock


def last(ex, calls, src, s, label):
    mine = [a for n, a in calls if n == src]
    if not mine:
        return ex.fail(label, '%s is not seeded' % src)
    a = mine[-1]
    if len(a) != 1 or not isinstance(a[0], (int, Term)):
        return ex.fail(label, 'seeded with %r' % (a,))
    ex.check(label, eq(lift(a[0]), s))


@contract('set_seed then seed', ['P27'], [S + ':set_seed', S + ':seed'])
def _(ex):
    calls, _ = sources(ex)
    s, t = isym(ex, 'the_seed'), isym(ex, 'another_seed')
    for k, x in enumerate((s, t, s)):
        del calls[:]
        callq(ex, S + ':set_seed', x)
        for src in ('random', 'numpy', 'torch'):
            last(ex, calls, src, x, '%s is seeded with the given seed (call %d)' % (src, k))
        for again in range(2):
            ex.check('the reported seed is the one set (call %d)' % k, eq(lift(callq(ex, S + ':seed')), x))
        if len([c for c in calls]) > 3:
            for src in ('random', 'numpy', 'torch'):
                last(ex, calls, src, x, 'reporting the seed does not reseed %s (call %d)' % (src, k))


@contract('set_seed with a constant seed', ['P27'], [S + ':set_seed', S + ':seed'])
def _(ex):
    calls, _ = sources(ex)
    for x in (0, 1, 2 ** 31):
        callq(ex, S + ':set_seed', x)
        for src in ('random', 'numpy', 'torch'):
            last(ex, calls, src, const(x), '%s is seeded with %d' % (src, x))
        ex.check('the reported seed is %d' % x, eq(lift(callq(ex, S + ':seed')), const(x)))
