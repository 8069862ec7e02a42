"""P04: moving a structure to a device keeps its content and its caches valid.  `to` is then summarised in callers."""
from contracts.c05_hyper import *


class EachItem(LoopSpec):
    """Loop over a fixed list of cache keys.  Invariant: every cache is valid for the unchanged content.  Each iteration starts from an
    arbitrary valid cache (the state of the instance before the loop) and must establish the invariant again."""

    def __init__(self, o, label):
        self.o, self.label = o, label

    def each(self, ex, nodes, body, frame):
        try:
            if frame.lookup('self') is not self.o:
                return False
        except Exception:
            return False
        allowed = set()
        for n in nodes:
            born = birth()

            def thunk(n=n):
                old = set(reach(self.o))
                try:
                    body(n.val)
                except (BreakX, ReturnX):
                    raise Unsupported('the loop is left early')
                self.inv(ex, old, born)
            for conds, res, ws, facts in ex.local_paths(thunk):
                if res[0] != 'ok':
                    raise Unsupported('an iteration ends with %s' % (res[0],))
                for o, k, kind, old, new in ws.values():
                    if getattr(o, 'birth', 10 ** 12) < born and not self.mine(o, frame):
                        raise Unsupported('the loop changes %s.%s' % (type(o).__name__, k))
        return True

    def mine(self, o, frame):
        if o is frame.env:
            return True
        c, t = self.o.attrs['cache'], self.o.attrs.get('group_cache')
        return o is getattr(c, 'vals', None) or o is t or t is not None and any(o is getattr(v, 'vals', None) for _, v in t.tabs)

    def inv(self, ex, old, born):
        cache_valid(ex, self.o, self.label)
        bad = [x for i, x in reach(self.o).items() if i not in old and getattr(x, 'birth', 10 ** 12) < born]
        (ex.fail if bad else ex.ok)('%s: nothing foreign is stored' % self.label, *(['%d objects' % len(bad)] if bad else []))


class EachGroup(LoopSpec):
    """Loop over the groups inside EachItem, same invariant; the group caches are again arbitrary and valid afterwards."""

    def __init__(self, o, label):
        self.o, self.label = o, label

    def match(self, ex, loop, locs, frame):
        t = self.o.attrs.get('group_cache')
        return isinstance(t, lib.TableV) and t.base is not None and any(l.o is t and l.k == 'tabs' for l in locs.values())

    def locs(self, locs):
        t = self.o.attrs['group_cache']
        return [l for l in locs.values() if l.o is t and l.k == 'tabs']

    def init(self, ex, v, hi):
        self.t = self.o.attrs['group_cache']
        self.tabs = self.t.tabs
        if self.tabs:
            raise Unsupported('group caches accessed before the loop')
        cache_valid(ex, self.o, self.label)

    def leave(self, ex, v):
        cache_valid(ex, self.o, self.label)

    def finish(self, ex, n):
        ex.setattr(self.t, 'tabs', self.tabs)


def move(q, fns):
    def run(ex):
        g = MAKERS[q](ex)
        d = Opaque('another device')
        snap = snapshot(g)
        ex.loop_specs += [EachItem(g, 'cache after moving'), EachGroup(g, 'group caches after moving')]
        r = ex.call(ex.getattr(g, 'to'), [d], {})
        (ex.ok if r is g else ex.fail)('returns the structure itself', *([] if r is g else ['']))
        (ex.ok if g.attrs['device'] is d else ex.fail)('the device is set', *([] if g.attrs['device'] is d else ['']))
        rest = {k: v for k, v in snap.items() if k != 'device'}
        rest_unchanged(ex, g, rest, ())
        cache_valid(ex, g)
        unchanged(ex)
    contract('%s.to' % q.split(':')[1], ['P04', 'P05'], fns)(run)


for _q in (GQ, DQ, BQ):
    move(_q, [_q + '.to', BG + '.to'])
move(HQ, [HQ + '.to', BH + '.to'])


def moved(ex, args, kw):
    o = args[0]
    ex.setitem(o.attrs, 'device', args[1] if len(args) > 1 else kw['device'])
    return o


for _q in (GQ, DQ, BQ, HQ, BG, BH):
    summary(_q + '.to', by='P04')(moved)
