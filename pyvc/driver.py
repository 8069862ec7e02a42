"""Contract registry, path exploration and reporting."""
import ast
import os
import time
import traceback
from .ir import *
from . import ir, norm, smt, lib, tlib, vals
from .vals import *
from .core import *
from .core import Frame, MISSING

CONTRACTS = []      # (name, props, functions, fn, options)
SUMMARIES = {}      # qual -> fn(ex, args, kw)
EXTERNALS = {}
PROVED_BY = {}      # qual of a summary -> name of the contract that discharges it


def contract(name, props, functions=(), **opt):
    def deco(fn):
        CONTRACTS.append((name, tuple(props), tuple(functions), fn, opt))
        return fn
    return deco


def summary(qual, by=None):
    def deco(fn):
        SUMMARIES[qual] = fn
        PROVED_BY[qual] = by
        return fn
    return deco


def external(name):
    def deco(fn):
        EXTERNALS[name] = fn
        return fn
    return deco


class Suite:
    def __init__(self, prog):
        self.prog = prog
        self.current = ''
        self.summaries = dict(SUMMARIES)
        self.externals = dict(EXTERNALS)

    def module_global(self, ex, mod, name, v):
        """Value of a module-level variable; a module that imported it by name keeps the value it had at import."""
        g, first = ex.__dict__.setdefault('globals', {}), ex.__dict__.setdefault('globals0', {})
        expr, home = v[1], v[2]
        k = (home.name, name)
        if k not in first:
            first[k] = Frame(ex, home, Env(), None, home.name).ev(expr)
            g.setdefault(k, first[k])
        return g[k] if mod is home else first[k]

    def global_write(self, ex, mod, n):
        g = mod.globals.get(n)
        if not (isinstance(g, tuple) and g[0] == 'expr'):
            raise Unsupported('global statement')

    def fs_open(self, ex, a, k):
        if 'open' in self.externals:
            return self.externals['open'](ex, a, k)
        raise Unsupported('open')


class Result:
    def __init__(self):
        self.obls, self.used, self.inlined, self.assumed = [], set(), set(), set()
        self.paths = self.feasible = 0
        self.error = None
        self.seconds = 0.0
        self.stats = {}


def run_contract(prog, entry, max_paths=400, seconds=150):
    name, props, functions, fn, opt = entry
    res = Result()
    t0 = time.time()
    s0 = dict(smt.STATS.__dict__)
    stack = [[]]
    max_paths = opt.get('max_paths', max_paths)
    seconds = opt.get('seconds', seconds)
    while stack:
        if res.paths >= max_paths or time.time() - t0 > seconds:
            res.obls.append(Obligation('%s / exploration' % name, False, 'budget', '', 'path or time budget', 'undecided'))
            break
        prefix = stack.pop()
        suite = Suite(prog)
        suite.current = name
        ex = Ex(prog, suite, prefix)
        ex.deadline = t0 + seconds
        ex.disabled |= set(opt.get('disabled', functions))
        res.paths += 1
        ok = True
        try:
            if 'P27' in props:
                ex.seed_guard = True
            fn(ex)
            if 'P27' in props:
                ex.ok('draws only from the seeded generators (%s)' % (', '.join(sorted({e[1] for e in ex.events if e[0] == 'random'})) or 'no draw on this path'))
        except PathEnd:
            pass
        except Infeasible:
            ok = False
        except PyRaise as e:
            r = smt.check(ex.facts, ex.th.axioms, 2000000)
            if r == 'unsat':
                ok = False
            else:
                ex.where = e.where or ex.where
                if r == 'sat':
                    ex.fail('no unexpected exception', '%s %s on a feasible path (%s)' % (e.kind, e.msg, '; '.join(show(c)[:200] for c in ex.dec.conds)))
                else:
                    ex.undecided('no unexpected exception', '%s %s, feasibility unknown' % (e.kind, e.msg))
        except Unsupported as e:
            ex.undecided('within the verified subset', '%s at %s' % (e, ex.where))
        except norm.TooHard as e:
            ex.undecided('normal form', '%s at %s' % (e, ex.where))
        except RecursionError:
            ex.undecided('normal form', 'recursion depth at %s' % ex.where)
        except (ReturnX, BreakX, ContinueX):
            ex.undecided('control flow', ex.where)
        except Exception as e:        # engine error: never an alarm
            ex.undecided('engine', '%s: %s at %s\n%s' % (type(e).__name__, e, ex.where, traceback.format_exc()[-1500:]))
        stack.extend(ex.dec.forks)
        if ok:
            if ex.obls:
                st = smt.check(ex.facts, ex.th.axioms, 300000)
                if st == 'unsat':
                    continue
                res.feasible += 1
            res.obls += ex.obls
        res.used |= ex.used
        res.inlined |= ex.inlined
        res.assumed |= ex.assumed
    res.seconds = time.time() - t0
    res.stats = {k: smt.STATS.__dict__[k] - s0[k] for k in s0}
    if not [o for o in res.obls] or res.feasible == 0:
        res.obls.append(Obligation('%s / vacuity' % name, False, 'no feasible path reached an obligation', '', None, 'undecided'))
    return res
