"""Symbolic executor over the real AST of /repo: path enumeration, loops over symbolic sequences, function-modular calls."""
import ast
import builtins
import os
from fractions import Fraction
from .ir import *
from . import ir, norm, smt
from .vals import *

REPO = '/repo'
MISSING = object()


class PyRaise(Exception):
    def __init__(self, kind, msg='', where=''):
        Exception.__init__(self, kind)
        self.kind, self.msg, self.where = kind, msg, where


class ReturnX(Exception):
    def __init__(self, val):
        self.val = val


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Infeasible(Exception):
    """The current path condition is contradictory."""


class PathEnd(Infeasible):
    """Nothing is left to execute on this path; what was checked on it counts."""


EXC_PARENT = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AssertionError': 'Exception',
              'AttributeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
              'FileNotFoundError': 'OSError', 'OSError': 'Exception', 'IOError': 'OSError', 'Exception': 'BaseException', 'NameError': 'Exception', 'StopIteration': 'Exception',
              'requests.RequestException': 'OSError', 'requests.HTTPError': 'requests.RequestException', 'requests.ConnectionError': 'requests.RequestException', 'requests.Timeout': 'requests.RequestException', 'requests.ChunkedEncodingError': 'requests.RequestException', 'requests.ReadTimeout': 'requests.Timeout',
              'optuna.exceptions.TrialPruned': 'Exception'}


def exc_isa(kind, base):
    kind, base = kind.replace('requests.exceptions.', 'requests.'), base.replace('requests.exceptions.', 'requests.')
    while kind is not None:
        if kind == base:
            return True
        kind = EXC_PARENT.get(kind)
    return False


# ------------------------------------------------------------------------------------------- program representation
class Ext:
    """An external module, function or class, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class FuncV:
    def __init__(self, node, mod, env=None, cls=None, qual=None, deco=()):
        self.node, self.mod, self.env, self.cls, self.qual, self.deco = node, mod, env, cls, qual, deco

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class HostFn:
    """A callable modelled in the host: f(ex, args, kwargs)."""

    def __init__(self, name, f):
        self.name, self.f = name, f


class ClassV:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.members = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos = [ast.unparse(d) for d in s.decorator_list]
                kind = 'method'
                if 'property' in decos:
                    kind = 'property'
                elif any(d.endswith('.setter') for d in decos):
                    self.members[s.name + '@set'] = ('method', s)
                    continue
                elif 'staticmethod' in decos or any('abstractstaticmethod' in d for d in decos):
                    kind = 'static'
                elif 'classmethod' in decos:
                    kind = 'class'
                elif any('abstractproperty' in d for d in decos):
                    kind = 'property'
                self.members[s.name] = (kind, s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.members[s.targets[0].id] = ('attr', s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.members[s.target.id] = ('attr', s.value)

    def __repr__(self):
        return '<class %s>' % self.qual


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        src = open(path).read()
        self.tree = ast.parse(src)
        self.globals = {}
        self.loaded = {}
        self.collect(self.tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.globals[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.globals[a.asname] = ('import', a.name)
                    else:
                        self.globals[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.globals[a.asname or a.name] = ('from', s.level, s.module or '', a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.If):
                self.collect(s.body)
            elif isinstance(s, ast.Try):
                self.collect(s.body)


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        path = None
        if os.path.isfile(p + '.py'):
            path = p + '.py'
        elif os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
            path = os.path.join(p, '__init__.py')
        m = Module(name, path) if path else None
        self.mods[name] = m
        return m

    def resolve_from(self, mod, level, module, name):
        if level:
            parts = mod.name.split('.')
            if not mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (level - 1)]
            base = '.'.join(parts + ([module] if module else []))
        else:
            base = module
        if base.split('.')[0] != 'dhg':
            return Ext(base + '.' + name)
        m = self.module(base)
        if m is not None and name in m.globals and not (m is mod and isinstance(m.globals[name], tuple) and m.globals[name][0] == 'from' and m.globals[name][2] == base):
            return self.lookup(m, name)
        sub = self.module(base + '.' + name)
        if sub is not None:
            return sub
        if m is not None:
            for s in m.tree.body:     # star imports
                if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                    try:
                        return self.resolve_from(m, s.level, s.module or '', name)
                    except Unsupported:
                        pass
        raise Unsupported('cannot resolve %s.%s' % (base, name))

    def lookup(self, mod, name):
        if name in mod.loaded:
            return mod.loaded[name]
        g = mod.globals.get(name)
        if g is None:
            raise KeyError(name)
        if isinstance(g, ast.FunctionDef):
            v = FuncV(g, mod, None, None, mod.name + ':' + g.name)
        elif isinstance(g, ast.ClassDef):
            v = ClassV(g, mod, mod.name + ':' + g.name)
        elif g[0] == 'import':
            v = self.module(g[1]) if g[1].split('.')[0] == 'dhg' else Ext(g[1])
        elif g[0] == 'from':
            v = self.resolve_from(mod, *g[1:])
        else:
            return ('expr', g[1], mod)
        mod.loaded[name] = v
        return v

    def get(self, qual):
        """'dhg.structure.base:BaseGraph._add_edge' -> (kind, FuncV)."""
        mn, _, path = qual.partition(':')
        m = self.module(mn)
        if m is None:
            raise Unsupported('no module %s' % mn)
        parts = path.split('.')
        try:
            v = self.lookup(m, parts[0])
        except KeyError:
            raise Unsupported('%s has no %s' % (mn, parts[0]))
        for p in parts[1:]:
            if p not in v.members:
                raise Unsupported('%s has no member %s' % (v.qual, p))
            kind, node = v.members[p]
            v = FuncV(node, m, None, v, qual)
            v.kind = kind
        return v


# ------------------------------------------------------------------------------------------- obligations and paths
class Obligation:
    __slots__ = ('name', 'ok', 'how', 'where', 'detail', 'status')

    def __init__(self, name, ok, how, where, detail=None, status=None):
        self.name, self.ok, self.how, self.where, self.detail = name, ok, how, where, detail
        self.status = status or ('discharged' if ok else 'failed')


class Decider:
    def __init__(self, prefix):
        self.prefix, self.trace, self.forks, self.conds = list(prefix), [], [], []


class Ex:
    """Execution state of one path of one contract."""

    def __init__(self, prog, suite, prefix=()):
        self.prog, self.suite = prog, suite
        self.th = norm.Theory()
        self.facts = []
        self.dec = Decider(prefix)
        self.log = []
        self.depth = 0
        self.stack = []
        self.obls = []
        self.used, self.inlined = set(), set()
        self.events = []
        self.loop_specs = []
        self.loop_vars = []
        self.disabled = set()
        self.assumed = set()
        self.steps = 0
        self.cache_specs = {}
        self.frame = []
        self.where = ''
        self.memo = {}
        self.uni = []
        from . import lib
        lib.base_axioms(self.th)

    # ---- writes (undo log)
    def setattr(self, obj, name, val):
        fz = getattr(obj, 'frozen', None)
        if fz:
            self.frame.append('%s: modifies %s' % (self.where, fz))
        self.log.append(('a', obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def setitem(self, d, k, val):
        self.log.append(('i', d, k, d.get(k, MISSING)))
        if val is MISSING:
            d.pop(k, None)
        else:
            d[k] = val

    def rollback(self, mark, born=None):
        while len(self.log) > mark:
            kind, o, k, old = self.log.pop()
            if born is not None and getattr(o, 'birth', 0) > born:
                continue            # state of an object that exists on the explored path only
            if kind == 'a':
                setattr(o, k, old)
            elif old is MISSING:
                o.pop(k, None)
            else:
                o[k] = old

    def writes_since(self, mark):
        out = {}
        for kind, o, k, old in self.log[mark:]:
            key = (id(o), k, kind)
            if key not in out:
                out[key] = [o, k, kind, old, None]
        for key, w in out.items():
            o, k, kind = w[0], w[1], w[2]
            w[4] = getattr(o, k) if kind == 'a' else o.get(k, MISSING)
        return out

    def fresh(self, name, sort='I'):
        """A new unknown value; inside a symbolic loop it is a function of the iteration."""
        nm = uniq(name + '!')
        return app(nm, *self.loop_vars, sort=sort)

    # ---- logic
    def norm(self, extra=()):
        return norm.Norm(self.th, self.facts + list(extra))

    def assume(self, f):
        f = lift(f)
        if f is TRUE:
            return
        if f.op == 'and':
            for g in f.args:
                self.assume(g)
            return
        self.facts.append(f)
        self.universal(f)
        self.memo.clear()

    def universal(self, f):
        """Registers a universally quantified fact as an instantiation rule."""
        if f.op == 'not' and f.args[0].op == 'exists':
            bs, body = f.args[0].args
            self.add_forall(bs, not_(body))

    def add_forall(self, bs, body):
        vs = [v for v, _ in bs]
        for t in subterms(body):
            if t.op == 'app':
                args = t.args[1:]
                if set(vs) <= set(a for a in args if a.op == 'var') or (len(vs) == 1 and vs[0] in args):
                    pos = {v: args.index(v) for v in vs if v in args}
                    if len(pos) < len(vs):
                        continue

                    def rule(*a, t=t, pos=pos):
                        m = {v: a[i] for v, i in pos.items()}
                        for i, x in enumerate(t.args[1:]):
                            if i not in pos.values():
                                y = subst(x, m)
                                if y is not a[i] and not (fv(y) - fv(x)):
                                    pass
                        rng = and_(*[and_(le(ZERO, m[v]), lt(m[v], subst(h, m))) for v, h in bs])
                        return [implies(rng, subst(body, m))]
                    self.th.axiom(t.args[0], rule)
                    self.uni.append((t.args[0], rule))

    def entailed(self, c):
        key = (c, len(self.facts))
        if key in self.memo:
            return self.memo[key]
        r = None
        try:
            n = self.norm()
            k = n.cbool(c)
            if k is TRUE:
                r = True
            elif k is FALSE:
                r = False
            else:
                if n.entails(k, []):
                    r = True
                elif n.entails(not_(k), []):
                    r = False
                elif smt.check(self.facts + [c], self.th.axioms, 400000) == 'unsat':
                    r = False
                elif smt.check(self.facts + [not_(c)], self.th.axioms, 400000) == 'unsat':
                    r = True
        except norm.TooHard:
            if smt.check(self.facts + [c], self.th.axioms, 400000) == 'unsat':
                r = False
            elif smt.check(self.facts + [not_(c)], self.th.axioms, 400000) == 'unsat':
                r = True
        self.memo[key] = r
        return r

    def decide(self, c):
        c = lift(c)
        if c.sort != 'B':
            c = ne(c, ZERO)
        if c.op == 'const':
            return c.args[0]
        r = self.entailed(c)
        if r is not None:
            return r
        d = self.dec
        i = len(d.trace)
        if i < len(d.prefix):
            b = d.prefix[i]
        else:
            b = True
            d.forks.append(d.trace + [False])
            if len(d.trace) > 60:
                raise Unsupported('path too long')
        d.trace.append(b)
        k = c if b else not_(c)
        d.conds.append(k)
        self.assume(k)
        return b

    def local_paths(self, thunk, limit=64):
        """Explores thunk() under all decisions; between paths the state is rolled back. Yields (conds, outcome, writes)."""
        out, stack = [], [[]]
        mark, nf = len(self.log), len(self.facts)
        saved, nu, born = self.dec, len(self.uni), birth()

        def drop():
            while len(self.uni) > nu:
                s, r = self.uni.pop()
                self.th.axioms[s].remove(r)
        try:
            while stack:
                self.dec = Decider(stack.pop())
                try:
                    res = ('ok', thunk())
                except PyRaise as e:
                    res = ('raise', e)
                except ReturnX as e:
                    res = ('return', e.val)
                except BreakX:
                    res = ('break', None)
                except ContinueX:
                    res = ('ok', None)
                except Infeasible:
                    res = None
                if res is not None:
                    out.append((list(self.dec.conds), res, self.writes_since(mark), list(self.facts[nf:])))
                stack.extend(self.dec.forks)
                self.rollback(mark, born)
                del self.facts[nf:]
                self.memo.clear()
                drop()
                if len(out) > limit:
                    raise Unsupported('too many paths in a loop body')
        finally:
            self.dec = saved
            self.rollback(mark)
            del self.facts[nf:]
            self.memo.clear()
            drop()
        return out

    # ---- obligations
    def check(self, label, goal, detail=None, hyps=()):
        name = '%s / %s' % (self.suite.current, label)
        goal = lift(goal)
        try:
            n = self.norm(hyps)
            ok, how, res = n.prove(goal)
            st = 'discharged' if ok else ('failed' if how == 'sat' else 'undecided')
            o = Obligation(name, ok, how, self.where, None if ok else show(res)[:2000] if res is not None else None, st)
        except norm.TooHard as e:
            o = Obligation(name, False, 'too hard', self.where, str(e), 'undecided')
        self.obls.append(o)
        return o.ok

    def fail(self, label, detail):
        self.obls.append(Obligation('%s / %s' % (self.suite.current, label), False, 'structural', self.where, detail, 'failed'))

    def ok(self, label, how='structural'):
        self.obls.append(Obligation('%s / %s' % (self.suite.current, label), True, how, self.where))

    def undecided(self, label, detail):
        self.obls.append(Obligation('%s / %s' % (self.suite.current, label), False, 'unsupported', self.where, detail, 'undecided'))

    # ================================================================ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        from . import lib
        if isinstance(f, HostFn):
            return f.f(self, list(args), kw)
        if hasattr(f, 'callobj'):
            return f.callobj(self, list(args), kw)
        if isinstance(f, BoundV):
            if isinstance(f.fn, HostFn):
                return f.fn.f(self, [f.self_] + list(args), kw)
            return self.call_func(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Ext):
            return lib.call_ext(self, f.name, list(args), kw)
        if isinstance(f, ObjV) and isinstance(f.cls, Ext):
            from . import tlib
            return tlib.call_layer(self, f, list(args), kw)
        if isinstance(f, ObjV):
            m = self.find_member(f.cls, '__call__') if isinstance(f.cls, ClassV) else None
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
            m = self.find_member(f.cls, 'forward') if isinstance(f.cls, ClassV) else None
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
        if callable(f) and not isinstance(f, (Term,)):
            return f(self, list(args), kw)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kw):
        summ = self.suite.summaries.get(f.qual) if f.qual else None
        if summ is not None and f.qual not in self.disabled:
            self.used.add(f.qual)
            return summ(self, args, kw)
        if f.qual and f.node is not None and not isinstance(f.node, ast.Lambda):
            for d in f.node.decorator_list:
                dn = ast.unparse(d)
                if dn in ('property', 'staticmethod', 'classmethod', 'abc.abstractmethod', 'abstractmethod', 'torch.no_grad()') or dn.endswith('.setter'):
                    continue
                if not getattr(f, 'undecorated', False):
                    return self.call_decorated(f, args, kw)
        return self.call_body(f, args, kw)

    def call_decorated(self, f, args, kw):
        g = FuncV(f.node, f.mod, f.env, f.cls, f.qual)
        g.undecorated = True
        v = g
        env = {}
        for d in reversed(f.node.decorator_list):
            dn = ast.unparse(d)
            if dn in ('property', 'staticmethod', 'classmethod', 'abc.abstractmethod', 'abstractmethod', 'torch.no_grad()') or dn.endswith('.setter'):
                continue
            deco = Frame(self, f.mod, env, None, f.qual).ev(d)
            v = self.call(deco, [v], {})
        return self.call(v, args, kw)

    def call_body(self, f, args, kw):
        if self.depth > 40:
            raise Unsupported('call depth')
        if f.qual:
            self.inlined.add(f.qual)
        env = Env()
        a = f.node.args
        fr = Frame(self, f.mod, env, f.env, f.qual, f.cls)
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        defaults = [MISSING] * (len(names) - len(a.defaults)) + list(a.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw:
                    raise PyRaise('TypeError', 'multiple values for %s' % n)
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            elif defaults[i] is not MISSING:
                env[n] = Frame(self, f.mod, {}, f.env, f.qual, f.cls).ev(defaults[i])
            else:
                raise PyRaise('TypeError', 'missing argument %s' % n)
        rest = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest) if not (len(rest) == 1 and isinstance(rest[0], Star)) else rest[0].val
        elif rest:
            if any(isinstance(x, Star) for x in rest):
                raise Unsupported('star call')
            raise PyRaise('TypeError', 'too many arguments')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = Frame(self, f.mod, {}, f.env, f.qual, f.cls).ev(d)
            else:
                raise PyRaise('TypeError', 'missing argument %s' % x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = DictV(kw)
        elif kw:
            raise PyRaise('TypeError', 'unexpected argument %s' % sorted(kw))
        self.depth += 1
        old = self.where
        try:
            if isinstance(f.node, ast.Lambda):
                return fr.ev(f.node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            try:
                fr.block(f.node.body)
            except ReturnX as r:
                return r.val
            return None
        finally:
            self.depth -= 1
            self.where = old

    # ================================================================ classes and attributes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            try:
                v = Frame(self, c.mod, {}, None, c.qual).ev(b)
            except Unsupported:
                continue
            out.append(v)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if isinstance(b, ClassV):
                out += self.mro(b)
            else:
                out.append(b)
        return out

    def find_member(self, c, name, after=None):
        if not isinstance(c, ClassV):
            return None
        ms = self.mro(c)
        if after is not None:
            i = [k for k, x in enumerate(ms) if isinstance(x, ClassV) and x.qual == after.qual]
            ms = ms[i[0] + 1:] if i else ms
        for k in ms:
            if isinstance(k, ClassV) and name in k.members:
                kind, node = k.members[name]
                if kind == 'attr':
                    return ('attr', Frame(self, k.mod, {}, None, k.qual).ev(node))
                f = FuncV(node, k.mod, None, k, '%s.%s' % (k.qual, name.split('@')[0] if '@' not in name else name))
                return (kind, f)
        return None

    def bind(self, m, obj):
        kind, f = m
        if kind == 'method':
            return BoundV(f, obj)
        if kind == 'static':
            return f
        if kind == 'class':
            return BoundV(f, obj.cls if isinstance(obj, ObjV) else obj)
        if kind == 'attr':
            return f
        raise Unsupported(kind)

    def is_sub(self, c, d):
        return any(isinstance(x, ClassV) and x.qual == d.qual for x in self.mro(c)) if isinstance(c, ClassV) else False

    def instantiate(self, c, args, kw):
        summ = self.suite.summaries.get(c.qual)
        if summ is not None and c.qual not in self.disabled:
            self.used.add(c.qual)
            return summ(self, args, kw)
        from . import lib
        o = ObjV(c)
        h = lib.module_base(self, c)
        if h:
            h(self, o)
            o.module = o.attrs.keep = True
        m = self.find_member(c, '__init__')
        if m is not None:
            self.call(BoundV(m[1], o), args, kw)
        return o

    def getattr(self, o, name):
        from . import lib
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV):
                m = self.find_member(o.cls, name)
                if m is not None and m[0] == 'property':
                    return self.call_func(m[1], [o], {})
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported('attribute %s after a loop: %s' % (name, v.why))
                return v
            if name == '__class__':
                return o.cls
            if isinstance(o.cls, ClassV):
                if m is not None:
                    return self.bind(m, o)
            r = lib.obj_attr(self, o, name)
            if r is not MISSING:
                return r
            if isinstance(o.cls, ClassV):
                m = self.find_member(o.cls, '__getattr__')
                if m is not None:
                    return self.call_func(m[1], [o, name], {})
            raise PyRaise('AttributeError', name)
        if isinstance(o, ClassV):
            m = self.find_member(o, name)
            if m is not None:
                if m[0] in ('method', 'property'):
                    return m[1]
                return self.bind(m, o)
            if name == '__name__':
                return o.name
            return lib.class_attr(self, o, name)
        if isinstance(o, Module):
            try:
                v = self.prog.lookup(o, name)
            except KeyError:
                sub = self.prog.module(o.name + '.' + name)
                if sub is not None:
                    return sub
                if o.path.endswith('__init__.py'):
                    return self.prog.resolve_from(o, 1, '', name)
                raise PyRaise('AttributeError', name)
            if isinstance(v, tuple) and v and v[0] == 'expr':
                return self.suite.module_global(self, o, name, v)
            return v
        if isinstance(o, Ext):
            return lib.ext_attr(self, o, name)
        return lib.value_attr(self, o, name)

    def setattr_obj(self, o, name, val):
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV):
                m = self.find_member(o.cls, name + '@set')
                if m is not None:
                    return self.call_func(m[1], [o, val], {})
            if o.frozen:
                self.frame.append('%s: writes %s.%s' % (self.where, o.frozen, name))
            self.setitem(o.attrs, name, val)
            return
        if isinstance(o, Opaque):
            self.events.append(('setattr', o.name, name, val))
            return
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    # ================================================================ truth
    def truth(self, v):
        if isinstance(v, Term):
            return self.decide(app('nonempty', v, sort='B') if v.sort == 'U' else v)
        if isinstance(v, (bool, int, float, str, tuple, Fraction)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, (ListV, SetV, SymTuple)):
            return self.decide(lt(ZERO, nlen(v.nodes)))
        if isinstance(v, VTup):
            return self.decide(lt(ZERO, app('vlen', v.t, sort='I')))
        if isinstance(v, DictV):
            return bool(v.d) if v.d is not None else self.decide(lt(ZERO, v.st.n))
        if isinstance(v, Tensor) and not v.shape:
            return self.decide(v.fn())
        if isinstance(v, (ObjV, FuncV, BoundV, ClassV, Ext, HostFn, Opaque)) or getattr(v, 'always_true', False):
            return True
        raise Unsupported('truth value of %s' % type(v).__name__)

    def iter_nodes(self, v):
        from . import lib
        return lib.iter_nodes(self, v)

    # ================================================================ loops
    def run_nodes(self, nodes, body):
        """Executes body(value) for every element of a sequence."""
        from . import loops
        loops.run_nodes(self, nodes, body)


class Star:
    def __init__(self, val):
        self.val = val


class Frame:
    def __init__(self, ex, mod, env, outer, qual, cls=None):
        self.ex, self.mod, self.env, self.outer, self.qual, self.cls = ex, mod, env, outer, qual, cls

    # ---------------------------------------------------------------- names
    def lookup(self, name):
        fr = self
        if name in self.env:
            v = self.env[name]
            if isinstance(v, Poison):
                raise Unsupported('variable %s after a loop: %s' % (name, v.why))
            return v
        o = None if name in getattr(self, 'globals_', ()) else self.outer
        while o is not None:
            if name in o.env:
                v = o.env[name]
                if isinstance(v, Poison):
                    raise Unsupported('variable %s after a loop: %s' % (name, v.why))
                return v
            o = o.outer
        try:
            v = self.ex.prog.lookup(self.mod, name)
            if isinstance(v, tuple) and v and v[0] == 'expr':
                return self.ex.suite.module_global(self.ex, self.mod, name, v)
            return v
        except KeyError:
            pass
        from . import lib
        if name in lib.BUILTINS:
            return lib.BUILTINS[name]
        if name in EXC_PARENT or hasattr(builtins, name):
            return Ext('builtins.' + name)
        raise PyRaise('NameError', name)

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        ex = self.ex
        ex.steps += 1
        if ex.steps > 60000:
            raise Unsupported('step budget')
        ex.where = '%s:%d' % (os.path.relpath(self.mod.path, ex.prog.repo), s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                v = self.ex.prog.module(a.name) if a.name.split('.')[0] == 'dhg' else Ext(a.name)
                self.ex.setitem(self.env, a.asname, v)
            else:
                t = a.name.split('.')[0]
                self.ex.setitem(self.env, t, self.ex.prog.module(t) if t == 'dhg' else Ext(t))

    def s_ImportFrom(self, s):
        for a in s.names:
            v = self.ex.prog.resolve_from(self.mod, s.level, s.module or '', a.name)
            if isinstance(v, tuple) and v and v[0] == 'expr':
                base = self.ex.prog.module(s.module)
                v = self.ex.suite.module_global(self.ex, base, a.name, v)
            self.ex.setitem(self.env, a.asname or a.name, v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        from . import lib
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign(t, lib.augop(self.ex, s.op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.ex.getattr(o, t.attr)
            self.ex.setattr_obj(o, t.attr, lib.augop(self.ex, s.op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = lib.getitem(self.ex, o, k)
            lib.setitem(self.ex, o, k, lib.augop(self.ex, s.op, cur, self.ev(s.value)))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        from . import lib
        ex = self.ex
        if isinstance(t, ast.Name):
            nl = getattr(self, 'nonlocals', ())
            if t.id in getattr(self, 'globals_', ()):
                self.ex.suite.module_global(ex, self.mod, t.id, self.mod.globals[t.id] + (self.mod,))
                ex.setitem(ex.globals, (self.mod.name, t.id), v)
            elif t.id in nl:
                o = self.outer
                while o is not None and t.id not in o.env:
                    o = o.outer
                ex.setitem(o.env, t.id, v)
            else:
                ex.setitem(self.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = lib.unpack(ex, v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            ex.setattr_obj(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            lib.setitem(ex, o, self.ev_index(t.slice), v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def s_Delete(self, s):
        from . import lib
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                lib.delitem(self.ex, self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Name):
                self.ex.setitem(self.env, t.id, MISSING)
            else:
                raise Unsupported('del')

    def s_Return(self, s):
        raise ReturnX(self.ev(s.value) if s.value is not None else None)

    def s_Raise(self, s):
        ex = self.ex
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur is None:
                raise Unsupported('re-raise')
            raise cur
        v = s.exc
        e = self.ev(v)
        if isinstance(e, Ext):
            kind = e.name.replace('builtins.', '')
            raise PyRaise(kind, '', ex.where)
        if isinstance(e, Opaque) and getattr(e, 'exc', None):
            if isinstance(e.exc, PyRaise):
                raise e.exc
            raise PyRaise(e.exc, getattr(e, 'msg', ''), ex.where)
        raise Unsupported('raise of %r' % (e,))

    def s_Assert(self, s):
        if not self.ex.truth(self.ev(s.test)):
            raise PyRaise('AssertionError', '', self.ex.where)

    def s_If(self, s):
        from . import loops
        c = self.ev(s.test)
        ex = self.ex
        self.block(s.body) if ex.truth(c) else self.block(s.orelse)

    def s_For(self, s):
        from . import loops
        ex = self.ex
        it = ex.iter_nodes(self.ev(s.iter))
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield,)):
                raise Unsupported('yield')

        def body(v):
            self.assign(s.target, v)
            self.block(s.body)
        broke = loops.run_for(ex, it, body, s, self)
        if not broke:
            self.block(s.orelse)

    def s_While(self, s):
        from . import loops
        loops.run_while(self.ex, self, s)

    def s_Break(self, s):
        raise BreakX()

    def s_Continue(self, s):
        raise ContinueX()

    def s_FunctionDef(self, s):
        f = FuncV(s, self.mod, self, self.cls, None)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.ex.call(dv, [v], {})
        self.ex.setitem(self.env, s.name, v)

    def s_Nonlocal(self, s):
        self.nonlocals = tuple(getattr(self, 'nonlocals', ())) + tuple(s.names)

    def s_Global(self, s):
        for n in s.names:
            self.ex.suite.global_write(self.ex, self.mod, n)
        self.globals_ = tuple(getattr(self, 'globals_', ())) + tuple(s.names)

    def s_With(self, s):
        from . import lib
        for it in s.items:
            v = self.ev(it.context_expr)
            v = lib.enter(self.ex, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        ex = self.ex
        try:
            try:
                self.block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    kinds = []
                    if h.type is None:
                        kinds = ['BaseException']
                    else:
                        t = self.ev(h.type)
                        for x in (t if isinstance(t, tuple) else (t,)):
                            if isinstance(x, Ext):
                                kinds.append(x.name.replace('builtins.', ''))
                            else:
                                raise Unsupported('except clause')
                    if any(exc_isa(e.kind, k) for k in kinds):
                        if h.name:
                            o = Opaque('exception')
                            o.exc = e
                            ex.setitem(self.env, h.name, o)
                        old = getattr(self, 'handling', None)
                        self.handling = e
                        try:
                            self.block(h.body)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return Ext('Ellipsis')
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred tuple')
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        nodes = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                nodes += list(self.ex.iter_nodes(self.ev(x.value)))
            else:
                nodes.append(Item(self.ev(x)))
        return ListV(nodes)

    def e_Set(self, e):
        return SetV([Item(self.ev(x)) for x in e.elts])

    def e_Dict(self, e):
        from . import lib
        d = DictV({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, DictV) or o.d is None:
                    raise Unsupported('dict unpacking')
                d.d.update(o.d)
            else:
                lib.setitem(self.ex, d, self.ev(k), self.ev(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                if hasattr(x, 'text') and v.conversion in (-1, 115):
                    x = x.text()
                spec = v.format_spec
                if spec is not None and all(isinstance(y, ast.Constant) for y in spec.values) and isinstance(x, (str, int, float, Fraction)) and v.conversion == -1:
                    try:
                        parts.append(format(float(x) if isinstance(x, Fraction) else x, ''.join(y.value for y in spec.values)))
                        continue
                    except ValueError:
                        raise PyRaise('ValueError', 'format', self.ex.where)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                elif isinstance(x, Fraction) or isinstance(x, float):
                    parts.append(str(x))
                elif isinstance(x, Term):
                    parts.append(x)
                else:
                    parts.append(Opaque('formatted'))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        if all(isinstance(p, (str, Term)) for p in parts):
            # injective formatting of symbolic values into text is assumed per template
            tmpl = ''.join(p if isinstance(p, str) else '{}' for p in parts)
            return app('fmt:' + tmpl, *[p for p in parts if isinstance(p, Term)], sort='U')
        return Opaque('text')

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Attribute(self, e):
        return self.ex.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        from . import lib
        return lib.getitem(self.ex, self.ev(e.value), self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None, self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_UnaryOp(self, e):
        from . import lib
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Term):
                c = v if v.sort == 'B' else ne(v, ZERO)
                return not_(c)
            return not self.ex.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, lib.InfV):
                return lib.InfV(-v.sign)
            return lib.binop(self.ex, 'mul', -1, v)
        if isinstance(e.op, ast.Invert):
            return lib.invert(self.ex, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        from . import lib
        a = self.ev(e.left)
        b = self.ev(e.right)
        return lib.astop(self.ex, e.op, a, b)

    def e_BoolOp(self, e):
        ex = self.ex
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = ex.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v

    def e_Compare(self, e):
        from . import lib
        left = self.ev(e.left)
        res = TRUE
        val = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = lib.compare(self.ex, op, left, right)
            if len(e.ops) == 1:
                return c
            c = lift(c) if isinstance(c, (bool, Term)) else None
            if c is None:
                raise Unsupported('chained comparison')
            res = and_(res, c)
            if not self.ex.truth(c):
                return False
            left = right
        return True

    def e_IfExp(self, e):
        c = self.ev(e.test)
        return self.ev(e.body) if self.ex.truth(c) else self.ev(e.orelse)

    def e_Lambda(self, e):
        return FuncV(e, self.mod, self, self.cls, None)

    def e_Starred(self, e):
        return Star(self.ev(e.value))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def own_super(self, e):
        # super(C, self) inside class C
        c = self.cls
        return c is not None and len(e.args) == 2 and all(isinstance(a, ast.Name) for a in e.args) and e.args[1].id == 'self' and \
            e.args[0].id == getattr(c, 'name', None)

    def e_Call(self, e):
        from . import lib
        ex = self.ex
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and (not e.args or self.own_super(e)):
            o = self.env.get('self')
            if o is None:
                fr = self.outer
                while fr is not None and 'self' not in fr.env:
                    fr = fr.outer
                o = fr.env['self']
            return SuperV(o, self.cls)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, (ListV, SymTuple)) and all_items(v.nodes):
                    args += [n.val for n in v.nodes]
                else:
                    args.append(Star(v))
            elif isinstance(a, (ast.GeneratorExp,)):
                args.append(self.comp(a, 'list'))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, DictV) and d.d is not None:
                    kw.update(d.d)
                elif isinstance(d, DictV):
                    kw['**'] = d
                else:
                    raise Unsupported('keyword unpacking')
            else:
                kw[k.arg] = self.ev(k.value)
        return ex.call(f, args, kw)

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def comp(self, e, kind):
        from . import loops, lib
        ex = self.ex
        env = Env()
        fr = Frame(ex, self.mod, env, self, self.qual, self.cls)
        out = ListV([])

        def level(i):
            if i == len(e.generators):
                if kind == 'dict':
                    v = (fr.ev(e.key), fr.ev(e.value))
                else:
                    v = fr.ev(e.elt)
                ex.setattr(out, 'nodes', out.nodes + (Item(v),))
                return
            g = e.generators[i]
            it = ex.iter_nodes(fr.ev(g.iter))

            def body(v):
                fr.assign(g.target, v)
                for c in g.ifs:
                    if not ex.truth(fr.ev(c)):
                        return
                level(i + 1)
            loops.run_for(ex, it, body, g, fr, comp=True)
        level(0)
        if kind == 'list':
            return out
        if kind == 'set':
            return SetV(out.nodes)
        return lib.dict_of_nodes(ex, out.nodes)


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls
