"""A ghost filesystem: paths are opaque names, files hold one pickled value.  Axiom used: pickle.load(f) of a file written by
pickle.dump(x, f) is a deep copy of x (same classes, same values, same dictionary order) sharing nothing with x."""
from contracts.structs import *


class PathH(HostObj):
    kind = 'path'
    always_true = True

    def __init__(self, key):
        self.birth = birth()
        self.key = key

    def text(self):
        return self.key

    def binop(self, ex, o, b):
        if o == 'div' and isinstance(b, (str, PathH)):
            return PathH(self.key + '/' + (b if isinstance(b, str) else b.key))
        raise Unsupported('path arithmetic')

    def getattr(self, ex, name):
        fs = fsof(ex)
        if name in ('exists', 'is_file'):
            return HostFn(name, lambda ex, a, k: fs.exists(ex, self.key))
        if name == 'parent':
            return PathH(self.key + '/..')
        if name == 'open':
            return HostFn('open', lambda ex, a, k: fs.open(ex, [self] + list(a), k))
        if name in ('resolve', 'absolute', 'expanduser'):
            return HostFn(name, lambda ex, a, k: self)
        if name == 'mkdir':
            return HostFn(name, lambda ex, a, k: None)
        if name == 'rmdir':
            def rmdir(ex, a, k):
                if ex.decide(app('busy:' + self.key, sort='B')):
                    raise PyRaise('OSError', 'not empty', ex.where)
            return HostFn(name, rmdir)
        if name == 'unlink':
            def unlink(ex, a, k):
                if not fs.exists(ex, self.key):
                    if k.get('missing_ok') or a:
                        return None
                    raise PyRaise('FileNotFoundError', self.key, ex.where)
                fs.put(ex, self.key, None)
            return HostFn(name, unlink)
        if name == 'relative_to':
            def rel(ex, a, k):
                if not ex.decide(app('below:%s:%s' % (self.key, tokey(a[0]).key), sort='B')):
                    raise PyRaise('ValueError', 'not a subpath', ex.where)
                return PathH('rel:%s:%s' % (self.key, tokey(a[0]).key))
            return HostFn(name, rel)
        if name == 'read_bytes':
            return HostFn(name, lambda ex, a, k: fs.content(ex, self.key))
        if name == 'write_bytes':
            return HostFn(name, lambda ex, a, k: fs.put(ex, self.key, a[0]))
        raise Unsupported('path.%s' % name)

    def deepcopy(self, ex):
        return self


class FileH(HostObj):
    always_true = True

    def __init__(self, key, mode):
        self.birth = birth()
        self.key, self.mode = key, mode

    def enter(self, ex):
        return self

    def getattr(self, ex, name):
        fs = fsof(ex)
        if name in ('close', 'flush'):
            return HostFn(name, lambda ex, a, k: None)
        if name == 'read' and 'r' in self.mode:
            def read(ex, a, k):
                if a:
                    raise Unsupported('reading a file in pieces')
                if 'b' not in self.mode:
                    raise Unsupported('reading text')
                return fs.content(ex, self.key)
            return HostFn(name, read)
        if name == 'write' and 'w' in self.mode:
            def write(ex, a, k):
                if 'b' not in self.mode:
                    raise Unsupported('writing text')
                v = fs.files[self.key]
                if not isinstance(v, ListV):
                    v = ListV([])
                    fs.put(ex, self.key, v)
                ex.call(ex.getattr(v, 'append'), [a[0]], {})
            return HostFn(name, write)
        raise Unsupported('file.%s' % name)

    def deepcopy(self, ex):
        raise Unsupported('copy of a file')


class GhostFS:
    def __init__(self):
        self.files = {}
        self.writes = []

    def put(self, ex, key, v):
        ex.setitem(self.files, key, v)
        self.writes.append(key)

    def exists(self, ex, key):
        if key in self.files:
            return self.files[key] is not None
        if key.endswith('/..'):
            return ex.decide(app('dir:' + key, sort='B'))
        r = ex.decide(app('file:' + key, sort='B'))
        self.files[key] = app('content:' + key, sort='U') if r else None
        return r

    def content(self, ex, key):
        if not self.exists(ex, key):
            raise PyRaise('FileNotFoundError', key, ex.where)
        v = self.files[key]
        if v == 'EMPTY' or isinstance(v, Term):
            return app('nobytes', sort='U') if v == 'EMPTY' else v
        raise Unsupported('content of the file')

    def open(self, ex, a, k):
        p = a[0]
        if not isinstance(p, PathH):
            p = tokey(p)
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if not isinstance(mode, str):
            raise Unsupported('file mode')
        if 'w' in mode:
            self.put(ex, p.key, ListV([]))
        elif 'a' in mode or '+' in mode:
            raise Unsupported('file mode %s' % mode)
        elif not self.exists(ex, p.key):
            raise PyRaise('FileNotFoundError', p.key, ex.where)
        return FileH(p.key, mode)


def tokey(v):
    if isinstance(v, PathH):
        return v
    if isinstance(v, str):
        return PathH(v)
    if isinstance(v, Opaque):
        return PathH(v.name)
    raise Unsupported('path from %s' % type(v).__name__)


def fsof(ex):
    return ex.__dict__.setdefault('gfs', GhostFS())


@external('open')
def ext_open(ex, a, k):
    return fsof(ex).open(ex, a, k)


@external('pathlib.Path')
def ext_path(ex, a, k):
    return tokey(a[0])


@external('pathlib.Path.home')
def ext_home(ex, a, k):
    return PathH('home')


@external('shutil.move')
def ext_move(ex, a, k):
    fs, s, d = fsof(ex), tokey(a[0]), tokey(a[1])
    if not fs.exists(ex, s.key):
        raise PyRaise('FileNotFoundError', s.key, ex.where)
    fs.put(ex, d.key, fs.files[s.key])
    fs.put(ex, s.key, None)
    return d


@external('hashlib.md5')
def ext_md5(ex, a, k):
    return DigestH('md5', a[0] if a else None)


@external('hashlib.sha256')
def ext_sha(ex, a, k):
    return DigestH('sha256', a[0] if a else None)


class DigestH(HostObj):
    always_true = True

    def __init__(self, name, data):
        self.birth = birth()
        self.name, self.data = name, data

    def getattr(self, ex, name):
        if name == 'update':
            def update(ex, a, k):
                if self.data is not None:
                    raise Unsupported('hashing in pieces')
                ex.setattr(self, 'data', a[0])
            return HostFn(name, update)
        if name == 'hexdigest':
            def hexd(ex, a, k):
                d = self.data if self.data is not None else app('nobytes', sort='U')
                if not isinstance(d, Term):
                    raise Unsupported('hash of %s' % type(d).__name__)
                return app(self.name, d, sort='U')
            return HostFn(name, hexd)
        raise Unsupported('digest.%s' % name)


@external('pickle.dump')
def ext_dump(ex, a, k):
    f = a[1]
    if not isinstance(f, FileH) or 'w' not in f.mode or 'b' not in f.mode:
        raise Unsupported('pickle.dump into %s' % type(f).__name__)
    fsof(ex).files[f.key] = ('pickle', lib.deepcopy_val(ex, a[0]))
    return None


@external('pickle.load')
def ext_load(ex, a, k):
    f = a[0]
    if not isinstance(f, FileH) or 'r' not in f.mode or 'b' not in f.mode:
        raise Unsupported('pickle.load')
    v = fsof(ex).files.get(f.key)
    if not (isinstance(v, tuple) and v[0] == 'pickle'):
        raise Unsupported('pickle.load of an unknown file')
    return lib.deepcopy_val(ex, v[1])


def reach(v, seen=None):
    """Mutable objects reachable from a value, by identity."""
    seen = {} if seen is None else seen
    if id(v) in seen:
        return seen
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            reach(x, seen)
        return seen
    if isinstance(v, dict):
        for x in v.values():
            reach(x, seen)
        return seen
    if isinstance(v, (ListV, SetV, DictV, ObjV, Tensor, tlib.RTensor, Sparse, HostObj)):
        seen[id(v)] = v
    if isinstance(v, DictV):
        if v.d is not None:
            for x in v.d.values():
                reach(x, seen)
        if isinstance(v.st, vals.VecMap):
            own_tokens(v.st.own, seen)
    elif isinstance(v, lib.InnerRef):
        reach(v.owner, seen)
    elif isinstance(v, lib.TableV):
        for k, x in v.tabs:
            if x is not MISSING:
                reach(x, seen)
    elif isinstance(v, (ListV, SetV)):
        for bs, cs, x in leaves(v.nodes):
            reach(x, seen)
    elif isinstance(v, ObjV):
        for x in v.attrs.values():
            reach(x, seen)
    return seen


def own_tokens(o, seen):
    if isinstance(o, lib.SharedOwner):
        for x in o.owners:
            own_tokens(x, seen)
    elif isinstance(o, lib.MaybeOwner):
        sub = {}
        own_tokens(o.o, sub)
        for x in sub.values():
            seen[('maybe', id(x))] = x
    else:
        seen[id(o)] = o


def tables(v):
    return [x for x in reach(v).values() if isinstance(x, lib.TableV)]


def independent(ex, label, a, b):
    """No mutable object is reachable from both."""
    for t in tables(a) + tables(b):      # materialise the cache of an arbitrary group
        if t.contains(ex, app('probed', sort='U')) is True:
            t.getitem(ex, app('probed', sort='U'))
    ra, rb = reach(a), reach(b)
    common = [ra[k] for k in ra if k in rb]
    if common:
        ex.fail(label, 'shared: %s' % ', '.join(sorted({type(x).__name__ for x in common})))
        return
    base = lambda k: k[1] if isinstance(k, tuple) else k
    if {base(k) for k in ra} & {base(k) for k in rb}:
        ex.undecided(label, 'the entries of the hyperedge dictionaries may be shared')
    else:
        ex.ok(label)
