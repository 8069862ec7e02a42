"""P24: downloads.  Files are ghost state (path -> content), the network is an arbitrary environment: every request may deliver
any body, any status, or fail in any way."""
from pyvc.spec import *
from contracts.ghostfs import PathH, FileH, fsof, external
from contracts.structs import list_eq

D = 'dhg.utils.download'
KEY = 'target'
HTTP, REQ = 'requests.HTTPError', 'requests.ConnectionError'


def md5(c):
    return app('md5', c, sort='U')


# ------------------------------------------------------------------ the network
class Response(lib.HostObj):
    always_true = True

    def __init__(self, status, broken):
        self.birth = birth()
        self.status, self.broken = status, broken

    def enter(self, ex):
        return self

    def getattr(self, ex, name):
        if name == 'status_code':
            return self.status
        if name == 'ok':
            return lt(self.status, const(400))
        if name == 'iter_content':
            def it(ex, a, k):
                if self.broken:
                    raise PyRaise('requests.ChunkedEncodingError', 'broken', ex.where)
                q = fresh('q')
                return lib.Iter((Loop(q, isym(ex, 'chunks', 0), (Item(app('chunk', q, sort='U')),)),))
            return HostFn(name, it)
        if name == 'content':
            if self.broken:
                raise PyRaise('requests.ChunkedEncodingError', 'broken', ex.where)
            return app('body', sort='U')
        if name == 'raise_for_status':
            def rfs(ex, a, k):
                if ex.decide(le(const(400), self.status)):
                    raise PyRaise(HTTP, 'status', ex.where)
            return HostFn(name, rfs)
        if name == 'close':
            return HostFn(name, lambda ex, a, k: None)
        raise Unsupported('response.%s' % name)


class Network:
    def __init__(self, outcome):
        self.outcome, self.calls = outcome, []


@external('requests.get')
def ext_get(ex, a, k):
    net = ex.__dict__.get('network')
    if net is None:
        raise Unsupported('network')
    net.calls.append(a[0])
    o = net.outcome
    if isinstance(o, str):
        raise PyRaise(o, '', ex.where)
    return o


def target():
    return PathH(KEY)


def nonempty_chunks(nodes):
    return lib.nfilter(nodes, lambda v: app('nonempty', v, sort='B') if isinstance(v, Term) else TRUE)


@contract('download_file delivers the body', ['P24'], [D + ':download_file'])
def _(ex):
    st = isym(ex, 'status')
    ex.network = Network(Response(st, False))
    k, r = raises(ex, lambda: callq(ex, D + ':download_file', 'https://a/b', target()))
    ex.check('exactly one request, to the given address', ex.network.calls == ['https://a/b'])
    fs = fsof(ex)
    ok = eq(st, const(200))
    if k:
        ex.check('refused only when the server does not deliver', not_(ok))
        ex.check('the refusal is an HTTP error', k.replace('requests.exceptions.', 'requests.') == HTTP)
        ex.check('no file is touched', not fs.writes)
        return
    ex.check('accepted only when the server delivers', ok)
    ex.check('only the target is written', set(fs.writes) == {KEY})
    c = fs.files.get(KEY)
    label = 'the file holds the body'
    if not isinstance(c, ListV):
        (ex.ok if isinstance(c, Term) and c is app('body', sort='U') else ex.fail)(label, 'not written')
        return
    ns = nonempty_chunks(c.nodes)
    if not ns:
        ex.fail(label, 'nothing written')
        return
    if len(ns) == 1 and isinstance(ns[0], Item) or isinstance(ns[0], If):
        v = ns[0].val if isinstance(ns[0], Item) else ns[0].body[0].val
        ex.check(label, v is app('body', sort='U'))
        return
    ls = list(leaves(ns))
    if len(ns) != 1 or len(ls) != 1 or len(ls[0][0]) != 1:
        ex.undecided(label, 'written in another way')
        return
    ((q, h),), cs, v = ls[0]
    ex.check(label + ': every chunk', eq(h, isym(ex, 'chunks', 0)))
    ch = app('chunk', q, sort='U')
    rng = [le(ZERO, q), lt(q, h)]
    ex.check(label + ': no chunk is left out', eq(and_(*cs), app('nonempty', ch, sort='B')), hyps=rng)
    ex.check(label + ': in order', eq(lift(v), ch), hyps=rng)


@contract('download_file reports every failure', ['P24'], [D + ':download_file'])
def _(ex):
    for o in (REQ, HTTP, 'requests.Timeout', 'RuntimeError', Response(const(200), True)):
        ex.network = Network(o)
        k, r = raises(ex, lambda: callq(ex, D + ':download_file', 'https://a/b', target()))
        (ex.ok if k else ex.fail)('a failing transfer is reported', 'returned')
        ex.check('exactly one request', len(ex.network.calls) == 1)
        ex.check('as what it was', k is not None and exc_isa_any(k, o))


def exc_isa_any(k, o):
    from pyvc.core import exc_isa
    return exc_isa(k, o if isinstance(o, str) else 'requests.RequestException')


@contract('check_file', ['P24'], [D + ':check_file'])
def _(ex):
    fs = fsof(ex)
    want = app('expected', sort='U')
    k, r = raises(ex, lambda: callq(ex, D + ':check_file', target(), want))
    there = app('file:' + KEY, sort='B')
    c = app('content:' + KEY, sort='U')
    if k:
        ex.check('a missing file is reported', and_(not_(there), k == 'FileNotFoundError'))
    else:
        ex.check('exists', there)
        ex.check('valid exactly when the checksum of the content is the expected one', eq_any(lift(r), eq(md5(c), want)))
    ex.check('nothing is changed', not fs.writes)


# ------------------------------------------------------------------ retries
for _n in (1, 2, 3, 4):
    @contract('retry, at most %d attempts' % _n, ['P24'], [D + ':_retry'])
    def _(ex, n=_n):
        seq = [HTTP] * n + ['ok']
        for good in range(n + 1):                    # first attempt that is not an HTTP error
            for last in ('ok', REQ, 'ValueError', 'RuntimeError'):
                outcomes = [HTTP] * good + [last] + ['ok'] * n
                calls = []

                def fetch(ex, a, k):
                    calls.append((list(a), dict(k)))
                    o = outcomes[len(calls) - 1]
                    if o != 'ok':
                        raise PyRaise(o, 'attempt %d' % len(calls), ex.where)
                    return 'result %d' % len(calls)
                deco = callq(ex, D + ':_retry', n)
                w = ex.call(deco, [HostFn('fetcher', fetch)], {})
                k, r = raises(ex, lambda: ex.call(w, ['x'], {'y': 5}))
                exp = min(good + 1, n)
                ex.check('attempted until it succeeds, fails otherwise, or the attempts are used up', len(calls) == exp)
                ex.check('with the same arguments', all(c == (['x'], {'y': 5}) for c in calls))
                if good >= n:
                    ex.check('the last error is reported', k == HTTP)
                elif last == 'ok':
                    ex.check('the result is returned', k is None and r == 'result %d' % exp)
                else:
                    ex.check('other errors are reported at once', k == last)


# ------------------------------------------------------------------ the whole operation
class Source:
    """Summary of download_file: one request that ends in one of five ways."""

    def __init__(self, ex):
        self.urls = []
        self.log = []

    def __call__(self, ex, a, k):
        url, path = a[0], a[1]
        i = len(self.urls)
        self.urls.append(url)
        if path.key != KEY:
            self.log.append('another file')
        fs = fsof(ex)
        pick = lambda s: ex.decide(app('net%d:%s' % (i, s), sort='B'))
        if pick('delivers'):
            fs.put(ex, path.key, app('download%d' % i, sort='U'))
            self.log.append('ok')
            return None
        if pick('http'):
            self.log.append(HTTP)
            raise PyRaise(HTTP, '', ex.where)
        if pick('request'):
            if pick('partial'):
                fs.put(ex, path.key, app('part%d' % i, sort='U'))
            self.log.append(REQ)
            raise PyRaise(REQ, '', ex.where)
        self.log.append('RuntimeError')
        raise PyRaise('RuntimeError', '', ex.where)


OFFICIAL, PRIVATE = 'https://huggingface.co/datasets/iMoonLab/DHG-data/resolve/main/datasets/', 'https://example.org/datasets/'
BACKUP = 'https://download.moon-lab.tech:28501/datasets/'

for _official in (True, False):
    @contract('download_and_check, %s address' % ('official' if _official else 'private'), ['P24'], [D + ':download_and_check', D + ':_retry', D + ':_try_migrate_from_legacy_cache'])
    def _(ex, official=_official):
        src = Source(ex)
        ex.suite.summaries = dict(ex.suite.summaries, **{D + ':download_file': src})
        fs = fsof(ex)
        want = app('expected', sort='U')
        there = fs.exists(ex, KEY)
        valid = and_(app('file:' + KEY, sort='B'), eq(md5(app('content:' + KEY, sort='U')), want))
        url = (OFFICIAL if official else PRIVATE) + 'cora/x.pkl'
        k, r = raises(ex, lambda: callq(ex, D + ':download_and_check', url, target(), want))
        left = fs.files.get(KEY)
        if k is None:
            ex.check('success only with the expected checksum on disk', isinstance(left, Term) and eq(md5(left), want))
            ex.check('success is reported', lift(r))
        else:
            ex.check('a valid file already present is used', not_(valid))
            if isinstance(left, Term):
                # what is left may only come from a transfer that broke off; it is checked before every later use
                ex.check('a file with a wrong checksum is never left behind by a checked attempt', bool(src.log) and src.log[-1] == REQ or src.log and src.log[-1] in (HTTP, 'RuntimeError') and REQ in src.log)
            if not src.urls:
                ex.check('a failure without a request is a corrupted file, reported', k == 'ValueError')
        if there:
            ex.check('no network access while a file is present', not src.urls)
        other = [w for w in fs.writes if w != KEY and not w.startswith('home/')]
        ex.check('no other file is touched', not other and 'another file' not in src.log)
        # the requests
        good = all(u == url for u in src.urls) if not official else all(u in (url, BACKUP + 'cora/x.pkl') for u in src.urls)
        ex.check('only the given address, or for the official location its backup, is contacted', good)
        ex.check('a bounded number of requests', len(src.urls) <= (6 if official else 3))
        if official:
            for i, u in enumerate(src.urls):
                if u != url:
                    ex.check('the backup is asked only after the primary source failed', i > 0 and src.urls[i - 1] == url and src.log[i - 1] in (HTTP, REQ))
                elif i + 1 < len(src.urls) or k is not None:
                    pass
            for i, o in enumerate(src.log):
                if src.urls[i] == url and o in (HTTP, REQ):
                    ex.check('a failed primary source falls back to the backup', i + 1 < len(src.urls) and src.urls[i + 1] != url)
        if k == HTTP:
            n = len([u for u in src.urls if u == url])
            ex.check('transient errors are retried', n == 3)
