"""Executable reference contracts for the graph structures (plain Python / numpy, independent of the code under test)."""
import numpy as np


def merge(op, a, b):
    if op == 'mean':
        return (a + b) / 2
    if op == 'sum':
        return a + b
    if op == 'max':
        return a if a >= b else b
    raise ValueError(op)


class RefGraph:
    """kind: 'g' undirected, 'd' directed, 'b' bipartite (n x m)."""

    def __init__(self, kind, n, m=None):
        self.kind, self.n, self.m = kind, n, m
        self.E = {}
        self.extra = False

    def copy(self):
        r = RefGraph(self.kind, self.n, self.m)
        r.E = dict(self.E)
        r.extra = self.extra
        return r

    def key(self, a, b):
        return (min(a, b), max(a, b)) if self.kind == 'g' else (a, b)

    def valid(self, edges):
        if self.kind == 'b':
            return all(0 <= a < self.n and 0 <= b < self.m for a, b in edges)
        return all(0 <= a < self.n and 0 <= b < self.n for a, b in edges)

    def add(self, edges, ws=None, op='mean'):
        ws = [1.0] * len(edges) if ws is None else ws
        for (a, b), w in zip(edges, ws):
            k = self.key(a, b)
            self.E[k] = merge(op, self.E[k], w) if k in self.E else w

    def remove(self, edges):
        for a, b in edges:
            self.E.pop(self.key(a, b), None)

    def remove_selfloops(self):
        self.E = {k: w for k, w in self.E.items() if k[0] != k[1]}
        self.extra = False

    def reverse(self):
        self.E = {(b, a): w for (a, b), w in self.E.items()}

    def switch(self):
        r = RefGraph('b', self.m, self.n)
        r.E = {(b, a): w for (a, b), w in self.E.items()}
        return r

    # content as a sorted multiset of (a, b, w)
    def content(self):
        out = [(a, b, float(w)) for (a, b), w in self.E.items()]
        if self.extra:
            out += [(v, v, 1.0) for v in range(self.n)]
        return sorted(out)

    # dense weight matrix: [target/source] orientation A[src, dst] for directed; symmetric otherwise
    def A(self, selfloops=True, extra=None):
        extra = self.extra if extra is None else extra
        if self.kind == 'b':
            B = np.zeros((self.n, self.m))
            for (u, v), w in self.E.items():
                B[u, v] += w
            return B
        A = np.zeros((self.n, self.n))
        for (a, b), w in self.E.items():
            if a == b:
                if selfloops:
                    A[a, a] += w
            else:
                A[a, b] += w
                if self.kind == 'g':
                    A[b, a] += w
        if extra:
            A += np.eye(self.n)
        return A

    def S(self, extra=None):
        """Structural 0/1 matrix (an edge of weight zero is still an edge)."""
        extra = self.extra if extra is None else extra
        shape = (self.n, self.m) if self.kind == 'b' else (self.n, self.n)
        M = np.zeros(shape)
        for (a, b) in self.E:
            M[a, b] = 1
            if self.kind == 'g':
                M[b, a] = 1
        if extra and self.kind != 'b':
            for v in range(self.n):
                M[v, v] = 1
        return M


def inv0(d):
    d = np.asarray(d, dtype=float)
    out = np.zeros_like(d)
    nz = d != 0
    out[nz] = 1.0 / d[nz]
    return out


def rsqrt0(d):
    d = np.asarray(d, dtype=float)
    out = np.zeros_like(d)
    nz = d > 0
    out[nz] = 1.0 / np.sqrt(d[nz])
    return out


def aggregate(S, W, X, aggr):
    """Row-wise aggregation over the support S with weights W."""
    out = np.zeros((W.shape[0], X.shape[1]))
    for i in range(W.shape[0]):
        cols = [j for j in range(W.shape[1]) if S[i, j]]
        if not cols:
            continue
        w = np.array([W[i, j] for j in cols], dtype=float)
        if aggr == 'mean':
            t = w.sum()
            w = w / t if t != 0 else np.zeros_like(w)
        elif aggr == 'softmax_then_sum':
            e = np.exp(w - w.max())
            w = e / e.sum()
        out[i] = (w[:, None] * X[cols]).sum(0)
    return out


class RefHyper:
    def __init__(self, n, v_weight=None):
        self.n = n
        self.G = {}  # name -> {sorted tuple: w}
        self.vw = list(v_weight) if v_weight is not None else [1.0] * n

    def copy(self):
        r = RefHyper(self.n, self.vw)
        r.G = {k: dict(v) for k, v in self.G.items()}
        return r

    @staticmethod
    def code(e):
        return tuple(sorted(e))

    def add(self, es, ws=None, op='mean', group='main'):
        if ws is None:
            ws = [1.0] * len(es)
        elif isinstance(ws, (int, float)):
            ws = [float(ws)] * len(es)
        for e, w in zip(es, ws):
            g = self.G.setdefault(group, {})
            c = self.code(e)
            g[c] = merge(op, g[c], float(w)) if c in g else float(w)

    def remove(self, es, group=None):
        for e in es:
            for name in ([group] if group is not None else list(self.G)):
                self.G[name].pop(self.code(e), None)

    def remove_group(self, name):
        self.G.pop(name, None)

    def edges(self, group=None):
        names = list(self.G) if group is None else [group]
        es, ws = [], []
        for nme in names:
            es += list(self.G[nme].keys())
            ws += list(self.G[nme].values())
        return es, ws

    def H(self, group=None):
        es, _ = self.edges(group)
        H = np.zeros((self.n, len(es)))
        for j, e in enumerate(es):
            for v in e:
                H[v, j] += 1
        return H

    def W(self, group=None):
        return np.array(self.edges(group)[1], dtype=float)
