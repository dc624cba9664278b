"""Reference semantics of the ensembles, and construction of the real models.

The reference computes nothing but the law of each model on each ordered pair
and label; every expected value, likelihood and distribution follows from it
by enumeration or by direct summation over pairs.
"""
import itertools
import math
import warnings

import numpy as np

import graph_ensembles as ge_dense
import graph_ensembles.sparse as ge_sparse

KINDS = ("random", "fitness", "invariant", "mfitness", "minvariant")
SINGLE = ("random", "fitness", "invariant")
MULTI = ("mfitness", "minvariant")
CLS = {"random": "RandomDiGraph", "fitness": "FitnessModel",
       "invariant": "ScaleInvariantModel", "mfitness": "MultiFitnessModel",
       "minvariant": "MultiInvariantModel"}
BACKS = ("dense", "sparse", "spark")
INF = float("inf")


def module(back):
    if back == "dense":
        return ge_dense
    if back == "sparse":
        return ge_sparse
    import graph_ensembles.spark as ge_spark

    return ge_spark


def backs(ctx):
    return BACKS


_sc = {}


def context(policy=None):
    from mc.fakespark import FakeContext

    return FakeContext(policy)


def model_class(back, kind):
    return getattr(module(back), CLS[kind])


class Spec:
    """One closed model instance."""

    def __init__(self, kind, n, x=None, y=None, param=1.0, loops=False, L=1, q=0.0):
        self.kind = kind
        self.n = n
        self.L = L
        self.multi = kind in MULTI
        self.x = None if x is None else np.array(x, dtype=float)
        self.y = None if y is None else np.array(y, dtype=float)
        self.param = param
        self.loops = loops
        self.q = q

    def key(self):
        f = lambda a: None if a is None else np.array(a).tolist()
        return (f"{self.kind}.n{self.n}.L{self.L}.x{f(self.x)}.y{f(self.y)}"
                f".p{f(self.param)}.s{int(self.loops)}").replace(" ", "")

    # -- law -------------------------------------------------------------
    def t(self, l, i, j):
        """delta * fitness product of a pair in a layer"""
        d = self.par(l)
        a = self.x[i, l] if self.multi else self.x[i]
        b = self.y[j, l] if self.multi else self.y[j]
        if d == 0 or a == 0 or b == 0:
            return 0.0
        # magnitude first, so that intermediate overflow cannot happen
        e = math.log(a) + math.log(b) + (INF if math.isinf(d) else math.log(d))
        t = a * b * d
        if math.isinf(t) or t == 0:
            t = math.exp(e) if e < 709 else INF
        return t

    def par(self, l):
        p = self.param
        return float(p[l] if np.ndim(p) else p)

    def law(self, l, i, j):
        """(p, q, log p, log q) of the pair in the layer"""
        if self.kind == "random":
            p = float(self.param)
            return (p, 1 - p, math.log(p) if p > 0 else -INF,
                    math.log1p(-p) if p < 1 else -INF)
        return LAW[self.kind[1:] if self.multi else self.kind](self.t(l, i, j))

    def tab(self):
        """pl[l,i,j], ql, logp, logq ignoring the self-loop setting"""
        if not hasattr(self, "_tab"):
            sh = (self.L, self.n, self.n)
            r = [np.zeros(sh) for _ in range(4)]
            for l, i, j in np.ndindex(*sh):
                for a, v in zip(r, self.law(l, i, j)):
                    a[l, i, j] = v
            self._tab = r
        return self._tab

    def allowed(self, loops=None):
        s = self.loops if loops is None else loops
        return np.ones((self.n, self.n), bool) if s else ~np.eye(self.n, dtype=bool)

    def pl(self, loops=None):
        return self.tab()[0] * self.allowed(loops)

    def agg(self, loops=None):
        """P(at least one link) per ordered pair, and its complement"""
        p, q = self.tab()[:2]
        if self.L == 1:
            P, Q = p[0].copy(), q[0].copy()
        else:
            Q = np.prod(q, axis=0)
            lq = self.tab()[3].sum(axis=0)
            P = -np.expm1(lq)
            one = (p >= 1).any(axis=0)
            P[one] = 1.0
        m = self.allowed(loops)
        return P * m, np.where(m, Q, 1.0)

    # -- expected values ---------------------------------------------------
    def exp_edges(self):
        return self.agg()[0].sum()

    def exp_edges_label(self):
        return self.pl().sum(axis=(1, 2))

    @staticmethod
    def und(P):
        """probability of a link in either direction; self-loop once"""
        U = P + P.T - P * P.T
        U[np.diag_indices_from(U)] = np.diag(P)
        return U

    def exp_deg(self, which, loops=None):
        P = self.agg(loops)[0]
        return {"out": P.sum(1), "in": P.sum(0), "out-in": self.und(P).sum(1)}[which]

    def exp_deg_label(self, which):
        pl = self.pl()
        r = np.zeros((self.n, self.L))
        for l in range(self.L):
            P = pl[l]
            r[:, l] = {"out": P.sum(1), "in": P.sum(0),
                       "out-in": self.und(P).sum(1)}[which]
        return r

    def exp_av_nn(self, prop, ndir, loops):
        P = self.agg(loops)[0]
        M = {"out": P, "in": P.T, "out-in": self.und(P)}[ndir]
        d = M.sum(1)
        prop = np.asarray(prop, float)
        num = np.tensordot(M, prop, axes=1)
        out = np.zeros_like(num)
        for i in range(self.n):
            if d[i] != 0:
                out[i] = num[i] / d[i]
        return out

    # -- likelihood ----------------------------------------------------------
    def loglik(self, A, loops=None):
        """A: (n,n) projected adjacency or (L,n,n) tensor of 0/1"""
        A = np.asarray(A) != 0
        m = self.allowed(loops)
        if A.ndim == 3:
            _, _, lp, lq = self.tab()
        else:
            P, Q = self.agg(True)
            lq = self.tab()[3].sum(axis=0)
            with np.errstate(divide="ignore"):
                lp = np.where(P > 0, np.log(np.where(P > 0, P, 1)), -INF)
            A = A[None]
            lp, lq = lp[None], lq[None]
        if (A & ~m[None]).any():
            return -INF
        tot = np.where(A, lp, lq)[np.broadcast_to(m, A.shape)]
        if np.isinf(tot).any():
            return -INF
        return math.fsum(tot.tolist())

    # -- construction --------------------------------------------------------
    def kwargs(self, dtype=float, wrap=None):
        kw = dict(num_vertices=self.n, selfloops=self.loops)
        if self.kind == "random":
            kw["param"] = np.array([self.param, self.q], dtype=float)
            return kw
        wrap = wrap or (lambda a: a)
        kw["prop_out"] = wrap(self.x.astype(dtype))
        kw["prop_in"] = wrap(self.y.astype(dtype))
        if self.multi:
            kw["num_labels"] = self.L
            kw["param"] = (np.array(self.param, dtype=float) if np.ndim(self.param)
                           else np.array([float(self.param)]))
        else:
            kw["param"] = np.array([float(self.param)])
        return kw

    def build(self, back, sc=None, dtype=float, wrap=None, **extra):
        kw = self.kwargs(dtype, wrap)
        kw.update(extra)
        return build(back, self.kind, sc=sc, **kw)


def build(back, kind, *args, sc=None, **kw):
    cls = model_class(back, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if back == "spark":
            return cls(sc or context(), *args, **kw)
        return cls(*args, **kw)


def _fit_law(t):
    if math.isinf(t):
        return 1.0, 0.0, 0.0, -INF
    if t == 0:
        return 0.0, 1.0, -INF, 0.0
    p = t / (1 + t)
    return p, 1 / (1 + t), -math.log1p(1 / t) if t > 1e-300 else math.log(t), -math.log1p(t)


def _inv_law(t):
    if math.isinf(t):
        return 1.0, 0.0, 0.0, -INF
    if t == 0:
        return 0.0, 1.0, -INF, 0.0
    p = -math.expm1(-t)
    return p, math.exp(-t), (math.log(p) if t < 1 else math.log1p(-math.exp(-t))), -t


LAW = {"fitness": _fit_law, "invariant": _inv_law}


def graphs_on(n, loops, L=1):
    """Every adjacency tensor (L,n,n) of a graph with n vertices."""
    cells = [(l, i, j) for l in range(L) for i in range(n) for j in range(n)
             if loops or i != j]
    for bits in itertools.product((0, 1), repeat=len(cells)):
        A = np.zeros((L, n, n), dtype=int)
        for b, c in zip(bits, cells):
            A[c] = b
        yield A


def vectors(n, values):
    return itertools.product(values, repeat=n)
