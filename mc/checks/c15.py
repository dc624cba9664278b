"""C15 The conditional model is the ensemble conditioned on the aggregate graph.

Oracle: the scale-invariant law of every ordered pair, blocks of pairs between
two groups independent, and each block conditioned by enumeration of all its
link sets on having a link exactly if the aggregate graph has one.
"""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sp

import graph_ensembles.sparse as ges
from mc import modelkit as mk
from mc.checks import sampling
from mc.checks import sizes
from mc.checks.c07 import VX, VY, mask_vec
from mc.core import close, dense, explore
from mc.rngctl import Source

INF = float("inf")


class CSpec:
    multi = False
    L = 1

    def __init__(self, n, groups, A, x, y, d, loops):
        self.n, self.groups, self.loops, self.d = n, tuple(groups), loops, float(d)
        self.A = np.array(A, float)
        self.M = len(self.A)
        self.x, self.y = np.array(x, float), np.array(y, float)

    def key(self):
        a = "".join(str(int(v != 0)) for v in self.A.ravel())
        g = "".join(map(str, self.groups))
        return (f"n{self.n}.g{g}.A{a}.x{self.x.tolist()}.y{self.y.tolist()}"
                f".d{self.d}.s{int(self.loops)}").replace(" ", "")

    def pairs(self, a, b, loops=None):
        s = self.loops if loops is None else loops
        return [(i, j) for i in range(self.n) for j in range(self.n)
                if self.groups[i] == a and self.groups[j] == b and (s or i != j)]

    def feasible(self, loops=None):
        """every link of the aggregate graph can be realised"""
        return all(any(self.x[i] * self.y[j] > 0 for i, j in self.pairs(a, b, loops))
                   for a, b in np.argwhere(self.A != 0))

    def block(self, a, b, loops=None):
        """dict: set of links -> conditional probability"""
        pr = self.pairs(a, b, loops)
        if self.A[a, b] == 0:
            return {frozenset(): 1.0}
        t = {p: self.x[p[0]] * self.y[p[1]] for p in pr}
        live = [p for p in pr if t[p] > 0]
        T = math.fsum(t[p] for p in live)
        d = self.d
        if d * T < 1e-9:
            # exactly one link, to first order
            return {frozenset([p]): t[p] / T for p in live}
        if math.isinf(d):
            return {frozenset(live): 1.0}
        out = {}
        norm = -math.expm1(-d * T)
        for k in range(1, len(live) + 1):
            for S in itertools.combinations(live, k):
                pr = 1.0
                for p in live:
                    pr *= -math.expm1(-d * t[p]) if p in S else math.exp(-d * t[p])
                if pr > 0:
                    out[frozenset(S)] = pr / norm
        return out

    def blocks(self, loops=None):
        k = "_b%s" % loops
        if not hasattr(self, k):
            setattr(self, k, {(a, b): self.block(a, b, loops) for a in range(self.M)
                              for b in range(self.M)})
        return getattr(self, k)

    def marginals(self, loops=None):
        P = np.zeros((self.n, self.n))
        for bl in self.blocks(loops).values():
            for S, p in bl.items():
                for i, j in S:
                    P[i, j] += p
        U = np.zeros((self.n, self.n))
        for i in range(self.n):
            for j in range(self.n):
                a, b = self.groups[i], self.groups[j]
                if i == j:
                    U[i, i] = P[i, i]
                elif a == b:
                    U[i, j] = sum(p for S, p in self.blocks(loops)[(a, a)].items()
                                  if (i, j) in S or (j, i) in S)
                else:
                    U[i, j] = P[i, j] + P[j, i] - P[i, j] * P[j, i]
        return P, U

    def distribution(self, loops=None):
        out = {frozenset(): 1.0}
        for bl in self.blocks(loops).values():
            out = {S | T: p * q for S, p in out.items() for T, q in bl.items()}
        res = {}
        for S, p in out.items():
            v = np.zeros((self.n, self.n), int)
            for c in S:
                v[c] = 1
            res[tuple(v.ravel().tolist())] = p
        return res

    def build(self, form="array", gtype=np.int64, **kw):
        A = self.A
        if form == "csr":
            A = sp.csr_array(A)
        elif form == "csc":
            A = sp.csc_array(A)
        elif form == "coo":
            A = sp.coo_array(A)
        elif form == "matrix":
            A = sp.csr_matrix(A)
        elif form == "zeros":
            r, c = np.indices(A.shape)
            A = sp.csr_array((A.ravel(), (r.ravel(), c.ravel())), shape=A.shape)
        elif form == "dup":
            A = repeated(A)
        elif form == "int":
            A = (A != 0).astype(int)
        elif form == "bool":
            A = A != 0
        g = self.groups if gtype is list else np.array(self.groups, dtype=gtype)
        if gtype is list:
            g = list(self.groups)
        k = dict(num_vertices=self.n, prop_out=self.x.copy(), prop_in=self.y.copy(),
                 groups=g, adj=A, param=self.d, selfloops=self.loops)
        k.update(kw)
        k = {a: b for a, b in k.items() if b is not None}
        before = dense(A).copy(), g if gtype is list else g.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = ges.ConditionalInvariantModel(**k)
        if not (np.array_equal(dense(A), before[0]) and np.array_equal(g, before[1])):
            raise AssertionError("building the model changed the caller's aggregate graph or groups")
        return m


def repeated(A):
    """every entry stored in two parts, in falling order, with stored zeros"""
    ptr, ind, dat = [0], [], []
    for row in A:
        for part in (0.25, 0.75):
            for j in reversed(range(len(row))):
                ind.append(j)
                dat.append(row[j] * part)
        ptr.append(len(ind))
    return sp.csr_array((np.array(dat), np.array(ind), np.array(ptr)), shape=A.shape)


def group_maps(n, M):
    for g in itertools.product(range(M), repeat=n):
        if set(g) == set(range(M)):
            yield g


def aggs(M):
    W = np.array([[2.0, 0.5, 3.0], [1.0, 4.0, 0.25], [1.5, 2.5, 0.75]])[:M, :M]
    for bits in itertools.product((0, 1), repeat=M * M):
        yield W * np.array(bits).reshape(M, M)


def specs(ctx):
    ds = (0.0, 1e-20, 0.4, 30.0, INF)
    for n, M in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        for g in group_maps(n, M):
            for A in aggs(M):
                for loops in (False, True):
                    one = (1,) * n
                    masks = [(one, one)]
                    for k in range(n):
                        z = tuple(int(i != k) for i in range(n))
                        masks += [(z, one), (one, z), (z, z)]
                    for bx, by in masks:
                        for d in ds:
                            if n == 3 and not ctx.thorough and (bx, by) != (one, one) and d not in (0.4, INF):
                                continue
                            s = CSpec(n, g, A, mask_vec(VX, bx), mask_vec(VY, by), d, loops)
                            if s.feasible():
                                yield s
    # three groups, and four vertices
    for n, g in ((3, (2, 0, 1)), (4, (0, 1, 0, 2)), (4, (0, 1, 1, 0)), (4, (0, 0, 0, 1))):
        M = max(g) + 1
        for k, A in enumerate(aggs(M)):
            if M == 3 and not ctx.thorough and k % 7 != 3:
                continue
            for loops in (False, True):
                for d in (0.0, 0.3):
                    s = CSpec(n, g, A, VX[:n], VY[:n], d, loops)
                    if s.feasible():
                        yield s


def expected(ctx):
    for s in specs(ctx):
        if ctx.jit and (s.n == 3 and s.d not in (0.0, 0.4)):
            continue
        if not ctx.take(s.key(), group=s.n):
            continue
        with ctx.guard("expected"):
            one_expected(ctx, s, s.build())


def one_expected(ctx, s, m, tag=""):
    P, U = s.marginals()
    ctx.run()
    for name, want in (("expected_num_edges", P.sum()), ("expected_degree", U.sum(1)),
                       ("expected_out_degree", P.sum(1)), ("expected_in_degree", P.sum(0))):
        ok, v = ctx.call(name + tag, getattr(m, name))
        if ok:
            ctx.same(name + tag, v, want, 1e-9, 1e-12, spec=s.key())
    ctx.state(P)


def neighbours(ctx):
    prop = np.array([1.5, -2.0, 4.25, 0.5])
    prop2 = np.array([[1.0, 2.0], [3.0, -5.0], [7.0, 11.0], [0.5, 0.25]])
    for s in specs(ctx):
        if ctx.jit and s.d != 0.4:
            continue
        if not ctx.take(s.key(), group=s.n):
            continue
        with ctx.guard("expected_av_nn"):
            m = s.build()
            for sl in (s.loops, None, not s.loops):
                eff = s.loops if sl is None else sl
                if not s.feasible(eff):
                    continue
                P, U = s.marginals(eff)
                M = {"out": P, "in": P.T, "out-in": U}
                for nd in M:
                    for pv in (prop[: s.n], prop2[: s.n]):
                        ctx.run()
                        ok, v = ctx.call("expected_av_nn_property", m.expected_av_nn_property,
                                         pv, ndir=nd, selfloops=sl)
                        if ok:
                            ctx.same("expected_av_nn_property", v, avg(M[nd], pv), 1e-9, 1e-12,
                                     spec=s.key(), ndir=nd, selfloops=sl)
                    for dd in M:
                        ok, v = ctx.call("expected_av_nn_degree", m.expected_av_nn_degree,
                                         ndir=nd, ddir=dd, selfloops=sl)
                        if ok:
                            ctx.same("expected_av_nn_degree", v, avg(M[nd], M[dd].sum(1)), 1e-9, 1e-12,
                                     spec=s.key(), ndir=nd, ddir=dd, selfloops=sl)
            one_expected(ctx, s, m, " after av_nn")


def avg(M, prop):
    d = M.sum(1)
    num = M @ prop
    r = np.zeros_like(num, dtype=float)
    r[d != 0] = (num[d != 0].T / d[d != 0]).T
    return r


def likelihood(ctx):
    for s in specs(ctx):
        if s.n > 3 or (s.n == 3 and s.loops and not ctx.thorough and s.d not in (0.4, 0.0)):
            continue
        if s.n == 3 and not ctx.thorough and min(s.x.min(), s.y.min()) == 0 and s.d != 0.4:
            continue
        if ctx.jit and (s.n > 2 or s.d not in (0.0, 0.4, INF)):
            continue
        if not ctx.take(s.key(), group=s.n):
            continue
        with ctx.guard("log_likelihood"):
            one_like(ctx, s)


def one_like(ctx, s):
    m = s.build()
    dist = s.distribution()
    tot = 0.0
    for A in mk.graphs_on(s.n, True):
        A = A[0]
        if not s.loops and s.n == 3 and np.trace(A) > 1:
            continue
        if s.n == 3 and s.loops and not ctx.thorough:
            # all consistent graphs, and the inconsistent ones with few links
            if tuple(A.ravel().tolist()) not in dist and A.sum() > 2:
                continue
        ctx.run()
        ok, v = ctx.call("log_likelihood", m.log_likelihood, A)
        if not ok:
            return
        p = dist.get(tuple(A.ravel().tolist()), 0.0)
        if p == 0:
            # below the smallest probability the oracle represents, any very
            # negative value will do
            lim = -690 if (s.d == 30.0) else -43 if s.d == 1e-20 else -INF
            if not (v <= lim):
                ctx.fail("impossible graph has a likelihood", spec=s.key(), A=A, got=v)
        else:
            if not abs(v - math.log(p)) < 1e-8 * (1 + abs(math.log(p))):
                ctx.fail("log_likelihood", spec=s.key(), A=A, got=v, want=math.log(p))
            tot += math.exp(v)
    if abs(tot - 1) > 1e-9:
        ctx.fail("likelihoods do not sum to one", spec=s.key(), total=tot)


def containers(ctx):
    """the likelihood of one graph in every accepted container"""
    for s in specs(ctx):
        if s.n != 3 or s.d != 0.4 or min(s.x.min(), s.y.min()) == 0:
            continue
        if not ctx.take(s.key()):
            continue
        with ctx.guard("log_likelihood"):
            m = s.build()
            for t, p in itertools.islice(s.distribution().items(), 0, 40, 7):
                A = np.array(t).reshape(3, 3)
                forms = [A, A * 2.5, A * 0.3, A * 1e-9, sp.csc_array(A * 1e-9), repeated(A), A.astype(bool), sp.csr_array(A), sp.csc_array(A), sp.coo_array(A),
                         sp.csr_matrix(A * 0.5), zeros_stored(A), graph_of(A)]
                for k, g in enumerate(forms):
                    ctx.run()
                    ok, v = ctx.call("log_likelihood", m.log_likelihood, g)
                    if ok and abs(v - math.log(p)) > 1e-8 * (1 + abs(math.log(p))):
                        ctx.fail("log_likelihood depends on the container", form=k, got=v,
                                 want=math.log(p), A=A, spec=s.key())


def zeros_stored(A):
    r, c = np.indices(A.shape)
    return sp.csr_array((A.ravel().astype(float), (r.ravel(), c.ravel())), shape=A.shape)


def graph_of(A, w=None, groups=None):
    n = len(A)
    v = pd.DataFrame({"id": np.arange(n)})
    kw = {}
    if groups is not None:
        v["gr"] = groups
        kw["v_group"] = "gr"
    i, j = np.nonzero(A)
    e = pd.DataFrame({"src": i, "dst": j})
    if w is not None:
        e["w"] = [float(w[a, b]) for a, b in zip(i, j)]
        kw["weight"] = "w"
    return ges.DiGraph(v, e, v_id="id", src="src", dst="dst", **kw)


def sample_specs(ctx):
    for s in specs(ctx):
        if s.n > 3 or (s.n == 3 and s.M == 1 and s.loops and not ctx.thorough):
            continue
        if s.d == 30.0 and s.n == 3:
            continue
        yield s


def samples(ctx):
    for s in sample_specs(ctx):
        for how in ("plain", "other", "cremb", "wagg", "dup", "small", "large"):
            if how != "plain" and s.n == 3 and not ctx.thorough and (
                    s.d != 0.4 or min(s.x.min(), s.y.min()) == 0):
                continue
            if how in ("small", "large", "dup") and s.n == 3 and s.M == 1:
                continue
            if how == "other" and not s.feasible(not s.loops):
                continue
            if not ctx.take(s.key() + "." + how):
                continue
            with ctx.guard("sample"):
                one_sample(ctx, s, how)


SO = np.array([3.0, 0.5, 2.0])
SI = np.array([1.25, 2.25, 2.0])


def one_sample(ctx, s, how):
    loops = (not s.loops) if how == "other" else s.loops
    kw = {}
    if how == "other":
        kw["selfloops"] = loops
    so, si = SO[: s.n], SI[: s.n]
    if how == "cremb":
        si = si * so.sum() / si.sum()
    if how in ("small", "large"):  # strengths of another magnitude
        so, si = (so * 1e-6, si * 1e-5) if how == "small" else (so * 1e9, si * 1e8)
        how = "wagg"
    if how in ("cremb", "wagg"):
        kw.update(weights=how, out_strength=so.copy(), in_strength=si.copy())
    P = s.marginals(loops)[0]

    def visit(g, b, w, src):
        b, w = b[0], w[0]
        agg = np.zeros((s.M, s.M))
        lk = np.zeros((s.M, s.M), int)
        for i, j in np.argwhere(b):
            agg[s.groups[i], s.groups[j]] += w[i, j]
            lk[s.groups[i], s.groups[j]] = 1
        if src.weight > 1e-12 and not np.array_equal(lk != 0, s.A != 0):
            ctx.fail("sample does not reproduce the aggregate graph", spec=s.key(), links=b,
                     probability=src.weight)
        if (w[~b] != 0).any():
            ctx.fail("weight without a link", spec=s.key())
        if how == "wagg":
            if not close(agg, s.A, 1e-9, 1e-12):
                ctx.fail("weights do not add up to the aggregate weight", spec=s.key(), got=agg)
            for a, c in np.argwhere(s.A != 0):
                pr = [p for p in s.pairs(a, c, loops) if b[p]]
                r = [w[p] / (so[p[0]] * si[p[1]]) for p in pr]
                if max(r) - min(r) > 1e-9 * max(r):
                    ctx.fail("weights not in proportion to the strengths", spec=s.key())
        elif how == "cremb":
            if len(src.draws) != b.sum():
                ctx.fail("not one weight drawn for each link", spec=s.key())
            else:
                want = sorted(so[i] * si[j] / so.sum() / P[i, j] for i, j in np.argwhere(b))
                got = sorted(x[1] for x in src.draws)
                if not close(np.array(got), np.array(want), 1e-9):
                    ctx.fail("mean weight of links", spec=s.key(), got=got, want=want)
        elif not (w[b] == 1).all():
            ctx.fail("unweighted sample has weights", spec=s.key())

    build = (lambda: s.build("dup")) if how == "dup" else s.build
    got = sampling.distribution(ctx, build, s, visit=visit, **kw)
    sampling.compare(ctx, "distribution of samples", got, s.distribution(loops), spec=s.key(), how=how)


def samples_jit(ctx):
    """compiled sampler: support, and the cases with a single outcome"""
    for s in sample_specs(ctx):
        if s.n == 3 and s.d != 0.4:
            continue
        for how in ("plain", "cremb", "wagg"):
            if how != "plain" and (s.n == 3 and s.M == 1 or s.d != 0.4):
                continue
            if not ctx.take(s.key() + "." + how, group=how):
                continue
            with ctx.guard("sample"):
                dist = s.distribution()
                np.random.seed(ctx.seed)
                for _ in range(5):
                    kw = {}
                    so, si = SO[: s.n], SI[: s.n]
                    if how == "cremb":
                        si = si * so.sum() / si.sum()
                    if how != "plain":
                        kw.update(weights=how, out_strength=so.copy(), in_strength=si.copy())
                    ctx.run()
                    ok, g = ctx.call("sample", s.build().sample, **kw)
                    if ok:
                        b, w = sampling.read_links(g, s)
                        if tuple(b[0].astype(int).ravel().tolist()) not in dist:
                            ctx.fail("impossible graph sampled", spec=s.key(), links=b[0])


FORMS = ("array", "csr", "csc", "coo", "matrix", "zeros", "dup", "int", "bool")


def inputs(ctx):
    """how the aggregate graph and the groups are given does not matter"""
    for n, M in ((2, 2), (3, 2)):
        for g in group_maps(n, M):
            for A in aggs(M):
                for loops in (False, True):
                    s = CSpec(n, g, A, VX[:n], VY[:n], 0.4, loops)
                    if not s.feasible():
                        continue
                    for form in FORMS:
                        for gt in (np.int64, np.uint8, np.int32, list):
                            if gt is not np.int64 and form not in ("array", "csc"):
                                continue
                            if ctx.jit and form not in ("csc", "zeros"):
                                continue
                            if not ctx.take(f"{s.key()}.{form}.{getattr(gt, '__name__', gt)}", group=form):
                                continue
                            with ctx.guard("build"):
                                m = s.build(form, gt)
                                one_expected(ctx, s, m, " " + form)
                                d = s.distribution()
                                t = next(iter(d))
                                ok, v = ctx.call("log_likelihood", m.log_likelihood, np.array(t).reshape(n, n))
                                if ok and abs(v - math.log(d[t])) > 1e-8:
                                    ctx.fail("log_likelihood with %s" % form, got=v, want=math.log(d[t]))
                                if not ctx.jit:
                                    ch = lambda k: 0
                                    with Source(ch):
                                        gr = m.sample()
                                    b, _ = sampling.read_links(gr, s)
                                    if tuple(b[0].astype(int).ravel().tolist()) not in d:
                                        ctx.fail("impossible graph sampled", spec=s.key(), form=form)


def from_graph(ctx):
    """model of an observed graph and its own aggregate"""
    for groups in ((0, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, 2), (0, 0, 0)):
        for bits in itertools.product((0, 1), repeat=6):
            A = np.zeros((3, 3), int)
            for b, c in zip(bits, [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]):
                A[c] = b
            if not A.any():
                continue
            for form in ("graph", "array"):
                if not ctx.take(f"{groups}.{bits}.{form}"):
                    continue
                with ctx.guard("from graph"):
                    W = A * np.array([[0, 2.0, 0.5], [1.0, 0, 4.0], [3.0, 1.5, 0]])
                    g = graph_of(A, W, ["g%d" % k for k in groups])
                    gi = np.asarray(g.groups).astype(int)
                    M = gi.max() + 1
                    G = np.zeros((M, 3))
                    G[gi, np.arange(3)] = 1
                    agg = G @ W @ G.T
                    a2 = graph_of(agg, agg) if form == "graph" else agg
                    m = ges.ConditionalInvariantModel(g, a2, param=0.4)
                    s = CSpec(3, gi.tolist(), agg, W.sum(1), W.sum(0), 0.4, False)
                    one_expected(ctx, s, m)
                    ok, v = ctx.call("log_likelihood", m.log_likelihood, g)
                    p = s.distribution()[tuple(A.ravel().tolist())]
                    if ok and abs(v - math.log(p)) > 1e-8:
                        ctx.fail("log_likelihood of the observed graph", got=v, want=math.log(p))


def fit(ctx):
    for n, M in ((2, 1), (2, 2), (3, 1), (3, 2)):
        for g in group_maps(n, M):
            for A in aggs(M):
                for loops in (False, True):
                    for xy in ((VX, VY), ([0.0] + VX[1:], VY), ([1e8, 1e6, 3e7], [1e7, 2e8, 1e8])):
                        s = CSpec(n, g, A, xy[0][:n], xy[1][:n], 1.0, loops)
                        if not s.feasible() or not A.any():
                            continue
                        lo = int((A != 0).sum())
                        hi = sum(1 for a, b in np.argwhere(A != 0) for i, j in s.pairs(a, b)
                                 if s.x[i] * s.y[j] > 0)
                        for fr in (-0.5, 0.0, 1e-8, 1e-6, 1e-4, 0.01, 0.5, 0.95, 1.0, 1.4):
                            for x0 in (None, 0.5, 3):
                                if ctx.jit and (x0 is not None or n == 3 or fr not in (0.01, 0.5)):
                                    continue
                                if not ctx.take(f"{s.key()}.{fr}.{x0}", group="f"):
                                    continue
                                with ctx.guard("fit"):
                                    one_fit(ctx, s, lo, hi, fr, x0)


def one_fit(ctx, s, lo, hi, fr, x0):
    if fr < 0:
        t = lo * 0.5
    else:
        t = lo + fr * (hi - lo)
        if fr > 1:
            t = hi + 0.7
    wrap = {None: lambda v: v, 0.5: lambda v: np.array([v]), 3: lambda v: [v]}[x0]
    m = s.build(param=None, num_edges=wrap(t))
    ctx.run()
    warned = False
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ctx.op()
        try:
            m.fit(**({} if x0 is None else {"x0": x0}))
        except Exception as err:  # noqa: BLE001
            ctx.fail("fit raised " + type(err).__name__, error=str(err)[:200], spec=s.key(), target=t)
            return
        warned = any(issubclass(r.category, UserWarning) for r in rec)
    d = float(np.asarray(m.param).ravel()[0])
    if not (d >= 0):
        ctx.fail("fitted parameter is not valid", d=d, spec=s.key(), target=t)
        return
    f = CSpec(s.n, s.groups, s.A, s.x, s.y, d, s.loops)
    e = f.marginals()[0].sum()
    if not warned and abs(e - t) > 2e-9 * max(t, 1) + 1e-9:
        ctx.fail("fit missed its target without saying so", spec=s.key(), target=t, expected=e, d=d)
    if warned and lo < t < hi and 0.01 <= fr <= 0.95:
        ctx.fail("fit did not reach a feasible target", spec=s.key(), target=t, expected=e, d=d, x0=x0)
    ok, v = ctx.call("expected_num_edges", m.expected_num_edges)
    if ok:
        ctx.same("expected_num_edges after fit", v, e, 1e-9, 1e-9, spec=s.key(), d=d)


def refused(ctx):
    base = dict(num_vertices=3, prop_out=np.array(VX[:3]), prop_in=np.array(VY[:3]),
                groups=np.array([0, 1, 0]), adj=np.ones((2, 2)), param=0.4)
    bad = {
        "adj not square": dict(adj=np.ones((2, 3))),
        "too few groups in adj": dict(adj=np.ones((1, 1))),
        "too many groups in adj": dict(adj=np.ones((3, 3))),
        "groups of wrong length": dict(groups=np.array([0, 1])),
        "groups not integers": dict(groups=np.array(["a", "b", "a"])),
        "negative fitness": dict(prop_out=np.array([1.0, -1.0, 2.0])),
        "wrong length": dict(prop_in=np.ones(4)),
        "no vertices": dict(num_vertices=0),
        "negative parameter": dict(param=-1.0),
        "two parameters": dict(param=np.array([1.0, 2.0])),
        "unknown argument": dict(other=1),
        "negative groups": dict(groups=np.array([0, 1, -1])),
    }
    for name, ch in bad.items():
        if ctx.take(name):
            with ctx.guard("refused"):
                ctx.run()
                kw = dict(base)
                kw.update(ch)
                ctx.raises(name, lambda: ges.ConditionalInvariantModel(**kw))
    for miss in ("adj", "groups", "prop_out", "prop_in", "num_vertices", "param"):
        if ctx.take("without " + miss):
            with ctx.guard("refused"):
                ctx.run()
                kw = dict(base)
                kw.pop(miss)
                ctx.raises("without " + miss, lambda: ges.ConditionalInvariantModel(**kw))


class Closed(CSpec):
    """the same conditional law in closed form, for blocks of any size"""

    kind = "conditional"

    def tables(self, loops=None):
        s = self.loops if loops is None else loops
        t = np.outer(self.x, self.y)
        if not s:
            t = t * (1 - np.eye(self.n))
        g = np.array(self.groups)
        link = self.A[np.ix_(g, g)] != 0
        t = t * link
        T = np.zeros((self.M, self.M))
        np.add.at(T, (g[:, None], g[None, :]), t)
        return t, T, g

    def marginals(self, loops=None):
        t, T, g = self.tables(loops)
        norm = -np.expm1(-self.d * np.where(T > 0, T, 1))[np.ix_(g, g)]
        P = -np.expm1(-self.d * t) / norm
        same = g[:, None] == g[None, :]
        U = np.where(same, -np.expm1(-self.d * (t + t.T)) / norm, P + P.T - P * P.T)
        U[np.diag_indices(self.n)] = np.diag(P)
        return P, U

    def loglik(self, B, loops=None):
        B = np.asarray(B) != 0
        t, T, g = self.tables(loops)
        agg = np.zeros((self.M, self.M))
        np.add.at(agg, (g[:, None], g[None, :]), B)
        if ((agg > 0) != (self.A != 0)).any() or (B & (t == 0)).any():
            return -INF
        with np.errstate(divide="ignore"):
            ll = np.where(B, np.log(-np.expm1(-self.d * t)), -self.d * t).sum()
        return ll - np.log(-np.expm1(-self.d * T[self.A != 0])).sum()


def closed_specs(ctx):
    shapes = ((8, 2), (9, 3), (12, 4), (17, 5), (20, 20), (24, 3)) if not ctx.jit else (
        (48, 3), (65, 9), (130, 2), (130, 130), (257, 40))
    for n, M in shapes:
        g = [(i * 7 + i // 3) % M for i in range(n)] if M < n else list(range(n))[::-1]
        A = np.array([[(1 + a + 2 * b) * ((3 * a + b) % 3 != 1) for b in range(M)] for a in range(M)], float)
        for loops in (False, True):
            s = Closed(n, g, A, sizes.values(n, 1), sizes.values(n, 4, 13), 0.9 / n, loops)
            T = s.tables()[1]
            s.A = s.A * (T > 0)
            yield s


def ladder(ctx):
    """larger partitions, against the closed form"""
    for s in closed_specs(ctx):
        if not ctx.take(f"{s.n}.{s.M}.{s.loops}", group=s.n):
            continue
        with ctx.guard("ladder"):
            m = s.build()
            P, U = s.marginals()
            ctx.run()
            for name, want in (("expected_num_edges", P.sum()), ("expected_degree", U.sum(1)),
                               ("expected_out_degree", P.sum(1)), ("expected_in_degree", P.sum(0))):
                ok, v = ctx.call(name, getattr(m, name))
                ok and ctx.same(name, v, want, 1e-8, 1e-11, n=s.n, M=s.M)
            t, T, g = s.tables()
            first = np.zeros((s.n, s.n), int)
            for a, b in np.argwhere(s.A != 0):
                i, j = np.argwhere((t > 0) & (g[:, None] == a) & (g[None, :] == b))[-1]
                first[i, j] = 1
            k = np.arange(s.n ** 2).reshape(s.n, s.n)
            for B in (first, first | ((t > 0) & (k % 5 < 2)), (t > 0).astype(int), first * 0):
                for f in (np.asarray, sp.csr_array):
                    ctx.run()
                    ok, v = ctx.call("log_likelihood", m.log_likelihood, f(B))
                    ok and ctx.same("log_likelihood", v, s.loglik(B), 1e-8, 1e-9, n=s.n, M=s.M)
            if not ctx.jit:
                for how in (None, "cremb", "wagg") if s.n < 20 else (None,):
                    kw = {} if how is None else dict(weights=how, out_strength=s.x + 0.5,
                                                     in_strength=s.x[::-1] + 0.5)
                    so, si = s.x + 0.5, s.x[::-1] + 0.5

                    def visit(gr, b, w, src, how=how):
                        b, w = b[0], w[0]
                        if (w[~b] != 0).any() or (w[b] <= 0).any():
                            ctx.fail("weight and link disagree", n=s.n, M=s.M)
                        if how == "cremb":
                            want = np.outer(so, si) / so.sum() / np.where(P > 0, P, 1)
                            ctx.same("weights", w[b], want[b], 1e-8, 0, n=s.n, M=s.M)
                        if how == "wagg":
                            q = np.outer(so, si) * b
                            z = np.zeros((s.M, s.M))
                            np.add.at(z, (g[:, None], g[None, :]), q)
                            want = q * (s.A / np.where(z > 0, z, 1))[np.ix_(g, g)]
                            ctx.same("weights", w, want, 1e-8, 0, n=s.n, M=s.M)

                    sampling.deviations(ctx, s.build, s, "sample", visit=visit, most=20, **kw)
            else:
                for how in (None, "wagg"):
                    ctx.run()
                    ok, gr = ctx.call("sample", m.sample, weights=how)
                    if ok and s.loglik(sampling.read_links(gr, s)[0][0]) == -INF:
                        ctx.fail("impossible graph sampled", n=s.n, M=s.M)


SECTIONS = [
    ("expected", expected, ("interp", "jit")),
    ("neighbours", neighbours, ("interp", "jit")),
    ("likelihood", likelihood, ("interp", "jit")),
    ("containers", containers, ("interp",)),
    ("samples", samples, ("interp",)),
    ("samples_jit", samples_jit, ("jit",)),
    ("inputs", inputs, ("interp", "jit")),
    ("from_graph", from_graph, ("interp",)),
    ("fit", fit, ("interp", "jit")),
    ("refused", refused, ("interp",)),
    ("ladder", ladder, ("interp", "jit")),
]
