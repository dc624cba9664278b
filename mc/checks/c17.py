"""C17 Spark confusion matrices count every vertex pair once per threshold."""
import itertools

import numpy as np
import pandas as pd
import scipy.sparse as sp

import graph_ensembles.sparse as ges
from mc import modelkit as mk
from mc.checks.c07 import MX, MY, VX, VY, mask_vec
from mc.checks.c16 import Sched, confusion, safe_thresholds, spec as big_spec

CELLS = ("true positives", "false positives", "true negatives", "false negatives")
THRS = [np.array([0.0, 0.1, 0.35, 0.5, 0.77, 1.0]), np.array([0.8, 0.2, 0.2, 0.5, 2.0, -1.0]),
        np.array([0.41]), np.array([]), np.array([1, 0, 2])]


def specs(ctx):
    for n in (1, 2, 3):
        for loops in (False, True):
            for p in (0.0, 0.5, 0.3, 1.0):
                yield mk.Spec("random", n, param=p, loops=loops)
            for kind in ("fitness", "invariant"):
                for d in (0.0, 0.7, mk.INF):
                    for bx in itertools.product((0, 1), repeat=n):
                        if n == 3 and sum(bx) < 2:
                            continue
                        yield mk.Spec(kind, n, mask_vec(VX, bx), VY[:n], d, loops)
            # probabilities equal to a threshold
            yield mk.Spec("fitness", n, np.array([1.0, 0.25, 4.0])[:n],
                          np.array([1.0, 4.0, 0.25])[:n], 1.0, loops)
            for kind in mk.MULTI:
                for L in (1, 2, 3):
                    for d in (0.6, [0.3, 1.8, 0.9][:L], [mk.INF, 0.0, 1.1][:L]):
                        if L == 1 and np.ndim(d):
                            continue
                        k = (np.arange(n * L).reshape(n, L) % 4) != 2
                        yield mk.Spec(kind, n, MX[:n, :L] * k, MY[:n, :L], d, loops, L)


def graphs(ctx, n):
    c = [(i, j) for i in range(n) for j in range(n)]
    for k, bits in enumerate(itertools.product((0, 1), repeat=n * n)):
        if n == 3 and not ctx.thorough and k % 11 and sum(bits) > 2:
            continue
        A = np.zeros((n, n), int)
        for b, x in zip(bits, c):
            A[x] = b
        yield A


def ties_ok(s, thr):
    """thresholds equal to a probability are decidable only where the law
    gives that value exactly"""
    ok = {0.0, 1.0}
    if s.kind in ("random", "fitness"):
        ok.add(0.5)
    P = np.unique(s.agg(True)[0])
    return np.array([t for t in thr if not np.any(np.abs(P - t) < 1e-9)
                     or (t in ok and np.all((P == t) | (np.abs(P - t) > 1e-9)))], dtype=thr.dtype)


def compare(ctx, m, s, g, A, thr, arg, **info):
    kw = {} if arg == "none given" else {"selfloops": arg}
    ok, r = ctx.call("confusion_matrix", m.confusion_matrix, g, thresholds=thr, **kw)
    ctx.run()
    if not ok:
        return
    loops = s.loops if arg in ("none given", None) else arg
    want = confusion(s, A, thr, loops)
    if len(r) != 4:
        ctx.fail("not four counts", got=repr(r)[:200])
        return
    for name, a, b in zip(CELLS, r, want):
        ctx.same(name, a, b, 0, 0, spec=s.key(), A=A, thresholds=thr, selfloops=arg, **info)
    tot = sum(np.asarray(x) for x in r)
    if not np.all(tot == s.allowed(loops).sum()):
        ctx.fail("counts do not add up to the number of pairs", got=tot, spec=s.key())


def counts(ctx):
    for s in specs(ctx):
        key = s.key()
        if ctx.jit and (s.n != 2 or s.L == 3):
            continue
        if not ctx.take(key, group=s.kind):
            continue
        with ctx.guard("confusion_matrix"):
            m = s.build("spark")
            for k, A in enumerate(graphs(ctx, s.n)):
                if ctx.jit and k % 3:
                    continue
                thr = ties_ok(s, THRS[k % 2])
                compare(ctx, m, s, A, A, thr, "none given")
                if k % 5 == 0:
                    for t in THRS:
                        t = ties_ok(s, t)
                        for arg in (None, True, False):
                            compare(ctx, m, s, A, A, t, arg)
                    ctx.state(s.kind, A, confusion(s, A, thr, s.loops))


def forms(A, loops):
    """the same graph in every accepted container"""
    n = len(A)
    yield "int array", A
    yield "float array", A * 0.5
    yield "bool array", A != 0
    yield "fortran", np.asfortranarray(A)
    for f in ("csr", "csc", "coo", "lil", "dok"):
        yield f, sp.coo_array(A).asformat(f)
        yield f + " matrix", sp.coo_matrix(A).asformat(f)
    z = sp.csr_array(np.ones((n, n)))
    z.data[:] = A.ravel()
    yield "stored zeros", z
    i, j = np.nonzero(A)
    if len(i):
        yield "repeated entries", sp.coo_array(
            (np.full(2 * len(i), 0.5), (np.r_[i, i], np.r_[j, j])), shape=A.shape)
        v = pd.DataFrame({"id": ["v%d" % k for k in range(n)]})
        e = pd.DataFrame({"src": ["v%d" % k for k in i], "dst": ["v%d" % k for k in j]})
        yield "DiGraph", ges.DiGraph(v, e, v_id="id", src="src", dst="dst")
        e2 = pd.concat([e.assign(l="a"), e.assign(l="b")])
        e2["w"] = 2.0
        yield "MultiDiGraph", ges.MultiDiGraph(v, e2, v_id="id", src="src", dst="dst",
                                               edge_label="l", weight="w")


def containers(ctx):
    for loops in (False, True):
        for kind in mk.KINDS:
            s = base(kind, loops)
            for k, A in enumerate(graphs(ctx, 3)):
                if k % 7 != 3:
                    continue
                if not ctx.take(f"{kind}.{int(loops)}.{k}"):
                    continue
                with ctx.guard("container"):
                    m = s.build("spark")
                    thr = ties_ok(s, THRS[0])
                    for name, g in forms(A, loops):
                        compare(ctx, m, s, g, A, thr, "none given", container=name)
                        for t in (thr.astype(np.float32) * 0 + np.float32(0.375), thr[::-1]):
                            compare(ctx, m, s, g, A, ties_ok(s, t), "none given", container=name)


def base(kind, loops, n=3):
    if kind == "random":
        return mk.Spec("random", n, param=0.3, loops=loops)
    if kind in mk.MULTI:
        return mk.Spec(kind, n, MX[:n, :2] * np.array([[1, 1], [0, 1], [1, 0]])[:n],
                       MY[:n, :2] * np.array([[0, 1], [1, 1], [1, 1]])[:n], [0.4, 1.3], loops, 2)
    return mk.Spec(kind, n, np.array([0.5, 1.75, 3.0])[:n], np.array([0.0, 0.25, 1.1])[:n], 0.7, loops)


def automatic(ctx):
    """thresholds chosen by the model: as many as asked for, from the least to
    the greatest positive probability on a logarithmic scale"""
    for s in specs(ctx):
        if s.n > 2 and (s.L > 1 and s.n == 3 and s.L == 3):
            continue
        if ctx.jit and s.n != 2:
            continue
        if not ctx.take(s.key(), group=s.kind):
            continue
        with ctx.guard("automatic thresholds"):
            P = s.agg(True)[0]
            pos = P[P > 0]
            if len(pos) == 0:
                continue  # no range of probabilities to choose from
            m = s.build("spark")
            A = (np.indices((s.n, s.n)).sum(0) % 2).astype(int)
            for arg, num in ((None, 20), (1, 1), (2, 2), (7, 7)):
                ctx.run()
                ok, r = ctx.call("confusion_matrix", m.confusion_matrix, A, thresholds=arg)
                if not ok:
                    continue
                r = [np.asarray(x) for x in r]
                if any(x.shape != (num,) for x in r):
                    ctx.fail("number of automatic thresholds", got=[x.shape for x in r], want=num)
                    continue
                if not np.all(sum(r) == s.allowed().sum()):
                    ctx.fail("counts do not add up to the number of pairs", got=sum(r), spec=s.key())
                if np.any(np.diff(r[0]) > 0) or np.any(np.diff(r[1]) > 0):
                    ctx.fail("positives increase with the threshold", got=r, spec=s.key())
                if s.L == 1 and num > 1:
                    # fitness extremes are those of the pairs
                    want = np.geomspace(pos.min(), pos.max(), num)
                    c = confusion(s, A, want[1:-1], s.loops)
                    gap = [np.min(np.abs(P.ravel() / t - 1)) > 1e-6 for t in want[1:-1]]
                    for a, b, name in zip(r, c, CELLS):
                        if np.any((a[1:-1] != b) & np.array(gap, bool)):
                            ctx.fail(name + " at automatic thresholds", got=a[1:-1], want=b,
                                     spec=s.key(), thresholds=want)


def blocks(ctx):
    for n, pb in ((9, 2), (20, 2), (23, 2), (31, 3), (44, 4)):
        for kind in mk.KINDS:
            for loops in (False, True):
                for k, pol in enumerate((Sched(), Sched(1), Sched(3, (2, 0, 1), (1, 2, 0), (0, 2)),
                                         Sched(None, "reverse", "reverse", (0, 1, 2, 3)),
                                         Sched(None, None, None, (), True))):
                    if not ctx.take(f"{kind}.{n}.{int(loops)}.{k}"):
                        continue
                    with ctx.guard("blocks"):
                        s = big_spec(kind, n, loops)
                        m = s.build("spark", sc=mk.context(pol), p_blocks=pb)
                        i, j = np.indices((n, n))
                        for A in ((i * 3 + j * 5 + i * j) % 4 == 0, (i - j) % n == 1,
                                  np.ones((n, n), bool), np.zeros((n, n), bool)):
                            thr = safe_thresholds(s, np.linspace(0, 1, 12))
                            for arg in (None, not loops):
                                compare(ctx, m, s, A.astype(int), A, thr, arg, n=n, p_blocks=pb)


def large(ctx):
    """more pairs than 16 bit counts can hold"""
    n = 190
    for kind in mk.KINDS:
        for fill in (0, 1):
            if not ctx.take(f"{kind}.{fill}"):
                continue
            with ctx.guard("large"):
                s = big_spec(kind, n, True)
                m = s.build("spark", p_blocks=1)
                A = np.full((n, n), fill)
                compare(ctx, m, s, A, A, safe_thresholds(s, np.array([0.0, 0.4, 1.0])), None, n=n)


def refused(ctx):
    for kind in mk.KINDS:
        if not ctx.take(kind, group=kind):
            continue
        with ctx.guard("refused"):
            s = base(kind, False)
            m = s.build("spark")
            A = np.eye(3)
            ctx.run()
            ctx.raises("wrong shape", m.confusion_matrix, np.zeros((4, 4)), thresholds=THRS[0])
            ctx.raises("wrong shape", m.confusion_matrix, sp.csr_array((2, 3)), thresholds=THRS[0])
            ctx.raises("not a graph", m.confusion_matrix, "graph", thresholds=THRS[0])
            ctx.raises("thresholds of text", m.confusion_matrix, A, thresholds="0.5")
            ctx.raises("thresholds as list", m.confusion_matrix, A, thresholds=[0.1, 0.5])
            compare(ctx, m, s, A, A, ties_ok(s, THRS[0]), None)
            kw = s.kwargs()
            kw.pop("param")
            m = mk.build("spark", kind, num_edges=2.0, **kw)
            ctx.raises("model without parameters", m.confusion_matrix, A, thresholds=THRS[0])


SECTIONS = [
    ("counts", counts, ("interp", "jit")),
    ("containers", containers, ("interp",)),
    ("automatic", automatic, ("interp", "jit")),
    ("blocks", blocks, ("interp",)),
    ("large", large, ("interp", "jit")),
    ("refused", refused, ("interp",)),
]
