"""C18 PageRank and trophic depth satisfy their defining equations."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

import graph_ensembles as ge
import graph_ensembles.sparse as ges
from graph_ensembles import lib

BACK = {"dense": ge, "sparse": ges}
W = {"unw": None, "int": np.array([1, 2, 5, 3, 1, 7, 4, 2, 6]),
     "float": np.array([0.5, 2.0, 1.25, 0.1, 3.5, 0.75, 1.0, 4.0, 0.3]),
     "f32": np.array([0.5, 2.0, 1.25, 0.125, 3.5, 0.75, 1.0, 4.0, 0.25], np.float32),
     "i1": np.array([1, 2, 5, 3, 1, 7, 4, 2, 6], np.int8),
     "tiny": np.array([1, 2, 5, 3, 1, 7, 4, 2, 6]) * 1e-14,
     "huge": np.array([1, 2, 5, 3, 1, 7, 4, 2, 6]) * 1e200}


def make(back, cls, n, cells, wname, ids=None):
    """graph and its weighted (directed) adjacency in the order of the graph"""
    ids = ids if ids is not None else list(range(n))
    ws = W[wname]
    A = np.zeros((n, n))
    src, dst, lab, w = [], [], [], []
    for k, (l, i, j) in enumerate(cells):
        x = 1 if ws is None else ws[k % len(ws)]
        src.append(ids[i]), dst.append(ids[j]), lab.append(l), w.append(x)
        if ws is None:
            A[i, j] = 1
            if cls in ("Graph", "MultiGraph"):
                A[j, i] = 1
        else:
            A[i, j] += x
            if cls in ("Graph", "MultiGraph") and i != j:
                A[j, i] += x
    e = pd.DataFrame({"s": src, "d": dst, "l": lab})
    kw = dict(v_id="id", src="s", dst="d")
    if ws is not None:
        e["w"] = np.array(w, dtype=ws.dtype)
        kw["weight"] = "w"
    if cls.startswith("Multi"):
        kw["edge_label"] = "l"
    if len(cells) == 0:
        e = e.astype({"s": type(ids[0]) if isinstance(ids[0], str) else int,
                      "d": type(ids[0]) if isinstance(ids[0], str) else int})
    g = getattr(BACK[back], cls)(pd.DataFrame({"id": ids}), e, **kw)
    order = [g.id_dict[i] for i in ids]
    P = np.zeros((n, n))
    P[np.ix_(order, order)] = A
    return g, P


def silent(ctx, what, fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(what, fn, *a, **k)


def transition(A):
    n = len(A)
    T = np.full((n, n), 1.0 / n)
    for i in range(n):
        s = A[i].sum()
        if s > 0:
            T[i] = A[i] / s
    return T


def exact_rank(A, alpha):
    n = len(A)
    T = transition(A)
    return np.linalg.solve(np.eye(n) - alpha * T.T, np.full(n, (1 - alpha) / n))


def spaces(ctx):
    """(class, n, cells)"""
    for n in (1, 2, 3):
        c = [(0, i, j) for i in range(n) for j in range(n)]
        for bits in itertools.product((0, 1), repeat=n * n):
            yield "DiGraph", n, tuple(x for x, b in zip(c, bits) if b)
    c = [(l, i, j) for l in range(2) for i in range(2) for j in range(2)]
    for bits in itertools.product((0, 1), repeat=8):
        if sum(bits):
            yield "MultiDiGraph", 2, tuple(x for x, b in zip(c, bits) if b)
    c = [(0, i, j) for i in range(3) for j in range(i + 1)]
    for bits in itertools.product((0, 1), repeat=6):
        cells = tuple(x for x, b in zip(c, bits) if b)
        yield "Graph", 3, cells
        if cells:
            yield "MultiGraph", 3, tuple((k % 2, i, j) for k, (l, i, j) in enumerate(cells))
    # four vertices: cycles, chains, stars, all sets of three links
    c = [(0, i, j) for i in range(4) for j in range(4)]
    for k, cells in enumerate(itertools.combinations(c, 3)):
        if ctx.thorough or k % 4 == 0:
            yield "DiGraph", 4, cells


def page(ctx):
    for k, (cls, n, cells) in enumerate(spaces(ctx)):
        for wname in W:
            if wname in ("f32", "i1", "tiny", "huge") and (k % 5 or cls != "DiGraph"):
                continue
            for back in BACK:
                if ctx.jit and (n > 2 or k % 3):
                    continue
                if not ctx.take(f"{back}.{cls}.{n}.{wname}.{cells}", group=wname + back):
                    continue
                with ctx.guard("pagerank"):
                    g, A = make(back, cls, n, cells, wname)
                    before = (A != 0).sum()
                    for alpha in (0.85, 0.0, 0.5) if k % 3 else (0.85, 0.99, 0.2):
                        for weighted in (True, False):
                            ctx.run()
                            ok, r = silent(ctx, "pagerank", lib.pagerank, g, alpha=alpha,
                                           max_iter=4000, tol=1e-13, weighted=weighted)
                            if ok:
                                want = exact_rank(A if weighted else (A != 0) * 1.0, alpha)
                                ctx.same("pagerank", r, want, 1e-8, 1e-5 if wname == "f32" else 1e-9, alpha=alpha, A=A,
                                         weighted=weighted)
                    ctx.run()
                    ok, r = silent(ctx, "pagerank", lib.pagerank, g)
                    if ok:
                        ctx.same("pagerank with defaults", r, exact_rank(A, 0.85), 0,
                                 1e-6 * n * 0.85 / 0.15 * 1.01 + (1e-5 if wname == "f32" else 0), A=A)
                        ctx.state(np.round(r, 6))
                    for mi, tol in ((1, 1e-6), (2, 1e-6), (3, 1e-30), (50, 1e-2)):
                        ok, r = silent(ctx, "pagerank", lib.pagerank, g, max_iter=mi, tol=tol)
                        eps = 1e-5 if wname == "f32" else 1e-9
                        if ok and (abs(np.sum(r) - 1) > eps or np.min(r) < 0.15 / n * (1 - eps)):
                            ctx.fail("rank is not a probability after few iterations", got=r, A=A)
                    _g, B = g, _adj(g)
                    if not np.allclose(B, A if W[wname] is not None else (A != 0), rtol=1e-6, atol=0):
                        ctx.fail("pagerank changed the graph", got=B, want=A)
                    assert before >= 0


def _adj(g):
    a = g.adjacency_matrix(directed=True, weighted=True)
    return np.asarray(a.toarray() if hasattr(a, "toarray") else a, float)


FINALS = {1: [[0.0], [1.0], [2]], 2: [[0, 1], [1, 0], [0.5, 2.0], [0.0, 0.0], [3, 1]],
          3: [[0, 0, 1], [1, 0, 0], [0.5, 2.0, 0.0], [0.0, 0.0, 0.0], [3, 1, 2], [0.25, 0.25, 4.0]],
          4: [[0, 0, 0, 1.0], [0.5, 1.0, 2.0, 0.25], [0.0] * 4]}


def depth_ref(A, final):
    """depth of every vertex, None where a walk may never end"""
    n = len(A)
    s = A.sum(1) + final
    reach = (final > 0) | (s == 0)
    for _ in range(n):
        reach = reach | ((A > 0) & reach[None, :]).any(1)
    # every vertex that can be visited must be able to stop
    if not reach.all():
        return None
    M = np.eye(n)
    b = np.zeros(n)
    for i in range(n):
        if s[i] > 0:
            M[i] -= A[i] / s[i]
            b[i] = 1.0
    return np.linalg.solve(M, b)


def depth(ctx):
    for k, (cls, n, cells) in enumerate(spaces(ctx)):
        for wname in ("float", "int", "unw", "f32", "i1"):
            if wname in ("f32", "i1") and k % 5:
                continue
            for back in BACK:
                if ctx.jit and (n > 2 or k % 3):
                    continue
                if n == 3 and wname == "unw" and cls == "DiGraph" and k % 3 and not ctx.thorough:
                    continue
                if not ctx.take(f"{back}.{cls}.{n}.{wname}.{cells}", group=wname + back):
                    continue
                with ctx.guard("trophic_depth"):
                    g, A = make(back, cls, n, cells, wname)
                    for f in FINALS[n]:
                        fin = np.array(f)
                        want = depth_ref(A, fin)
                        if want is None:
                            ctx.note("walks that never end")
                            continue
                        if np.max(want) > 40 and not ctx.thorough:
                            continue  # many iterations
                        keep = fin.copy()
                        ctx.run()
                        ok, r = silent(ctx, "trophic_depth", lib.trophic_depth, g, fin,
                                       max_iter=20000, tol=1e-13)
                        if ok:
                            ctx.same("trophic_depth", r, want, 1e-7, 1e-8, A=A, final=fin)
                        if not (fin == keep).all():
                            ctx.fail("trophic_depth changed its argument")
                        if np.max(want) < 8:
                            ok, r = silent(ctx, "trophic_depth", lib.trophic_depth, g, fin)
                            if ok:
                                ctx.same("trophic_depth with defaults", r, want, 0.02, 0.02,
                                         A=A, final=fin)
                        ctx.state(np.round(want, 6))


def ids(ctx):
    """vertex ids of other types, order of the vertex table"""
    for idset in (["b", "a", "c"], [30, 10, 20], [5, 2 ** 40, 7]):
        for perm in itertools.permutations(range(3)):
            for back in BACK:
                if not ctx.take(f"{back}.{idset}.{perm}"):
                    continue
                with ctx.guard("ids"):
                    cells = ((0, 0, 1), (0, 1, 2), (0, 2, 1), (0, 0, 2))
                    cells = tuple((0, perm[i], perm[j]) for _, i, j in cells)
                    g, A = make(back, "DiGraph", 3, cells, "float", idset)
                    ctx.run(2)
                    ok, r = silent(ctx, "pagerank", lib.pagerank, g, tol=1e-13, max_iter=3000)
                    ok and ctx.same("pagerank", r, exact_rank(A, 0.85), 1e-8, 1e-9)
                    fin = np.array([1.0, 0.5, 2.0])
                    ok, r = silent(ctx, "trophic_depth", lib.trophic_depth, g, fin, tol=1e-13,
                                   max_iter=3000)
                    ok and ctx.same("trophic_depth", r, depth_ref(A, fin), 1e-8, 1e-9)


def sizes(ctx):
    """cycles, stars and chains with more vertices than one byte can index"""
    for n in (10, 255, 256, 257, 300):
        for shape in ("cycle", "star", "chain", "in-star"):
            for back in BACK:
                if not ctx.take(f"{back}.{n}.{shape}"):
                    continue
                with ctx.guard("sizes"):
                    cells = {"cycle": [(0, i, (i + 1) % n) for i in range(n)],
                             "chain": [(0, i, i + 1) for i in range(n - 1)],
                             "star": [(0, 0, i) for i in range(1, n)],
                             "in-star": [(0, i, 0) for i in range(1, n)]}[shape]
                    g, A = make(back, "DiGraph", n, cells, "float")
                    ctx.run(2)
                    ok, r = silent(ctx, "pagerank", lib.pagerank, g, tol=1e-13, max_iter=3000)
                    ok and ctx.same("pagerank", r, exact_rank(A, 0.85), 1e-7, 1e-9, n=n)
                    fin = np.full(n, 2.0)
                    ok, r = silent(ctx, "trophic_depth", lib.trophic_depth, g, fin, tol=1e-12,
                                   max_iter=3000)
                    ok and ctx.same("trophic_depth", r, depth_ref(A, fin), 1e-7, 1e-8, n=n)


SECTIONS = [
    ("page", page, ("interp", "jit")),
    ("depth", depth, ("interp", "jit")),
    ("ids", ids, ("interp",)),
    ("sizes", sizes, ("interp", "jit")),
]
