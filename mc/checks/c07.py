"""C07 Expected edges and degrees are the exact ensemble averages."""
import itertools
import math

import numpy as np
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks import sizes

VX = [0.5, 1.75, 3.0, 0.2]
VY = [2.0, 0.25, 1.1, 4.0]
MX = np.array([[0.5, 1.5, 0.8], [2.0, 0.3, 1.2], [1.1, 4.0, 0.15], [0.6, 0.9, 2.5]])
MY = np.array([[1.25, 0.4, 2.2], [0.2, 3.0, 0.7], [2.5, 0.6, 1.9], [0.35, 1.4, 0.5]])


def mask_vec(v, bits):
    return [a if b else 0.0 for a, b in zip(v, bits)]


def single_specs(ctx):
    nmax = 4 if ctx.thorough else 3
    if ctx.jit:
        nmax = 2
    for n in range(1, nmax + 1):
        for loops in (False, True):
            for p in (0.0, 0.3, 1.0):
                yield mk.Spec("random", n, param=p, loops=loops)
            for bx in itertools.product((0, 1), repeat=n):
                for by in itertools.product((0, 1), repeat=n):
                    for kind in ("fitness", "invariant"):
                        for d in (0.0, 0.7, 40.0, mk.INF) if n < 3 else (0.7,):
                            yield mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, by), d, loops)
    # one larger instance with every value different
    for kind in ("fitness", "invariant"):
        for loops in (False, True):
            yield mk.Spec(kind, 4, VX, VY, 0.45, loops)


def multi_specs(ctx):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)]
    if not ctx.jit:
        shapes += [(3, 2)] + ([(2, 3)] if ctx.thorough else [])
    for n, L in shapes:
        cells = n * L
        for bits in itertools.product((0, 1), repeat=2 * cells):
            if not ctx.thorough:
                # 3 vertices x 2 labels: all patterns of one side against
                # four patterns of the other (thorough: all 4096)
                if cells > 4 and sum(bits[cells:]) not in (cells, 2) and sum(bits[:cells]) != cells:
                    continue
                if ctx.jit and sum(bits[:cells]) * sum(bits[cells:]) == 0:
                    continue
            bx = np.array(bits[:cells]).reshape(n, L)
            by = np.array(bits[cells:]).reshape(n, L)
            x, y = MX[:n, :L] * bx, MY[:n, :L] * by
            params = [0.6]
            if L > 1:
                params.append([0.3, 1.7, 0.9][:L])
                if cells <= 4:
                    params.append([0.0, 2.0, 0.5][:L])
                    params.append([mk.INF, 0.4, 0.5][:L])
            for k, d in enumerate(params):
                for loops in (False, True):
                    for kind in mk.MULTI:
                        if cells > 4 and (k + loops + bits[0]) % 2:
                            continue
                        yield mk.Spec(kind, n, x, y, d, loops, L)
    for n, L in ((2, 3), (4, 3), (3, 1)):
        for loops in (False, True):
            for kind in mk.MULTI:
                for d in (0.5, [0.2, 0.9, 1.6][:L]):
                    yield mk.Spec(kind, n, MX[:n, :L], MY[:n, :L], d, loops, L)


def check_expected(ctx, back, s, m):
    for name, want in (
        ("expected_num_edges", s.exp_edges()),
        ("expected_degree", s.exp_deg("out-in")),
        ("expected_out_degree", s.exp_deg("out")),
        ("expected_in_degree", s.exp_deg("in")),
    ):
        ok, got = ctx.call(name, getattr(m, name))
        if ok:
            ctx.same(name, got, want, 1e-9, 1e-11, spec=s.key())
    if s.multi:
        for name, want in (
            ("expected_num_edges_label", s.exp_edges_label()),
            ("expected_degree_by_label", s.exp_deg_label("out-in")),
            ("expected_out_degree_by_label", s.exp_deg_label("out")),
            ("expected_in_degree_by_label", s.exp_deg_label("in")),
        ):
            ok, got = ctx.call(name, getattr(m, name))
            if ok:
                ctx.same(name, got, want, 1e-9, 1e-11, spec=s.key())
    ctx.state(back, s.kind, s.exp_deg("out-in"), s.exp_deg("out"), s.loops)


def patterns(ctx):
    for gen in (single_specs, multi_specs):
        for s in gen(ctx):
            for back in mk.BACKS:
                if not ctx.take(back + "." + s.key(), group=back + s.kind + str(s.loops)):
                    continue
                with ctx.guard("model"):
                    ctx.run()
                    m = s.build(back)
                    check_expected(ctx, back, s, m)
                    ctx.sample({"backend": back, "model": s.key(),
                                "expected_out_degree": s.exp_deg("out")})


def dtypes(ctx):
    """The same ensemble given as integers, single precision or sparse."""
    X = np.array([3, 0, 1]), np.array([[3, 0], [1, 2], [0, 5]])
    Y = np.array([1, 2, 4]), np.array([[1, 4], [0, 2], [3, 1]])
    wraps = {"arr": None, "F": np.asfortranarray, "csr": sp.csr_array,
             "csc": sp.csc_array, "csrm": sp.csr_matrix, "coo": sp.coo_array,
             "ro": readonly, "view": strided}
    for kind in mk.KINDS[1:]:
        multi = kind in mk.MULTI
        for loops in (False, True):
            for dt in (np.int64, np.int32, np.uint8, np.float32, np.float64):
                for wn, w in wraps.items():
                    if wn.startswith("c") and not multi:
                        continue
                    if ctx.jit and (wn not in ("arr", "csr") or dt not in (np.int64, np.float32)):
                        continue
                    s = mk.Spec(kind, 3, X[multi], Y[multi], [0.125, 0.5] if multi else 0.25,
                                loops, 2 if multi else 1)
                    for back in mk.BACKS:
                        key = f"{back}.{s.key()}.{np.dtype(dt).name}.{wn}"
                        if not ctx.take(key, group=back + kind):
                            continue
                        with ctx.guard("model"):
                            ctx.run()
                            m = s.build(back, dtype=dt, wrap=w)
                            check_expected(ctx, back, s, m)


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def strided(a):
    if a.ndim == 1:
        return np.repeat(a, 2)[::2]
    return np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]


def tables(A):
    """degree measures of one adjacency tensor, by definition"""
    P = A.max(axis=0)
    U = np.maximum(P, P.T)
    return {
        "expected_num_edges": P.sum(), "expected_out_degree": P.sum(1),
        "expected_in_degree": P.sum(0), "expected_degree": U.sum(1),
        "expected_num_edges_label": A.sum((1, 2)),
        "expected_out_degree_by_label": A.sum(2).T,
        "expected_in_degree_by_label": A.sum(1).T,
        "expected_degree_by_label": np.maximum(A, A.transpose(0, 2, 1)).sum(2).T,
    }


def enumerated(ctx):
    """Average over every graph, weighted with the model's own likelihood."""
    specs = []
    for kind in mk.SINGLE:
        for n, loops in ((1, True), (2, False), (2, True), (3, False)) + (
                ((3, True),) if ctx.thorough else ()):
            x, y = (None, None) if kind == "random" else (VX[:n], VY[:n])
            specs.append(mk.Spec(kind, n, x, y, 0.35, loops))
            if kind != "random" and n > 1:
                specs.append(mk.Spec(kind, n, [0.0] + VX[1:n], VY[:n - 1] + [0.0], 1.6, loops))
    for kind in mk.MULTI:
        for n, L, loops in ((2, 2, False), (2, 2, True), (1, 2, True), (2, 3, False)) + (
                ((3, 2, False),) if ctx.thorough else ()):
            x, y = MX[:n, :L], MY[:n, :L]
            specs.append(mk.Spec(kind, n, x, y, [0.4, 1.2, 0.8][:L], loops, L))
            specs.append(mk.Spec(kind, n, x * (np.arange(n * L).reshape(n, L) != 0), y,
                                 0.7, loops, L))
    for s in specs:
        for back in mk.BACKS:
            if ctx.jit and (s.n == 3 or s.loops and s.L > 1):
                continue
            if not ctx.take(back + "." + s.key(), group=back + s.kind):
                continue
            with ctx.guard("model"):
                m = s.build(back)
                acc, tot = None, 0.0
                for A in mk.graphs_on(s.n, s.loops, s.L):
                    ctx.run()
                    ctx.op()
                    ll = m.log_likelihood(A if s.multi else A[0])
                    w = math.exp(ll)
                    tot += w
                    t = tables(A)
                    if acc is None:
                        acc = {k: w * np.asarray(v, float) for k, v in t.items()}
                    else:
                        for k, v in t.items():
                            acc[k] = acc[k] + w * v
                for name, want in acc.items():
                    if "label" in name and not s.multi:
                        continue
                    ok, got = ctx.call(name, getattr(m, name))
                    if ok:
                        ctx.same(name + " vs enumeration", got, want, 1e-8, 1e-10,
                                 spec=s.key(), total_probability=tot)


def ladder(ctx):
    """every value different, over a ladder of sizes"""
    for back, s, key in sizes.models(ctx):
        with ctx.guard("model"):
            ctx.run()
            check_expected(ctx, back, s, s.build(back))


SECTIONS = [
    ("patterns", patterns, ("interp", "jit")),
    ("dtypes", dtypes, ("interp", "jit")),
    ("enumerated", enumerated, ("interp", "jit")),
    ("ladder", ladder, ("interp", "jit")),
]
