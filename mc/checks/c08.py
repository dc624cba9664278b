"""C08 The log-likelihood is the normalised log-probability of the graph."""
import itertools
import math

import numpy as np
import pandas as pd
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks import sizes
from mc.checks.c07 import MX, MY, VX, VY, mask_vec
from mc.checks.graphs_common import BACK


def ll_close(got, want, scale=1.0):
    try:
        got = float(got)
    except Exception:
        return False
    if math.isinf(want) or math.isinf(got) or math.isnan(got):
        return got == want
    return abs(got - want) <= 1e-9 * (1 + abs(want)) * scale


def specs_single(ctx):
    for n in (1, 2, 3):
        for loops in (False, True):
            for p in (0.0, 0.25, 1.0):
                yield mk.Spec("random", n, param=p, loops=loops)
            for kind in ("fitness", "invariant"):
                pats = list(itertools.product((0, 1), repeat=n))
                if n == 3:
                    pats = [(1, 1, 1), (0, 1, 1), (1, 1, 0)]
                for bx in pats:
                    for by in pats:
                        for d in (0.0, 0.6, mk.INF):
                            if n == 3 and (loops and not ctx.thorough and (bx, by) != (pats[0], pats[1])
                                           or d != 0.6 and bx != by):
                                continue
                            yield mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, by), d, loops)


def specs_multi(ctx):
    for n, L in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
        for loops in (False, True):
            for kind in mk.MULTI:
                if n * L > 4 and loops:
                    continue
                c = n * L
                if c <= 2:
                    pats = [np.array(b).reshape(n, L) for b in itertools.product((0, 1), repeat=c)]
                else:
                    one = np.ones((n, L), int)
                    pats = [one] + [one - (np.arange(c).reshape(n, L) == k) for k in range(c)]
                    if not ctx.thorough:
                        pats = pats[:1] + pats[1:4:2] + [np.eye(n, L, dtype=int)]
                for bx in pats:
                    for by in pats:
                        if c > 4 and (bx is not pats[0] and by is not pats[0]):
                            continue
                        for d in (0.7, [0.3, 1.8, 0.9][:L], [mk.INF, 0.0, 1.1][:L]):
                            if L == 1 and np.ndim(d):
                                continue
                            if not ctx.thorough and loops and c == 4 and np.ndim(d) and bx is not by:
                                continue
                            yield mk.Spec(kind, n, MX[:n, :L] * bx, MY[:n, :L] * by, d, loops, L)


def all_graphs(ctx):
    """Every graph (self-loops included) against every model."""
    for s in itertools.chain(specs_single(ctx), specs_multi(ctx)):
        if ctx.jit and (s.n == 3 or s.n * s.L > 3):
            continue
        for back in mk.BACKS:
            if not ctx.take(back + "." + s.key(), group=back + s.kind + str(s.loops)):
                continue
            with ctx.guard("likelihood"):
                m = s.build(back)
                dense_graphs = s.n == 3 and not ctx.thorough and not s.loops
                tot = 0.0
                for A in mk.graphs_on(s.n, True, s.L):
                    dg = A[:, range(s.n), range(s.n)].any()
                    if dg and not s.loops and s.n * s.L > 3 and A.sum() > 2:
                        continue  # disallowed self-loops: small graphs suffice
                    ctx.run()
                    want = s.loglik(A if s.multi else A[0])
                    ok, got = ctx.call("log_likelihood", m.log_likelihood, A if s.multi else A[0])
                    if not ok:
                        break
                    if not ll_close(got, want):
                        ctx.fail("log_likelihood", A=A, got=got, want=want, spec=s.key(),
                                 loop=bool(dg))
                    else:
                        tot += math.exp(min(float(got), 1.0))
                else:
                    if abs(tot - 1) > 1e-9:
                        ctx.fail("probabilities do not sum to one", total=tot, spec=s.key())
                if s.multi:
                    tot = 0.0
                    for A in mk.graphs_on(s.n, True):
                        dg = A[:, range(s.n), range(s.n)].any()
                        ctx.run()
                        want = s.loglik(A[0])
                        ok, got = ctx.call("log_likelihood of the projection",
                                           m.log_likelihood, A[0])
                        if not ok:
                            break
                        if not ll_close(got, want, 10):
                            ctx.fail("log_likelihood of the projection", A=A[0], got=got,
                                     want=want, spec=s.key(), loop=bool(dg))
                        else:
                            tot += math.exp(min(float(got), 1.0))
                    else:
                        if abs(tot - 1) > 1e-9:
                            ctx.fail("projected probabilities do not sum to one",
                                     total=tot, spec=s.key())
                ctx.state(back, s.kind, s.key())
                ctx.sample({"backend": back, "model": s.key(), "total_probability": tot})


def to_graph(back, A, multi, weighted):
    """A graph object built by the real constructors with these links."""
    L, n, _ = A.shape
    rows = [(i, j, l) for l in range(L) for i in range(n) for j in range(n) if A[l, i, j]]
    v = pd.DataFrame({"id": range(n)})
    e = pd.DataFrame({"src": [r[0] for r in rows], "dst": [r[1] for r in rows],
                      "lbl": [r[2] for r in rows],
                      "w": [0.5 + k for k in range(len(rows))]})
    kw = dict(v_id="id", src="src", dst="dst")
    if weighted:
        kw["weight"] = "w"
    b = BACK["dense" if back == "dense" else "sparse"]
    if multi:
        return b.MultiDiGraph(v, e, edge_label="lbl", **kw)
    return b.DiGraph(v, e, **kw)


def stored_zero(A, fmt):
    """a sparse matrix which also stores zeros explicitly"""
    r, c = np.nonzero(np.ones_like(A))
    return fmt(sp.coo_array((A[r, c].astype(float), (r, c)), shape=A.shape))


def unsorted(A):
    """csr with unsorted indices and duplicated entries"""
    ptr, ind, dat = [0], [], []
    for i in range(A.shape[0]):
        for j in reversed(range(A.shape[1])):
            if A[i, j]:
                ind += [j, j]
                dat += [0.5, 0.25]
        ptr.append(len(ind))
    return sp.csr_array((np.array(dat), np.array(ind, dtype=np.int32),
                         np.array(ptr, dtype=np.int32)), shape=A.shape)


def containers2d():
    return {
        "int": lambda A: A.copy(), "bool": lambda A: A != 0,
        "float": lambda A: A * 2.5, "neg": lambda A: A * -1.0,
        "f32": lambda A: (A * 0.25).astype(np.float32),
        "F": lambda A: np.asfortranarray(A), "T": lambda A: A.T.copy().T,
        "u8": lambda A: A.astype(np.uint8),
        "csr": sp.csr_array, "csc": sp.csc_array, "coo": sp.coo_array,
        "lil": sp.lil_array, "dok": sp.dok_array,
        "csrm": sp.csr_matrix, "cscm": sp.csc_matrix, "coom": sp.coo_matrix,
        "csrf": lambda A: sp.csr_array(A * 0.5), "tiny": lambda A: A * 1e-9, "csrb": lambda A: sp.csr_array(A != 0),
        "zero": lambda A: stored_zero(A, sp.csr_array),
        "zeroc": lambda A: stored_zero(A, sp.coo_matrix), "uns": unsorted,
    }


def containers(ctx):
    two = containers2d()
    sp1 = {
        "random": [mk.Spec("random", n, param=0.3, loops=lo) for n in (2, 3) for lo in (0, 1)],
    }
    for kind in ("fitness", "invariant"):
        sp1[kind] = [mk.Spec(kind, n, VX[:n], VY[:n], 0.6, lo) for n in (2, 3) for lo in (0, 1)]
    for kind in mk.MULTI:
        sp1[kind] = [mk.Spec(kind, n, MX[:n, :L], MY[:n, :L], [0.3, 1.8, 0.4][:L], lo, L)
                     for n, L in ((2, 2), (3, 2), (2, 3), (3, 3), (2, 1)) for lo in (0, 1)]
    for kind, lst in sp1.items():
        for s in lst:
            s.loops = bool(s.loops)
            for back in mk.BACKS:
                if ctx.jit and s.n * s.L > 4:
                    continue
                for cname, A in catalogue(s, two, ctx):
                    key = f"{back}.{s.key()}.{cname}"
                    if not ctx.take(key, group=back + kind):
                        continue
                    with ctx.guard("container"):
                        proj = cname.startswith("p_")
                        want = s.loglik(A.max(axis=0) if (proj or not s.multi) else A)
                        m = s.build(back)
                        g = wrap(cname, A, s, back, two)
                        before = snapshot(g)
                        ctx.run()
                        ok, got = ctx.call("log_likelihood of " + cname.split("#")[0],
                                           m.log_likelihood, g)
                        if ok and not ll_close(got, want, 10):
                            ctx.fail("log_likelihood of " + cname.split("#")[0], A=A,
                                     got=got, want=want, spec=s.key())
                        if snapshot(g) != before:
                            ctx.fail("log_likelihood changed its argument", container=cname)


def snapshot(g):
    if isinstance(g, list):
        return [snapshot(x) for x in g]
    if sp.issparse(g):
        return g.toarray().tolist()
    if isinstance(g, np.ndarray):
        return g.tolist()
    return None


def catalogue(s, two, ctx):
    """a few structurally different graphs in every container"""
    full = np.ones((s.L, s.n, s.n), int)
    if not s.loops:
        full[:, range(s.n), range(s.n)] = 0
    gs = [full * 0, full]
    one = full * 0
    one[0, 0, 1] = 1
    gs.append(one)
    chess = full * ((np.arange(full.size).reshape(full.shape) % 3) == 1)
    gs.append(chess)
    last = full * 0
    last[-1, s.n - 1, 0] = 1
    gs.append(last)
    for k, A in enumerate(gs):
        if s.multi:
            for c in two:
                yield f"p_{c}#{k}", A
            for c in ("arr", "bool", "float", "F", "frac", "tiny", "u8"):
                yield f"t_{c}#{k}", A
            for c in ("csr", "csc", "csrm", "coo", "zero", "uns", "mix", "csrf", "csrb", "zeroc"):
                yield f"l_{c}#{k}", A
            yield f"p_DiGraph#{k}", A
            yield f"p_DiGraphw#{k}", A
            if A.any(axis=(1, 2)).all():
                yield f"t_Multi#{k}", A
                yield f"t_Multiw#{k}", A
        else:
            for c in two:
                yield f"{c}#{k}", A
            yield f"DiGraph#{k}", A
            yield f"DiGraphw#{k}", A
            if A.any():
                yield f"Multi1#{k}", A


def wrap(cname, A, s, back, two):
    c = cname.split("#")[0]
    P = A.max(axis=0)
    if c.endswith("DiGraph") or c.endswith("DiGraphw"):
        return to_graph(back, P[None], False, c.endswith("w"))
    if c == "Multi1":
        return to_graph(back, A, True, False)
    if c in ("t_Multi", "t_Multiw"):
        return to_graph(back, A, True, c.endswith("w"))
    if c.startswith("p_"):
        return two[c[2:]](P)
    if c.startswith("t_"):
        return {"arr": A, "bool": A != 0, "float": A * 1.5, "F": np.asfortranarray(A),
                "frac": A * 0.25, "tiny": A * 1e-9, "u8": A.astype(np.uint8)}[c[2:]]
    if c.startswith("l_"):
        c = c[2:]
        if c == "mix":
            return [(sp.csr_array, sp.coo_matrix, sp.csc_array)[l % 3](A[l])
                    for l in range(s.L)]
        return [two[c](A[l]) for l in range(s.L)]
    return two[c](P)


def override(ctx):
    """The self-loop setting given with the call decides for that call."""
    lst = [mk.Spec("random", 2, param=0.3)]
    lst += [mk.Spec(k, 2, VX[:2], VY[:2], 0.6) for k in ("fitness", "invariant")]
    lst += [mk.Spec(k, 2, MX[:2, :2], MY[:2, :2], [0.3, 1.8], False, 2) for k in mk.MULTI]
    for s in lst:
        for own in (False, True):
            s2 = mk.Spec(s.kind, s.n, s.x, s.y, s.param, own, s.L)
            for arg in (None, False, True, np.False_, np.True_, 0, 1):
                for back in mk.BACKS:
                    key = f"{back}.{s2.key()}.{arg}"
                    if not ctx.take(key, group=back + s.kind):
                        continue
                    with ctx.guard("likelihood"):
                        m = s2.build(back)
                        for proj in (False, True) if s.multi else (True,):
                            for A in mk.graphs_on(2, True, 1 if proj else s.L):
                                if ctx.jit and A.sum() > 2:
                                    continue
                                ctx.run()
                                A = A[0] if proj else A
                                want = s2.loglik(A, arg)
                                ok, got = ctx.call("log_likelihood(selfloops)",
                                                   m.log_likelihood, A, selfloops=arg)
                                if ok and not ll_close(got, want, 10):
                                    ctx.fail("log_likelihood(selfloops=%s)" % arg, A=A, got=got,
                                             want=want, spec=s2.key())
                        if m.selfloops != own:
                            ctx.fail("log_likelihood changed the model")


def rejected(ctx):
    """Containers of the wrong size or kind are refused."""
    lst = [mk.Spec("random", 2, param=0.3)]
    lst += [mk.Spec(k, 2, VX[:2], VY[:2], 0.6) for k in ("fitness", "invariant")]
    lst += [mk.Spec(k, 2, MX[:2, :2], MY[:2, :2], [0.3, 1.8], False, 2) for k in mk.MULTI]
    bad2 = {"3x3": np.zeros((3, 3)), "2x3": np.zeros((2, 3)), "1x1": np.zeros((1, 1)),
            "csr3": sp.csr_array(np.zeros((3, 3))), "str": "graph", "none": None,
            "1d": np.zeros(2)}
    badm = {"t3": np.zeros((3, 2, 2)), "t1": np.zeros((1, 2, 2)), "tv": np.zeros((2, 3, 3)),
            "l3": [sp.csr_array((2, 2))] * 3, "lv": [sp.csr_array((3, 3))] * 2,
            "lm": [sp.csr_array((2, 2)), sp.csr_array((3, 3))],
            "4d": np.zeros((1, 2, 2, 2))}
    for s in lst:
        for back in mk.BACKS:
            cat = dict(bad2)
            if s.multi:
                cat.update(badm)
            else:
                cat["3d"] = np.zeros((2, 2, 2))
            for name, bad in cat.items():
                if not ctx.take(f"{back}.{s.key()}.{name}"):
                    continue
                with ctx.guard("rejection"):
                    m = s.build(back)
                    ctx.run()
                    ctx.raises("log_likelihood of a wrong container " + name,
                               m.log_likelihood, bad)
                    want = s.loglik(np.zeros((2, 2)))
                    ok, got = ctx.call("log_likelihood", m.log_likelihood, np.zeros((2, 2)))
                    if ok and not ll_close(got, want, 10):
                        ctx.fail("a refused call changed the model")


def ladder(ctx):
    """graphs with no, some and all possible links, over a ladder of sizes"""
    for back, s, key in sizes.models(ctx):
        with ctx.guard("likelihood"):
            m = s.build(back)
            for gn, A in sizes.graphs(s):
                for proj in (False, True) if s.multi else (True,):
                    B = A.max(axis=0) if proj else A
                    want = s.loglik(B)
                    for fmt in ("arr", "csr"):
                        g = B
                        if fmt == "csr":
                            g = sp.csr_array(B) if proj else [sp.csr_array(x) for x in B]
                        ctx.run()
                        ok, got = ctx.call("log_likelihood", m.log_likelihood, g)
                        if ok and not ll_close(got, want, 10):
                            ctx.fail("log_likelihood", graph=gn, got=got, want=want, model=key,
                                     projected=proj, container=fmt)


SECTIONS = [
    ("all_graphs", all_graphs, ("interp", "jit")),
    ("containers", containers, ("interp", "jit")),
    ("override", override, ("interp", "jit")),
    ("rejected", rejected, ("interp",)),
    ("ladder", ladder, ("interp", "jit")),
]
