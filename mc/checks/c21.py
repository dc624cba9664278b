"""C21 Sampled graphs are complete graph objects.

Every outcome of the random source is explored; each sampled graph is read
once through its adjacency, and everything else it can do is compared with the
definition on those links.
"""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd

from graph_ensembles import lib
from mc import graphref as gr
from mc import modelkit as mk
from mc.checks import c02, c05, c15, sizes
from mc.checks.c07 import MX, MY, VX, VY
from mc.checks.c10 import bal
from mc.checks.c18 import exact_rank
from mc.checks.sampling import read_links
from mc.core import Unsupported, explore
from mc.rngctl import Source


def spec(kind, n, loops):
    if kind == "random":
        return mk.Spec("random", n, param=0.35, loops=loops, q=0.8)
    if kind in mk.MULTI:
        X, Y = MX[:n, :2].copy(), MY[:n, :2].copy()
        if n == 3:  # few possible links, so that all outcomes stay explorable
            X = X * np.array([[1, 0], [1, 1], [0, 0]])
            Y = Y * np.array([[0, 1], [1, 0], [1, 1]])
        X, Y = bal(X, Y)
        return mk.Spec(kind, n, X, Y, [0.4, 1.3], loops, 2)
    x, y = np.array(VX[:n], float), np.array(VY[:n], float)
    if n == 3:
        y[0] = 0.0
    x, y = bal(x, y)
    return mk.Spec(kind, n, x, y, 0.7, loops)


def ref_graph(back, multi, n, how):
    """a graph whose ids, labels and groups the samples take over"""
    if how == "none":
        return None
    mod = mk.module("dense" if back == "dense" else "sparse")
    ids = ["q", "b", "zz"][:n] if how != "tuples" else [("x", 3), ("a", 9), ("a", 1)][:n]
    if how == "tuples":
        v = pd.DataFrame({"i": [i[0] for i in ids], "k": [i[1] for i in ids]})
        e = pd.DataFrame({"s": ["x", "a"], "s2": [3, 9], "d": ["a", "a"], "d2": [9, 9]})
        kw = dict(v_id=["i", "k"], src=["s", "s2"], dst=["d", "d2"])
    else:
        v = pd.DataFrame({"i": ids})
        e = pd.DataFrame({"s": ["q", "b"], "d": ["b", "b"]})
        kw = dict(v_id="i", src="s", dst="d")
    if how == "numeric":  # ids and labels whose order is not that of their text
        v = pd.DataFrame({"i": [9, 10, -2][:n]})
        e = pd.DataFrame({"s": [9, 10], "d": [10, 10]})
    if how in ("groups", "tuples", "onegroup", "falsy"):
        v["g"] = {"onegroup": ["all"] * 3, "falsy": [0, 0, 1]}.get(how, ["G2", "G1", "G2"])[:n]
        kw["v_group"] = "g"
    if multi:
        e["l"] = [9, 10] if how == "numeric" else ["second", "first"]
        kw["edge_label"] = "l"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return (mod.MultiDiGraph if multi else mod.DiGraph)(v, e, **kw)


def reference(g, s, b, w, weighted, rg):
    """the graph one would write in tables for the links just read"""
    inv = {i: gr.norm(k) for k, i in g.id_dict.items()}
    lab = {i: gr.norm(k) for k, i in g.label_dict.items()} if s.multi else {0: None}
    groups = None
    if rg is not None and hasattr(rg, "groups"):
        gd = {i: gr.norm(k) for k, i in rg.group_dict.items()}
        groups = {gr.norm(k): gd[int(rg.groups[i])] for k, i in rg.id_dict.items()}
    rows = [(inv[i], inv[j], lab[l], w[l, i, j]) for l, i, j in zip(*np.nonzero(b))]
    r = gr.Ref([inv[i] for i in range(s.n)], rows, weighted, groups, True, s.multi)
    if s.multi:
        r.labels = [lab[i] for i in range(s.L)]
    return r


def check_graph(ctx, back, g, s, weighted, rg, full):
    """g against the definition on its own links"""
    n = s.n
    want = mk.module("dense" if back == "dense" else "sparse")
    want = want.MultiDiGraph if s.multi else want.DiGraph
    if type(g) is not want:
        ctx.fail("type of the sample", got=type(g).__name__)
    ctx.same("num_vertices", g.num_vertices, n)
    ids = list(rg.id_dict.items()) if rg is not None else [(i, i) for i in range(n)]
    if sorted(map(repr, ids)) != sorted(repr((k, v)) for k, v in g.id_dict.items()):
        if sorted((repr(gr.norm(k)), int(v)) for k, v in ids) != sorted(
                (repr(gr.norm(k)), int(v)) for k, v in g.id_dict.items()):
            ctx.fail("ids of the sample", got=dict(g.id_dict))
            return
    if s.multi:
        ctx.same("num_labels", g.num_labels, s.L)
        lb = list(rg.label_dict.items()) if rg is not None else [(i, i) for i in range(s.L)]
        if sorted((repr(gr.norm(k)), int(v)) for k, v in lb) != sorted(
                (repr(gr.norm(k)), int(v)) for k, v in g.label_dict.items()):
            ctx.fail("labels of the sample", got=dict(g.label_dict))
            return
    if rg is not None and hasattr(rg, "groups"):
        if not hasattr(g, "groups"):
            ctx.fail("groups of the reference graph lost")
            return
        ctx.same("groups", g.groups, rg.groups)
        ctx.same("num_groups", g.num_groups, rg.num_groups)
    elif hasattr(g, "groups"):
        ctx.fail("groups out of nowhere")
    has = getattr(g, "weighted", None)
    if has is None or bool(has) != weighted:
        ctx.fail("weighted flag of the sample", got=has)
    b, w = read_links(g, s)
    if not weighted and not np.array_equal(b, w):
        ctx.fail("weights of an unweighted sample", got=w)
    ref = reference(g, s, b, w, weighted, rg)
    c02.compare(ctx, g, ref, rows=ref.edges)
    if not full:
        return
    order, _, _ = gr.orders(g, ref)
    prop = np.array([1.5, -2.0, 4.0][:n])
    for nd in ("out", "in", "out-in"):
        for sl in (False, True):
            ok, v = ctx.call("average_nn_property", g.average_nn_property, prop, ndir=nd, selfloops=sl)
            ok and ctx.same("average_nn_property", v, gr.av_nn(ref, order, prop, nd, sl))
            for dd in ("out", "in", "out-in"):
                P = b.any(0)
                d = {"out": P.sum(1), "in": P.sum(0), "out-in": (P | P.T).sum(1)}[dd]
                ok, v = ctx.call("average_nn_degree", g.average_nn_degree, ndir=nd, ddir=dd, selfloops=sl)
                ok and ctx.same("average_nn_degree", v, gr.av_nn(ref, order, d, nd, sl))
    c05.check_export(ctx, g, ref, type(g).__name__, n)
    if not s.multi and "original" in g.to_networkx.__code__.co_varnames:
        ctx.call("to_networkx original", g.to_networkx, original=True)
    W = w.sum(0) if weighted else b.any(0).astype(float)
    with contextlib.redirect_stdout(io.StringIO()):
        ok, v = ctx.call("pagerank", lib.pagerank, g)
    if ok and W.sum():
        ctx.same("pagerank", v, exact_rank(W, 0.85), 1e-4, 1e-5)
    reuse(ctx, back, g, s, b, w, weighted, full != "cond")


def reuse(ctx, back, g, s, b, w, weighted, own):
    """the sample as the input of a model: same as its own quantities"""
    n = s.n
    kinds = ("random", "fitness", "invariant") if not s.multi else mk.KINDS
    E = b.any(0).sum()
    ctx.op()
    for kind in kinds:
        multi = kind in mk.MULTI
        ok, m = ctx.call("model from a sample", mk.build, back, kind, g, selfloops=True)
        if not ok:
            continue
        ctx.same("num_edges of a model from a sample", m.num_edges, E)
        ctx.same("num_vertices of a model from a sample", m.num_vertices, n)
        if kind == "random":
            if weighted:
                ctx.same("total_weight of a model from a sample", m.total_weight, w.sum())
            elif hasattr(m, "total_weight"):
                ctx.fail("total weight of an unweighted sample")
            m.fit()
            ctx.same("expected_num_edges of a model from a sample", m.expected_num_edges(), E)
            continue
        x, y = w.sum(2).T, w.sum(1).T
        if not multi:
            P = w.sum(0) if weighted else b.any(0).astype(float)
            x, y = P.sum(1), P.sum(0)
        L = s.L if multi else 1
        t = mk.Spec(kind, n, x, y, [0.3, 0.2][:L] if multi else 0.3, True, L)
        kw = dict(param=np.array(t.param)) if multi else dict(param=np.array([0.3]))
        ok, m = ctx.call("model from a sample", mk.build, back, kind, g, selfloops=True, **kw)
        if ok:
            ok, v = ctx.call("expected_degree of a model from a sample", m.expected_degree)
            ok and ctx.same("expected_degree of a model from a sample", v, t.exp_deg("out-in"), 1e-7)
            A = b if multi else b.any(0)
            ok, v = ctx.call("log_likelihood of a sample", m.log_likelihood, g)
            ok and ctx.same("log_likelihood of a sample", v, t.loglik(A), 1e-7)
    if not own:
        return
    # the model it came from
    m = s.build(back)
    ok, v = ctx.call("log_likelihood of a sample", m.log_likelihood, g)
    if ok:
        A = b if s.multi else b[0]
        ctx.same("log_likelihood of a sample", v, s.loglik(A), 1e-7)
        if not np.isfinite(v):
            ctx.fail("a sample is impossible in its own model")


def kinds_of_weights(kind):
    out = [("binary", {}, {}), ("cremb", {"weights": "cremb"}, {})]
    if kind == "random":
        out[1] = ("cremb", {"weights": "cremb", "out_strength": np.array([3.0, 2.0, 5.0]),
                            "in_strength": np.array([1.0, 4.0, 2.0])}, {})
        out += [("own", {"weights": "W"}, {}), ("discrete", {"weights": "W"}, {"discrete_weights": True})]
    return out


def samples(ctx):
    for back in mk.BACKS:
        for kind in mk.KINDS:
            for n in (1, 2, 3):
                for loops in (False, True):
                    if n == 3 and loops:
                        continue
                    s = spec(kind, n, loops)
                    for wn, kw, extra in kinds_of_weights(kind):
                        for how in ("none", "groups", "plain", "tuples", "onegroup", "falsy", "numeric"):
                            if how != "none" and n < 2:
                                continue
                            if n == 2 and how == "falsy" or n == 3 and how == "falsy" and (
                                    wn != "binary" and not ctx.thorough):
                                continue
                            if n == 3 and how in ("plain", "tuples", "onegroup", "numeric") and not ctx.thorough:
                                continue
                            if ctx.jit and (n != 2 or loops or how != "none" or (
                                    kind not in ("fitness", "mfitness") and not ctx.thorough)):
                                continue
                            key = f"{back}.{kind}.{n}.{int(loops)}.{wn}.{how}"
                            if not ctx.take(key, group=back + kind):
                                continue
                            with ctx.guard("sample"):
                                one(ctx, back, kind, s, wn, dict(kw), extra, how)


def one(ctx, back, kind, s, wn, kw, extra, how):
    rg = ref_graph(back, s.multi, s.n, how)
    if rg is not None:
        kw["ref_g"] = rg
    for a in ("out_strength", "in_strength"):
        if a in kw:
            kw[a] = kw[a][:s.n].copy()
    if "in_strength" in kw:  # same total
        kw["in_strength"] *= kw["out_strength"].sum() / kw["in_strength"].sum()
    if kw.get("weights") == "W":
        kw["weights"] = "random"
    count = [0]

    def run(ch):
        m = s.build(back, **extra)
        if ctx.jit:
            return m.sample(**kw)
        with Source(ch, lambda k: 1.0 + 0.25 * k):
            ctx.op()
            return m.sample(**kw)

    if ctx.jit:
        np.random.seed(3)
        for k in range(12):
            g = run(None)
            ctx.run()
            check_graph(ctx, back, g, s, wn != "binary", rg, True)
        return
    before = None if rg is None else (dict(rg.id_dict), str(getattr(rg, "groups", "")))
    for g, ch in explore(run, 2000):
        ctx.run()
        count[0] += 1
        full = count[0] <= 20 or count[0] % 11 == 0 or ctx.thorough
        check_graph(ctx, back, g, s, wn != "binary", rg, full)
        ctx.state(back, kind, wn, how, read_links(g, s)[0])
    if before is not None and before != (dict(rg.id_dict), str(getattr(rg, "groups", ""))):
        ctx.fail("reference graph changed by sampling")


def conditional(ctx):
    """samples of the conditional model; groups are those of the model"""
    x, y = np.array([1.5, 0.5, 2.0]), np.array([1.0, 2.0, 1.0])
    for groups in ((0, 0, 1), (0, 1, 1), (1, 0, 1)):
        for A in ([[0, 2], [0, 0]], [[3, 1], [0, 0]], [[0, 1], [5, 0]]):
            for wn in (None, "cremb", "wagg"):
                for how in ("none", "plain", "groups", "tuples", "onegroup", "falsy"):
                    s = c15.CSpec(3, groups, A, x, y, 0.5, False)
                    if not s.feasible() or not ctx.take(f"{groups}.{A}.{wn}.{how}"):
                        continue
                    with ctx.guard("sample"):
                        rg = ref_graph("sparse", False, 3, how)
                        kw = {} if rg is None else {"ref_g": rg}
                        if wn:
                            kw.update(weights=wn, out_strength=x * 2, in_strength=y * 2)

                        def run(ch):
                            m = s.build()
                            with Source(ch, lambda k: 1.0 + 0.25 * k):
                                ctx.op()
                                return m.sample(**kw)

                        for g, ch in explore(run, 2000):
                            ctx.run()
                            check_graph(ctx, "sparse", g, s, wn is not None, rg, "cond")


class Pattern:
    """outcomes of the random source in a fixed irregular order"""

    def __init__(self, k):
        self.k = k

    def __call__(self, n):
        self.k = (self.k * 1103515245 + 12345) % 2147483648
        return (self.k >> 16) % n


def ladder(ctx):
    """larger samples, one for every start of a fixed pattern of outcomes"""
    for back, s, key in sizes.models(ctx, (7, 17, 40), ((6, 3), (3, 12), (20, 2))):
        for wn in ("binary", "cremb"):
            for start in (1, 2):
                with ctx.guard("sample"):
                    kw = {}
                    if wn == "cremb":
                        if s.kind == "random":
                            kw = dict(out_strength=np.arange(1.0, s.n + 1), in_strength=np.arange(s.n, 0.0, -1.0))
                        else:
                            s.x, s.y = bal(s.x, s.y)
                        kw["weights"] = "cremb"
                    m = s.build(back)
                    with Source(Pattern(start), lambda k: 1.0 + 0.25 * (k % 7)):
                        ctx.op()
                        g = m.sample(**kw)
                    ctx.run()
                    check_graph(ctx, back, g, s, wn != "binary", None, False)
                    c05.check_export(ctx, g, reference(g, s, *read_links(g, s), wn != "binary", None),
                                     type(g).__name__, s.n)
                    ctx.state(key, wn, read_links(g, s)[0])


SECTIONS = [
    ("samples", samples, ("interp", "jit")),
    ("conditional", conditional, ("interp",)),
    ("ladder", ladder, ("interp",)),
]
