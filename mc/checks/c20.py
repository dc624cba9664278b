"""C20 Dense, sparse and Spark models agree with each other.

Purely differential: the menu of methods is read off the classes themselves
(every public method all backends share), the arguments are the full product
of a table of values per argument name, valid and invalid ones.  An outcome is
either the value or the fact that the call was refused.
"""
import copy
import inspect
import itertools
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks import sizes
from mc.checks.c07 import MX, MY, VX, VY
from mc.core import Unsupported, close, dense

A1 = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 0]])
AL = np.array([[0, 1, 0], [0, 1, 0], [1, 1, 0]])
ABS = object()  # argument left out


def own_graph(back, multi, n=3):
    mod = mk.module("dense" if back == "dense" else "sparse")
    e = pd.DataFrame([(0, 1, "a", 2.0), (1, 0, "b", 1.0), (2, 1, "b", 3.0)],
                     columns=["s", "d", "l", "w"])
    kw = dict(v_id="id", src="s", dst="d", weight="w")
    if multi:
        return mod.MultiDiGraph(pd.DataFrame({"id": range(n)}), e, edge_label="l", **kw)
    return mod.DiGraph(pd.DataFrame({"id": range(n)}), e, **kw)


class Own:
    """stands for a graph object of the backend that is asked"""

    def __init__(self, multi, n=3):
        self.a = (multi, n)

    def __repr__(self):
        return "graph%s" % (self.a,)


class Sp:
    """a sparse matrix, made anew for every call"""

    def __init__(self, fmt, a):
        self.a = (fmt, a)

    def make(self):
        f, a = self.a
        return getattr(sp, f)(a)

    def __repr__(self):
        return "%s%s" % (self.a[0], self.a[1].tolist())


S1 = np.array([3.0, 0.0, 2.0])
S2 = np.array([1.0, 4.0, 0.0])
SL = np.array([[3.0, 1.0], [0.0, 2.0], [2.0, 0.0]])


def values(kind, name, method):
    multi = kind in mk.MULTI
    if name == "recompute":
        return [ABS, True]
    if name == "deg_recompute":
        return [ABS, True]
    if name in ("ndir", "ddir"):
        return [ABS, "out", "in", "out-in", "up"]
    if name == "selfloops":
        return [ABS, None, True, False, np.False_, np.True_, 0]
    if name == "prop":
        r = [np.array([1.5, -2.0, 4.0]), np.array([[1.0, 2.0], [3.0, 5.0], [7.0, 11.0]]),
             np.array([1, 2, 300]), np.array([90, 70, 100], np.int8), np.array([True, False, True]),
             np.ones(4), np.ones((2, 3)), np.ones(2), [1.0, 2.0, 4.0], np.array([0.5, 1e-300, 3], np.float32)]
        return r
    if name == "g":
        r = [A1, AL, A1.astype(bool), A1 * 2.5, Sp("csr_array", A1), Sp("csr_matrix", A1), Sp("csc_array", AL),
             Sp("coo_array", A1), Sp("lil_array", A1), Own(False), np.zeros((3, 3)), np.zeros((4, 4)), np.zeros((3, 4)),
             np.zeros(3), "graph", None, 3, A1.tolist(), Sp("csr_array", np.ones((2, 2))), A1 * 0.25, A1 * 1e-9,
             AL * np.array([[0.5, 1e-3, 1]]), Sp("csr_array", A1 * 0.25), Sp("coo_matrix", A1 * 1e-9)]
        if multi:
            t = np.array([A1, AL.T])
            r += [Own(True), t, t[:1], np.array([A1, A1, A1]), t.astype(float),
                  [Sp("csr_array", A1), Sp("csr_array", A1.T)], [Sp("csr_array", A1)],
                  [Sp("csr_matrix", A1), Sp("coo_array", A1.T)], [A1, A1.T],
                  [Sp("csr_array", np.ones((2, 2))), Sp("csr_array", A1)],
                  t * 0.25, t * 1e-9, [A1 * 0.25, A1.T * 1e-9], [Sp("csr_array", A1 * 0.25), Sp("csc_array", A1.T * 0.5)]]
        return r
    if name == "ref_g":
        return [ABS, None, Own(multi), Own(multi, 4), Own(not multi), "graph"]
    if name == "weights":
        return [ABS, None, "cremb", "none such"]
    if name in ("out_strength", "in_strength"):
        a = S1 if name[0] == "o" else S2
        return [ABS, a, a[:2], "text"]
    if name in ("out_strength_label", "in_strength_label"):
        return [ABS, Sp("csr_array", SL if name[0] == "o" else SL[::-1]), SL, SL[:, :1], S1, "text"]
    if name == "x0":
        r = [ABS, 0.1, 1, 0.0, np.array([0.1]), [0.1], -0.5, "x", np.array([0.1, 0.2, 0.3]), [0.1, 0.2, 0.3],
             np.array([-1.0])]
        if multi:
            r += [np.array([0.1, 0.2]), [0.1, 0.2], (1, 2), np.array([0.1, -0.2])]
        return r
    if name == "method":
        return [ABS, "density", "mle", "DENSITY", None]
    if name == "maxiter":
        return [ABS, 2]
    if name in ("atol", "rtol"):
        return [ABS]
    if name == "verbose":
        return [ABS]
    return [ABS]


PREFIX = ("expected_", "log_likelihood", "sample", "fit")


def shared(classes):
    """public methods (bound, not helpers) of every class, with the names of
    the arguments they all take"""
    out = {}
    for name in dir(classes[0]):
        if name.startswith("_"):
            continue
        fs = [getattr(c, name, None) for c in classes]
        if not all(inspect.isfunction(f) for f in fs):
            continue
        ps = [list(inspect.signature(f).parameters) for f in fs]
        if not all(p and p[0] == "self" for p in ps):
            continue
        out[name] = [a for a in ps[0][1:] if all(a in p for p in ps)]
    return out


def calls(kind, method, names):
    tab = [values(kind, a, method) for a in names]
    if method == "sample" or (method == "fit" and kind in mk.MULTI):
        # the full product is too large here: all pairs of arguments
        seen = set()
        for i, j in itertools.combinations(range(len(names)), 2):
            for a, b in itertools.product(range(len(tab[i])), range(len(tab[j]))):
                pick = [0] * len(names)
                pick[i], pick[j] = a, b
                if tuple(pick) not in seen:
                    seen.add(tuple(pick))
                    yield {n: tab[k][pick[k]] for k, n in enumerate(names) if tab[k][pick[k]] is not ABS}
        if method == "sample":
            w, o, i = names.index("weights"), names.index([n for n in names if n.startswith("out")][0]), names.index(
                [n for n in names if n.startswith("in_")][0])
            for a, b, c in itertools.product(tab[w], tab[o], tab[i]):
                k = {names[w]: a, names[o]: b, names[i]: c}
                yield {n: v for n, v in k.items() if v is not ABS}
        return
    for vals in itertools.product(*tab):
        yield {n: v for n, v in zip(names, vals) if v is not ABS}


def show(kw):
    f = lambda v: (str(v.tolist()) + v.dtype.char) if isinstance(v, np.ndarray) else repr(v)
    return ",".join(f"{a}={f(b)}" for a, b in sorted(kw.items())).replace(" ", "")


def real(kw, back):
    def one(v):
        if isinstance(v, Own):
            return own_graph(back, *v.a)
        if isinstance(v, Sp):
            return v.make()
        if isinstance(v, list):
            return [one(x) for x in v]
        return v.copy() if isinstance(v, np.ndarray) else v

    return {a: one(v) for a, v in kw.items()}


def outcome(ctx, m, name, kw, back):
    """('value', x) or ('refused', why)"""
    ctx.op()
    kw = real(kw, back)
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if name == "sample":
                np.random.seed(5)
            r = getattr(m, name)(**kw)
    except Unsupported:
        raise
    except Exception as err:  # noqa: BLE001
        return "refused", "%s: %s" % (type(err).__name__, str(err)[:120])
    if name == "fit":
        said = any("not fit" in str(w.message) or "converge" in str(w.message).lower() for w in rec)
        return "value", np.r_[np.asarray(m.param, float).ravel(), said]
    if name == "sample":
        return "value", np.array([r.num_vertices, getattr(r, "num_labels", 0)])
    if r is None:
        return "value", np.zeros(0)
    return "value", dense(r)


def agree(ctx, what, outs, rtol=1e-7, **info):
    """outs: dict backend -> outcome"""
    kinds = {o[0] for o in outs.values()}
    if len(kinds) > 1:
        ctx.fail(what + ": accepted by some backends only",
                 **{b: o[0] + ("" if o[0] == "value" else " " + o[1]) for b, o in outs.items()}, **info)
        return False
    if kinds == {"refused"}:
        return True
    bs = list(outs)
    a = np.asarray(outs[bs[0]][1])
    for b in bs[1:]:
        v = np.asarray(outs[b][1])
        if a.size == 0 and v.size == 0:
            continue
        if a.shape != v.shape:
            ctx.fail(what + ": shapes differ", **{bs[0]: a.shape, b: v.shape}, **info)
            return False
        try:
            ok = close(v, a, rtol, 1e-9)
        except (TypeError, ValueError):
            ok = np.array_equal(a, v)
        if not ok:
            ctx.fail(what + ": values differ", **{bs[0]: a, b: v}, **info)
            return False
    return True


def spec(kind, loops):
    if kind == "random":
        return mk.Spec("random", 3, param=0.35, loops=loops, q=0.8)
    if kind in mk.MULTI:
        X = MX[:3, :2] * np.array([[1, 1], [0, 1], [1, 0]])
        Y = MY[:3, :2] * np.array([[0, 1], [1, 1], [1, 1]])
        return mk.Spec(kind, 3, X, Y, [0.4, 1.3], loops, 2)
    return mk.Spec(kind, 3, VX[:3], [0.0, 0.25, 1.1], 0.7, loops)


def fresh(back, s, per=True):
    kw = s.kwargs()
    if s.multi and per:
        kw["num_edges_label"] = np.array([0.8, 0.9])
    else:
        kw["num_edges"] = 1.25
    if s.kind == "random":
        kw["total_weight"] = 5.0
    if s.multi:
        kw["per_label"] = per
    return mk.build(back, s.kind, **kw)


def unfit(back, s):
    kw = s.kwargs()
    kw.pop("param")
    kw["num_edges"] = 1.25
    return mk.build(back, s.kind, **kw)


def singles(ctx):
    """every shared method with every combination of arguments"""
    for kind in mk.KINDS:
        menu = shared([mk.model_class(b, kind) for b in mk.BACKS])
        for loops in (False, True):
            s = spec(kind, loops)
            for name, names in sorted(menu.items()):
                if not name.startswith(PREFIX):
                    continue
                for kw in calls(kind, name, names):
                    key = f"{kind}.{int(loops)}.{name}({show(kw)})"
                    if ctx.jit and (loops or "recompute" in str(kw)):
                        continue
                    if ctx.jit and not ctx.thorough and (
                            len(kw) > 1 or name not in ("expected_av_nn_property", "log_likelihood", "expected_degree")
                            or kind not in ("fitness", "mfitness")):
                        continue
                    if not ctx.take(key, group=kind + name):
                        continue
                    with ctx.guard("call"):
                        ctx.run()
                        outs = {b: outcome(ctx, fresh(b, s), name, kw, b) for b in mk.BACKS}
                        agree(ctx, name, outs)
                        ctx.state(kind, name, outs["dense"])


def attributes(ctx):
    """the attributes the user sees, given parameters and after a fit"""
    for kind in mk.KINDS:
        for loops in (False, True):
            for per in (True, False):
                if not ctx.take(f"{kind}.{int(loops)}.{int(per)}", group=kind):
                    continue
                with ctx.guard("attributes"):
                    s = spec(kind, loops)
                    for fit in (False, True):
                        ms = {b: fresh(b, s, per) for b in mk.BACKS}
                        if fit:
                            for m in ms.values():
                                m.fit()
                        ctx.run()
                        for a in ("num_vertices", "num_labels", "num_edges", "num_edges_label", "total_weight",
                                  "selfloops", "per_label", "param", "discrete_weights"):
                            has = {b: hasattr(m, a) for b, m in ms.items()}
                            if len(set(has.values())) > 1:
                                ctx.fail("attribute " + a + " of some backends only", has=has)
                            elif has["dense"]:
                                agree(ctx, "attribute " + a,
                                      {b: ("value", np.asarray(getattr(m, a), float)) for b, m in ms.items()}, 1e-7)


def hist_menu(kind):
    multi = kind in mk.MULTI
    P = np.array([1.5, -2.0, 4.0])
    q = [("expected_num_edges", {}), ("expected_degree", {}), ("expected_out_degree", {"recompute": True}),
         ("expected_in_degree", {}), ("log_likelihood", {"g": A1}), ("log_likelihood", {"g": AL, "selfloops": True}),
         ("log_likelihood", {"g": AL}), ("sample", {}), ("sample", {"selfloops": True}), ("sample", {"weights": "none such"}),
         ("sample", {"ref_g": Own(multi)}), ("fit", {})]
    for sl in (True, False, None):
        q.append(("expected_av_nn_property", {"prop": P, "ndir": "out-in", "selfloops": sl}))
        q.append(("expected_av_nn_degree", {"ndir": "out", "ddir": "in", "selfloops": sl}))
        q.append(("expected_av_nn_degree", {"ndir": "up", "selfloops": sl}))
        q.append(("expected_av_nn_degree", {"ndir": "in", "ddir": "out", "selfloops": sl, "recompute": True}))
    q.append(("expected_av_nn_property", {"prop": np.ones(4), "selfloops": True}))
    if multi:
        q += [("expected_num_edges_label", {}), ("expected_degree_by_label", {}),
              ("expected_out_degree_by_label", {"recompute": True}), ("expected_in_degree_by_label", {}),
              ("log_likelihood", {"g": np.array([A1, A1])})]
    if kind == "random":
        q += [("expected_total_weight", {})]
    else:
        q += [("fit", {"method": "mle"}), ("fit", {"x0": 0.1, "maxiter": 1})]
    return q


def histories(ctx):
    """every sequence of calls to the depth bound, on one object per backend"""
    for kind in mk.KINDS:
        for loops in (False, True):
            for start in ("given", "target"):
                s = spec(kind, loops)
                q = hist_menu(kind)
                depth = 3 if ctx.thorough else 2
                make = (lambda b: fresh(b, s)) if start == "given" else (lambda b: unfit(b, s))
                for seq in itertools.product(range(len(q)), repeat=depth):
                    key = f"{kind}.{int(loops)}.{start}." + "-".join(map(str, seq))
                    if not ctx.take(key):
                        continue
                    with ctx.guard("history"):
                        ctx.run()
                        ms = {b: make(b) for b in mk.BACKS}
                        for k in seq:
                            name, kw = q[k]
                            outs = {b: outcome(ctx, m, name, kw, b) for b, m in ms.items()}
                            if not agree(ctx, name, outs, 1e-6,
                                         history=[q[i][0] + "(" + show(q[i][1]) + ")" for i in seq]):
                                break
                        ctx.state(kind, loops, start, seq)


# -- constructors -----------------------------------------------------------
def odd(arg, kind):
    multi = kind in mk.MULTI
    num = [0, 1, 2, 3, -1, 1.5, 3.0, "3", None, [3], [1, 2], np.array([3]), np.array([1, 2]), np.array(3),
           np.array([[1, 2]]), np.array([]), np.inf, True, {}, 1 + 0j]
    if arg in ("num_vertices", "num_labels"):
        return num
    if arg in ("num_edges", "total_weight", "num_edges_label"):
        return num + [0.7, np.array([0.5]), np.array([0.5, 0.25]), np.float32(0.7), [0.5, 0.25], (0.5, 0.25),
                      np.array([0.5, -0.25]), np.array([1, 1, 1])]
    if arg == "param":
        return num + [0.7, np.array([0.5]), np.array([0.5, 0.25]), np.array([0.5, -0.25]), [0.5, 0.25],
                      (0.5, 0.25), np.array([0.1, 0.2, 0.3]), -np.inf]
    if arg == "selfloops":
        return [True, False, 0, 1, np.bool_(True)]
    if arg == "per_label":
        return [True, False]
    if arg in ("prop_out", "prop_in"):
        X = np.array(MX[:3, :2] if multi else VX[:3])
        return [X, X.astype(np.float32), X[::-1], X * 0, X[:2], X.T.copy(), X.tolist(), -X, X[..., None],
                np.ones(3), np.ones((3, 2)), np.ones((3, 1)), np.ones((3, 3)), "abc", None, 1.0,
                np.array([]), Sp("csr_array", np.ones((3, 2))), Sp("csc_matrix", np.ones((3, 2)) * 2),
                Sp("coo_array", -np.ones((3, 2))), Sp("csr_array", np.ones((2, 2)))]
    return []


def constructors(ctx):
    """one argument replaced by every odd value, with a parameter or a target"""
    for kind in mk.KINDS:
        multi = kind in mk.MULTI
        args = ["num_vertices", "num_edges", "param", "selfloops"]
        args += ["total_weight"] if kind == "random" else ["prop_out", "prop_in"]
        args += ["num_labels", "num_edges_label", "per_label"] if multi else []
        for base in ("param", "num_edges", "both", "num_edges_label"):
            if base == "num_edges_label" and not multi:
                continue
            for arg in args:
                for k, v in enumerate(odd(arg, kind)):
                    if not ctx.take(f"{kind}.{base}.{arg}.{k}.{show({arg: v})}"):
                        continue
                    with ctx.guard("constructor"):
                        s = spec(kind, False)
                        kw = s.kwargs()
                        if base in ("num_edges", "num_edges_label"):
                            kw.pop("param")
                        if base in ("num_edges", "both"):
                            kw["num_edges"] = 1.25
                        if base == "num_edges_label":
                            kw["num_edges_label"] = np.array([0.8, 0.9])
                        kw[arg] = v
                        outs = {}
                        ctx.run()
                        for b in mk.BACKS:
                            ctx.op()
                            try:
                                m = mk.build(b, kind, **real(kw, b))
                                r = [hasattr(m, "param"), hasattr(m, "num_edges"), hasattr(m, "num_edges_label"),
                                     bool(getattr(m, "per_label", False)), bool(m.selfloops)]
                                if hasattr(m, "param"):
                                    r.append(float(m.expected_num_edges()))
                                    r += np.asarray(m.param, float).ravel().tolist()
                                outs[b] = ("value", np.array(r, float))
                            except Unsupported:
                                raise
                            except Exception as err:  # noqa: BLE001
                                outs[b] = ("refused", "%s: %s" % (type(err).__name__, str(err)[:120]))
                        agree(ctx, "constructor " + arg, outs, value=repr(v)[:60], base=base)
                        ctx.state(kind, base, arg, outs["dense"][0])


# -- graphs -------------------------------------------------------------------
GCLS = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")
CELLS = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)]


def gvalues(name):
    return {"recompute": [ABS, True], "deg_recompute": [ABS, True], "directed": [ABS, True, False],
            "weighted": [ABS, True, False], "selfloops": [ABS, True, False],
            "ndir": [ABS, "out", "in", "out-in", "up"], "ddir": [ABS, "out", "in", "out-in", "up"],
            "original": [ABS, True, False],
            "prop": [np.array([1.5, -2.0, 4.0]), np.array([[1.0, 2], [3, 5], [7, 11]]), np.array([90, 70, 100], np.int8),
                     np.ones(4), np.array([True, False, True])]}.get(name, [ABS])


def tables(rows, weights, groups, multi):
    v = pd.DataFrame({"id": [0, 1, 2]})
    e = pd.DataFrame(rows, columns=["s", "d"]) if rows else pd.DataFrame({"s": [], "d": []}, dtype=np.int64)
    kw = dict(v_id="id", src="s", dst="d")
    if groups:
        v["gr"] = ["x", "y", "x"]
        kw["v_group"] = "gr"
    if weights:
        e["w"] = np.array([2.5, 1.25, 4.0, 0.5, 3.0, 7.0, 1.0][:len(rows)]) if weights == "float" else \
            np.array([200, 100, 57, 3, 4, 5, 6][:len(rows)], np.uint8)
        kw["weight"] = "w"
    if multi:
        e["l"] = ["a", "b", "a", "b", "a", "a", "b"][:len(rows)]
        kw["edge_label"] = "l"
    return v, e, kw


def graph_out(ctx, g, name, kw):
    ctx.op()
    try:
        r = getattr(g, name)(**kw)
    except Unsupported:
        raise
    except Exception as err:  # noqa: BLE001
        return "refused", "%s: %s" % (type(err).__name__, str(err)[:120])
    if hasattr(r, "nodes") and hasattr(r, "edges"):
        ed = sorted((str(u), str(v), str(sorted((str(a), str(float(b)) if isinstance(b, (int, float, np.number, np.bool_)) else str(b))
                                          for a, b in d.items()))) for u, v, d in r.edges(data=True))
        if not r.is_directed():
            ed = sorted(tuple(sorted(x[:2])) + x[2:] for x in ed)
        no = sorted((str(u), str(sorted(d.items()))) for u, d in r.nodes(data=True))
        return "value", np.array([str((r.is_directed(), r.is_multigraph(), no, ed))])
    return "value", dense(r)


def graphs(ctx):
    """dense and sparse graphs: every shared method, every argument"""
    for cls in GCLS:
        menu = shared([getattr(mk.module(b), cls) for b in ("dense", "sparse")])
        menu = {n: a for n, a in menu.items() if n not in ("generate_id_dict", "get_num_bytes")}
        multi = cls.startswith("Multi")
        subsets = [tuple(c for k, c in enumerate(CELLS) if m >> k & 1) for m in range(1 << len(CELLS))]
        for rows in subsets:
            if not ctx.thorough and len(rows) not in (0, 1, 2, 3, 7):
                continue
            for weights in (None, "float", "u1"):
                for groups in (False, True):
                    if (weights == "u1" or groups) and len(rows) not in (0, 3, 7):
                        continue
                    if ctx.jit and (len(rows) != 7 or groups):
                        continue
                    key = f"{cls}.{rows}.{weights}.{int(groups)}".replace(" ", "")
                    if not ctx.take(key, group=cls):
                        continue
                    with ctx.guard("graph"):
                        one_graph(ctx, cls, menu, rows, weights, groups, multi)


def one_graph(ctx, cls, menu, rows, weights, groups, multi):
    v, e, kw = tables(rows, weights, groups, multi)
    gs = {}
    for b in ("dense", "sparse"):
        try:
            gs[b] = ("value", getattr(mk.module(b), cls)(v, e, **kw))
        except Exception as err:  # noqa: BLE001
            gs[b] = ("refused", str(err)[:100])
    if len({o[0] for o in gs.values()}) > 1:
        ctx.fail("graph accepted by one backend only", **{b: str(o) for b, o in gs.items()})
        return
    if gs["dense"][0] == "refused":
        return
    ctx.run()
    for a in ("num_vertices", "num_labels", "num_groups", "id_dict", "label_dict", "group_dict", "weighted"):
        has = [hasattr(o[1], a) for o in gs.values()]
        if len(set(has)) > 1:
            ctx.fail("attribute " + a + " of one backend only")
        elif has[0] and len({str(getattr(o[1], a)) for o in gs.values()}) > 1:
            ctx.fail("attribute " + a + " differs", **{b: str(getattr(o[1], a)) for b, o in gs.items()})
    for name, names in sorted(menu.items()):
        big = len(names) > 3
        for vals in itertools.product(*[gvalues(a) for a in names]):
            q = {n: x for n, x in zip(names, vals) if x is not ABS}
            if big and len(q) not in (0, 1, 3, len(names)):
                continue
            # fresh copies: histories of graphs are the subject of C03
            outs = {b: graph_out(ctx, copy.copy(o[1]), name, q) for b, o in gs.items()}
            agree(ctx, cls + "." + name, outs, 1e-6, args=show(q))
    ctx.state(cls, rows, weights, groups)


BAD_GRAPH = [
    ("no id column", lambda v, e, kw: kw.pop("v_id")),
    ("wrong id column", lambda v, e, kw: kw.update(v_id="nope")),
    ("no src", lambda v, e, kw: kw.pop("src")),
    ("no dst", lambda v, e, kw: kw.pop("dst")),
    ("wrong src", lambda v, e, kw: kw.update(src="nope")),
    ("wrong dst", lambda v, e, kw: kw.update(dst="nope")),
    ("wrong weight", lambda v, e, kw: kw.update(weight="nope")),
    ("wrong label", lambda v, e, kw: kw.update(edge_label="nope")),
    ("wrong group", lambda v, e, kw: kw.update(v_group="nope")),
    ("label", lambda v, e, kw: kw.update(edge_label="s")),
    ("unknown argument", lambda v, e, kw: kw.update(foo=1)),
    ("unknown source", lambda v, e, kw: e.__setitem__("s", 9)),
    ("unknown target", lambda v, e, kw: e.__setitem__("d", 9)),
    ("duplicate id", lambda v, e, kw: v.__setitem__("id", [0, 0, 1])),
    ("text weight", lambda v, e, kw: len(e) and (e.__setitem__("w", "x"), kw.update(weight="w"))),
    ("text ids", lambda v, e, kw: (v.__setitem__("id", ["0", "1", "2"]))),
    ("float ids", lambda v, e, kw: (v.__setitem__("id", [0.0, 1.0, 2.0]))),
    ("list src", lambda v, e, kw: kw.update(src=["s"])),
    ("list id", lambda v, e, kw: kw.update(v_id=["id"])),
    ("two id columns", lambda v, e, kw: (v.__setitem__("i2", 1), e.__setitem__("s2", 1), e.__setitem__("d2", 1),
                                         kw.update(v_id=["id", "i2"], src=["s", "s2"], dst=["d", "d2"]))),
    ("two id columns one source", lambda v, e, kw: (v.__setitem__("i2", 1), kw.update(v_id=["id", "i2"]))),
    ("negative weight", lambda v, e, kw: (e.__setitem__("w", -1.0), kw.update(weight="w"))),
    ("zero weight", lambda v, e, kw: (e.__setitem__("w", 0.0), kw.update(weight="w"))),
    ("bool weight", lambda v, e, kw: (e.__setitem__("w", True), kw.update(weight="w"))),
]


def graph_tables(ctx):
    """unusual tables are accepted or refused alike"""
    for cls in GCLS:
        for name, change in BAD_GRAPH:
            for rows in ([(0, 1), (1, 2)], []):
                if not ctx.take(f"{cls}.{name}.{len(rows)}"):
                    continue
                with ctx.guard("tables"):
                    outs = {}
                    for b in ("dense", "sparse"):
                        v, e, kw = tables(rows, None, False, cls.startswith("Multi"))
                        change(v, e, kw)
                        ctx.op()
                        try:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                g = getattr(mk.module(b), cls)(v, e, **kw)
                                outs[b] = ("value", dense(g.adjacency_matrix(directed=True, weighted=True)))
                        except Exception as err:  # noqa: BLE001
                            outs[b] = ("refused", "%s: %s" % (type(err).__name__, str(err)[:120]))
                    ctx.run()
                    agree(ctx, cls + " from tables", outs, tables=name)
            for what in ("list", "dict", "none", "array"):
                if not ctx.take(f"{cls}.{name}.{what}"):
                    continue
                if name != BAD_GRAPH[0][0]:
                    continue
                outs = {}
                for b in ("dense", "sparse"):
                    v, e, kw = tables([(0, 1)], None, False, cls.startswith("Multi"))
                    f = {"list": lambda d: d.values.tolist(), "dict": dict, "none": lambda d: None,
                         "array": lambda d: d.values}[what]
                    for i, pair in enumerate(((f(v), e), (v, f(e)), (f(v), f(e)))):
                        ctx.op()
                        try:
                            g = getattr(mk.module(b), cls)(*pair, **kw)
                            outs.setdefault(i, {})[b] = ("value", dense(g.adjacency_matrix()))
                        except Exception as err:  # noqa: BLE001
                            outs.setdefault(i, {})[b] = ("refused", str(err)[:100])
                for i, o in outs.items():
                    agree(ctx, cls + " from tables", o, tables=what, which=i)


def ladder(ctx):
    """larger models: every expected value, likelihoods, fits"""
    plan = [s for s in sizes.single(ctx, (17, 40) if not ctx.jit else (130,))]
    plan += [s for s in sizes.multi(ctx, ((16, 3), (4, 12)) if not ctx.jit else ((65, 3),))]
    for s in plan:
        if not ctx.take(f"{s.kind}.{s.n}.{s.L}.{s.loops}", group=s.kind):
            continue
        with ctx.guard("ladder"):
            ms = {b: s.build(b, num_edges=0.3 * s.n ** 2 / 2) for b in mk.BACKS}
            prop = sizes.values(s.n, 3) - 1
            menu = [(n, {}) for n in sorted(shared([type(m) for m in ms.values()]))
                    if n.startswith("expected_") and "av_nn" not in n and "weight" not in n]
            for nd in ("out", "in", "out-in"):
                menu.append(("expected_av_nn_property", {"prop": prop, "ndir": nd}))
                menu.append(("expected_av_nn_degree", {"ndir": nd, "ddir": "in", "selfloops": True}))
            for gn, A in sizes.graphs(s):
                menu.append(("log_likelihood", {"g": A.max(axis=0)}))
                if s.multi:
                    menu.append(("log_likelihood", {"g": A}))
            menu.append(("fit", {}))
            menu.append(("expected_degree", {}))
            for name, kw in menu:
                ctx.run()
                outs = {b: outcome(ctx, m, name, kw, b) for b, m in ms.items()}
                agree(ctx, name, outs, 1e-7 if name != "fit" else 1e-6, n=s.n, L=s.L)
            ctx.state(s.kind, s.n, s.L, s.loops, outs["dense"])


SECTIONS = [
    ("singles", singles, ("interp", "jit")),
    ("attributes", attributes, ("interp",)),
    ("histories", histories, ("interp",)),
    ("constructors", constructors, ("interp",)),
    ("graphs", graphs, ("interp", "jit")),
    ("graph_tables", graph_tables, ("interp",)),
    ("ladder", ladder, ("interp", "jit")),
]
