"""C19 Equivalent ways of building a model give the same model; bad input is
refused."""
import itertools
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks.c07 import MX, MY, VX, VY
from mc.core import close

GRAPHS = {
    # name: (ids, [(src, dst, label, weight)])
    "chain": ([0, 1, 2], [(0, 1, "a", 2), (1, 2, "b", 3)]),
    "loop": ([0, 1, 2], [(0, 0, "a", 2), (1, 2, "b", 3), (2, 1, "b", 1), (0, 2, "a", 5)]),
    "multi": ([0, 1, 2], [(0, 1, "a", 2), (0, 1, "b", 3), (1, 0, "b", 1), (2, 1, "a", 4)]),
    "repeat": ([0, 1, 2], [(0, 1, "a", 2), (0, 1, "a", 3), (2, 0, "b", 7)]),
    "lonely": ([3, 1, 9, 4], [(3, 9, "b", 1), (9, 3, "a", 2)]),
    "text": (["x", "aa", "q"], [("q", "x", "L2", 2), ("x", "q", "L1", 5), ("aa", "q", "L3", 1)]),
    "onelabel": ([0, 1, 2], [(0, 1, "a", 2), (1, 2, "a", 3), (2, 1, "a", 1)]),
    "three": ([0, 1, 2], [(0, 1, 5, 2), (1, 2, 1, 3), (2, 0, 3, 4), (1, 0, 3, 6)]),
}

GRAPHS["big"] = (list(range(40, 0, -1)), [
    (1 + (7 * k) % 38, 1 + (11 * k * k + k) % 39, "abcde"[k % 5], 1 + k % 9) for k in range(90)])
GRAPHS["wide"] = ([0, 1, 2, 3], [(k % 4, (k * k + 1) % 3, k // 2, 1 + k % 5) for k in range(26)])
PAR = [0.3, 0.05, 0.7] + [0.01 * (1 + k % 4) for k in range(20)]


def graph(back, cls, name, weights):
    ids, rows = GRAPHS[name]
    mod = mk.module("dense" if back == "dense" else "sparse")
    e = pd.DataFrame(rows, columns=["s", "d", "l", "w"])
    kw = dict(v_id="id", src="s", dst="d")
    if weights == "float":
        e["w"] = e["w"] * 0.75
    elif weights == "f32":
        e["w"] = (e["w"] * 0.75).astype(np.float32)
    elif weights == "i1":
        e["w"] = e["w"].astype(np.int8)
    if weights:
        kw["weight"] = "w"
    if cls.startswith("Multi"):
        kw["edge_label"] = "l"
    g = getattr(mod, cls)(pd.DataFrame({"id": ids}), e, **kw)
    n = len(ids)
    lab = dict(g.label_dict) if cls.startswith("Multi") else {r[2]: 0 for r in rows}
    L = max(lab.values()) + 1
    T = np.zeros((L, n, n))
    for s, d, l, w in rows:
        i, j, k = g.id_dict[s], g.id_dict[d], lab[l]
        if weights:
            T[k, i, j] += w * (0.75 if weights in ("float", "f32") else 1)
        else:
            T[k, i, j] = 1
    return g, T


def routes(ctx):
    """from a graph = from the quantities of that graph"""
    for back in mk.BACKS:
        for kind in mk.KINDS:
            for name in GRAPHS:
                for weights in (None, "int", "float", "f32", "i1"):
                    if ctx.jit and (name not in ("multi", "loop") or weights in (None, "float")):
                        continue
                    if not ctx.take(f"{back}.{kind}.{name}.{weights}", group=back + kind):
                        continue
                    with ctx.guard("routes"):
                        one_route(ctx, back, kind, name, weights)


def one_route(ctx, back, kind, name, weights):
    cls = "MultiDiGraph" if kind in mk.MULTI else "DiGraph"
    info = dict(graph=name, weights=str(weights))
    for loops in (False, True):
        g, T = graph(back, cls, name, weights)
        n = T.shape[1]
        L = len(T)
        E = (T.sum(0) != 0).sum()
        ctx.run()
        if kind == "random":
            m = mk.build(back, kind, g, selfloops=loops)
            ctx.same("num_edges", m.num_edges, E, **info)
            if weights:
                ctx.same("total_weight", m.total_weight, T.sum(), 1e-6, **info)
            elif hasattr(m, "total_weight"):
                ctx.fail("total weight of an unweighted graph", **info)
            pairs = n * n if loops else n * (n - 1)
            if E <= pairs:
                m.fit()
                ctx.same("expected_num_edges", m.expected_num_edges(), E, **info)
                kw = dict(num_vertices=n, num_edges=E, selfloops=loops)
                if weights:
                    kw["total_weight"] = T.sum()
                k = mk.build(back, kind, **kw)
                k.fit()
                ctx.same("parameters", m.param, k.param, 1e-6, **info)
            s = mk.Spec("random", n, param=0.4, loops=loops)
            m = mk.build(back, kind, g, param=np.array([0.4, 1.0]), selfloops=loops)
            same_model(ctx, m, s, **info)
            return
        multi = kind in mk.MULTI
        x = T.sum(2).T if multi else T.sum(2)[0]
        y = T.sum(1).T if multi else T.sum(1)[0]
        s = mk.Spec(kind, n, x, y, PAR[:L] if multi else 0.3, loops, L if multi else 1)
        # given parameter
        par = np.array(s.param) if multi else np.array([0.3])
        m = mk.build(back, kind, g, param=par, selfloops=loops)
        same_model(ctx, m, s, **info)
        ctx.same("num_vertices", m.num_vertices, n, **info)
        ctx.same("num_edges", m.num_edges, E, **info)
        if multi:
            ctx.same("num_labels", m.num_labels, L, **info)
            ctx.same("num_edges_label", m.num_edges_label, (T != 0).sum((1, 2)), **info)
        # fitted
        if np.any(np.diagonal(T, axis1=1, axis2=2)) and not loops:
            continue  # more links than pairs
        a = mk.build(back, kind, g, selfloops=loops)
        kw = dict(num_vertices=n, prop_out=x, prop_in=y, selfloops=loops)
        if multi:
            kw.update(num_labels=L, num_edges_label=(T != 0).sum((1, 2)))
        else:
            kw["num_edges"] = E
        b = mk.build(back, kind, **kw)
        for q in (a, b):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                q.fit()
        pa, pb = np.asarray(a.param, float), np.asarray(b.param, float)
        f = lambda p: mk.Spec(kind, n, x, y, p if multi else float(p[0]), loops, s.L)
        ea, eb = f(pa), f(pb)
        ctx.same("model fitted from the graph", ea.exp_edges_label(), eb.exp_edges_label(), 1e-6,
                 1e-9, **info)


def same_model(ctx, m, s, rtol=1e-6, **info):
    """m behaves as the reference ensemble s"""
    def ask(name, *a, **k):
        return ctx.call(name, getattr(m, name), *a, **k)

    ok, v = ask("expected_num_edges")
    ok and ctx.same("expected_num_edges", v, s.exp_edges(), rtol, **info)
    for d, name in (("out", "expected_out_degree"), ("in", "expected_in_degree"),
                    ("out-in", "expected_degree")):
        ok, v = ask(name)
        ok and ctx.same(name, v, s.exp_deg(d), rtol, **info)
    if s.multi:
        ok, v = ask("expected_num_edges_label")
        ok and ctx.same("expected_num_edges_label", v, s.exp_edges_label(), rtol, **info)
        ok, v = ask("expected_out_degree_by_label")
        ok and ctx.same("expected_out_degree_by_label", v, s.exp_deg_label("out"), rtol, **info)
    A = (s.agg()[0] > 0).astype(int)
    ok, v = ask("log_likelihood", A)
    ok and ctx.same("log_likelihood", v, s.loglik(A), rtol, 1e-9, **info)


def wraps(multi):
    f = np.array
    yield "float64", lambda a: f(a, np.float64)
    for t in (np.float32, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32,
              np.uint64):
        yield np.dtype(t).name, lambda a, t=t: f(a, t)
    yield "strided", lambda a: np.repeat(f(a, float), 2, axis=0)[::2]
    yield "reversed", lambda a: f(a, float)[::-1].copy()[::-1]
    if multi:
        yield "fortran", lambda a: np.asfortranarray(f(a, float))
        yield "transposed", lambda a: f(a, float).T.copy().T
        for fm in ("csr", "csc", "coo", "lil", "dok", "bsr"):
            yield fm, lambda a, fm=fm: sp.coo_array(f(a, float)).asformat(fm)
            yield fm + "_matrix", lambda a, fm=fm: sp.coo_matrix(f(a, float)).asformat(fm)
        yield "csr int", lambda a: sp.csr_array(f(a, np.int64))
        yield "csr uint8", lambda a: sp.csr_array(f(a, np.uint8))

        def zeros(a):
            a = f(a, float)
            z = sp.csr_array(np.ones(a.shape))
            z.data[:] = a.ravel()
            return z

        def dup(a):
            a = f(a, float)
            i, j = np.nonzero(a)
            return sp.coo_array((np.r_[a[i, j] * 0.25, a[i, j] * 0.75],
                                 (np.r_[i, i], np.r_[j, j])), shape=a.shape)

        def unsorted(a):
            a = sp.csr_array(f(a, float))
            ind, dat = a.indices.copy(), a.data.copy()
            for k in range(a.shape[0]):
                sl = slice(a.indptr[k], a.indptr[k + 1])
                ind[sl], dat[sl] = ind[sl][::-1], dat[sl][::-1]
            return sp.csr_array((dat, ind, a.indptr), shape=a.shape)

        yield "stored zeros", zeros
        yield "repeated", dup
        yield "unsorted", unsorted


IX = np.array([[3, 0, 9], [120, 7, 0], [1, 5, 2]])
IY = np.array([[0, 4, 100], [6, 2, 5], [90, 0, 8]])


JIT_TYPES = ("int64", "float32", "uint8", "strided", "fortran", "csc", "unsorted", "csr uint8")


def dtypes(ctx):
    """the numeric type and the container of the fitnesses do not matter"""
    for back in mk.BACKS:
        for kind in mk.KINDS[1:]:
            multi = kind in mk.MULTI
            for wn, w in wraps(multi):
                for loops in (False, True):
                    if ctx.jit and (loops or wn not in JIT_TYPES):
                        continue
                    if not ctx.take(f"{back}.{kind}.{wn}.{int(loops)}", group=back + kind + ("" if ctx.jit else wn)):
                        continue
                    with ctx.guard("types"):
                        L = 3 if multi else 1
                        x, y = (IX, IY) if multi else (IX[:, 2], IY[:, 0])
                        s = mk.Spec(kind, 3, x, y, [2e-4, 1e-3, 5e-4] if multi else 3e-4, loops, L)
                        ctx.run()
                        kw = s.kwargs()
                        kw["prop_out"], kw["prop_in"] = w(x), w(y)
                        keep = [_copy(kw["prop_out"]), _copy(kw["prop_in"])]
                        ok, m = ctx.call("constructor", mk.build, back, kind, **kw)
                        if not ok:
                            continue
                        same_model(ctx, m, s, container=wn)
                        tgt = s.exp_edges()
                        q = dict(kw)
                        q.pop("param")
                        ok, m = ctx.call("constructor", mk.build, back, kind, num_edges=tgt, **q)
                        if ok:
                            t = mk.Spec(kind, 3, x, y, 3e-4, loops, L)
                            m.num_edges = t.exp_edges()
                            ok, _ = ctx.call("fit", m.fit)
                            ok and ctx.same("fitted parameter", m.param, np.full(L, 3e-4), 1e-5,
                                            container=wn)
                            ctx.call("sample", m.sample)
                        for a, b, nm in ((kw["prop_out"], keep[0], "prop_out"),
                                         (kw["prop_in"], keep[1], "prop_in")):
                            if not _equal(a, b):
                                ctx.fail("constructor or query changed the caller's " + nm,
                                         container=wn)
                        ctx.state(back, kind, wn, loops)


def big(ctx):
    """products of large integer fitnesses"""
    for back in mk.BACKS:
        for kind in mk.KINDS[1:]:
            multi = kind in mk.MULTI
            if not ctx.take(f"{back}.{kind}", group=back + kind):
                continue
            with ctx.guard("types"):
                L = 3 if multi else 1
                for k in (10**8, 10**10, 10**14):
                    x, y = (IX * k, IY * k) if multi else (IX[:, 2] * k, IY[:, 0] * k)
                    c = 1.0 / k / k
                    s = mk.Spec(kind, 3, x.astype(float), y.astype(float), 3e-4 * c, False, L)
                    kw = s.kwargs()
                    kw["prop_out"], kw["prop_in"] = x, y
                    ctx.run()
                    ok, m = ctx.call("constructor", mk.build, back, kind, **kw)
                    ok and same_model(ctx, m, s, scale=k)
                    kw.pop("param")
                    ok, m = ctx.call("constructor", mk.build, back, kind, num_edges=s.exp_edges(), **kw)
                    if ok:
                        ok, _ = ctx.call("fit", m.fit, x0=2e-4 * c)
                        ok and ctx.same("fitted parameter", np.asarray(m.param) / c,
                                        np.full(L, 3e-4), 1e-5, scale=k)


def _copy(a):
    return a.copy()


def _equal(a, b):
    if sp.issparse(a):
        if a.format in ("csr", "csc", "coo", "bsr"):
            if a.nnz != b.nnz or not np.array_equal(a.data, b.data):
                return False
            if a.format in ("csr", "csc", "bsr") and not (
                    np.array_equal(a.indices, b.indices) and np.array_equal(a.indptr, b.indptr)):
                return False
            return True
        return a.format == b.format and np.array_equal(a.toarray(), b.toarray())
    return a.dtype == b.dtype and np.array_equal(a, b)


def numbers(ctx):
    """scalars and parameters in every accepted form"""
    for back in mk.BACKS:
        for kind in mk.KINDS:
            multi = kind in mk.MULTI
            L = 2 if multi else 1
            if not ctx.take(f"{back}.{kind}", group=back + kind):
                continue
            with ctx.guard("numbers"):
                s = base(kind, False)
                kw = s.kwargs()
                forms = [("num_vertices", v) for v in
                         (3, 3.0, np.int8(3), np.uint64(3), np.float32(3))]
                forms += [("selfloops", v) for v in (False, 0, np.bool_(False))]
                if multi:
                    forms += [("num_labels", v) for v in (2, 2.0, np.int16(2))]
                    forms += [("param", v) for v in ([0.4, 1.3], (0.4, 1.3), np.array([0.4, 1.3]))]
                    forms += [("param", v) for v in (np.array([0.4, 1.3], np.float32),)]
                elif kind != "random":
                    forms += [("param", v) for v in (0.7, np.float64(0.7), np.array([0.7]))]
                else:
                    forms += [("param", v) for v in (0.35, np.float64(0.35), np.array([0.35, 0.8]))]
                for a, v in forms:
                    q = dict(kw)
                    q[a] = v
                    ctx.run()
                    ok, m = ctx.call("constructor", mk.build, back, kind, **q)
                    if ok:
                        same_model(ctx, m, s, 1e-6, argument=a, value=repr(v))
                # one parameter for all labels
                if multi:
                    t = mk.Spec(kind, 3, s.x, s.y, 0.9, False, 2)
                    for v in (0.9, [0.9], np.array([0.9]), (0.9,), np.float32(0.9)):
                        q = dict(kw)
                        q["param"] = v
                        ok, m = ctx.call("constructor", mk.build, back, kind, **q)
                        ok and same_model(ctx, m, t, 1e-6, value=repr(v))
                    for v in (1, np.int64(1), [1, 1], np.array([1, 1])):
                        q["param"] = v
                        ok, m = ctx.call("constructor", mk.build, back, kind, **q)
                        t = mk.Spec(kind, 3, s.x, s.y, 1.0, False, 2)
                        ok and same_model(ctx, m, t, 1e-6, value=repr(v))
                # targets
                kw.pop("param")
                ref = None
                for v in (2, 2.0, np.int64(2), np.array([2]), np.array([2.0]), [2], np.uint8(2)):
                    ctx.run()
                    ok, m = ctx.call("constructor", mk.build, back, kind, num_edges=v, **kw)
                    if not ok:
                        continue
                    ok, _ = ctx.call("fit", m.fit)
                    if ok:
                        ctx.same("expected_num_edges", m.expected_num_edges(), 2.0, 1e-6,
                                 value=repr(v))
                        if ref is None:
                            ref = np.array(m.param, float)
                        ctx.same("parameters", m.param, ref, 1e-6, value=repr(v))
                if multi:
                    for v in (np.array([1, 2]), np.array([1.0, 2.0]), np.array([1, 2], np.uint8)):
                        for nm in ("num_edges_label", "num_edges"):
                            ctx.run()
                            ok, m = ctx.call("constructor", mk.build, back, kind, **{nm: v}, **kw)
                            if not ok:
                                continue
                            ok, _ = ctx.call("fit", m.fit)
                            ok and ctx.same("expected_num_edges_label", m.expected_num_edges_label(),
                                            [1.0, 2.0], 1e-6, value=repr(v), name=nm)
                if kind == "random":
                    for v in (8, 8.0, np.array([8.0]), [8]):
                        ok, m = ctx.call("constructor", mk.build, back, kind, num_edges=2.0,
                                         total_weight=v, **kw)
                        if ok:
                            m.fit()
                            ctx.same("expected_total_weight", m.expected_total_weight(), 8.0, 1e-9)


def base(kind, loops, n=3):
    if kind == "random":
        return mk.Spec("random", n, param=0.35, loops=loops, q=0.8)
    if kind in mk.MULTI:
        return mk.Spec(kind, n, MX[:n, :2], MY[:n, :2], [0.4, 1.3], loops, 2)
    return mk.Spec(kind, n, VX[:n], VY[:n], 0.7, loops)


def override(ctx):
    """explicit arguments win over those of the graph"""
    for back in mk.BACKS:
        for kind in mk.KINDS:
            multi = kind in mk.MULTI
            if not ctx.take(f"{back}.{kind}", group=back + kind):
                continue
            with ctx.guard("override"):
                cls = "MultiDiGraph" if multi else "DiGraph"
                g, T = graph(back, cls, "multi", "int")
                x = T.sum(2).T if multi else T.sum(2)[0]
                y = T.sum(1).T if multi else T.sum(1)[0]
                L = len(T)
                if kind == "random":
                    for kw, want in ((dict(num_edges=5.0), 5.0), (dict(num_edges=1), 1.0),
                                     (dict(total_weight=30.0), 3.0)):
                        ctx.run()
                        m = mk.build(back, kind, g, **kw)
                        m.fit()
                        ctx.same("expected_num_edges", m.expected_num_edges(), want)
                        ctx.same("expected_total_weight", m.expected_total_weight(),
                                 kw.get("total_weight", T.sum()), 1e-9)
                    m = mk.build(back, kind, g, num_vertices=5)
                    m.fit()
                    ctx.same("parameter", m.param[0], 3 / 20.0)
                    continue
                par = np.array([0.3, 0.05][:L]) if multi else np.array([0.3])
                P = par if multi else 0.3
                for which in itertools.product((0, 1), repeat=3):
                    ctx.run()
                    x2 = x[::-1] * 0.5 if which[0] else x
                    y2 = y * 0.25 + 1 if which[1] else y
                    loops = bool(which[2])
                    kw = dict(param=par)
                    if which[0]:
                        kw["prop_out"] = x2.copy()
                    if which[1]:
                        kw["prop_in"] = y2.copy()
                    if which[2]:
                        kw["selfloops"] = True
                    m = mk.build(back, kind, g, **kw)
                    same_model(ctx, m, mk.Spec(kind, 3, x2, y2, P, loops, L if multi else 1),
                               overridden=which)
                # arguments that are zero or false are arguments too
                zero = np.zeros_like(x)
                for a, b in ((zero, y), (x, zero), (zero, zero)):
                    m = mk.build(back, kind, g, param=par, prop_out=a.copy(), prop_in=b.copy(),
                                 selfloops=False)
                    same_model(ctx, m, mk.Spec(kind, 3, a, b, P, False, L if multi else 1))
                m = mk.build(back, kind, g, param=par * 0)
                same_model(ctx, m, mk.Spec(kind, 3, x, y, P * 0, False, L if multi else 1))
                if multi:
                    m = mk.build(back, kind, g, num_edges_label=np.zeros(L))
                    m.fit()
                    ctx.same("expected_num_edges_label", m.expected_num_edges_label(),
                             np.zeros(L), 0, 1e-6)
                    m = mk.build(back, kind, g, num_edges=0, per_label=False)
                else:
                    m = mk.build(back, kind, g, num_edges=0)
                m.fit()
                ctx.same("expected_num_edges", m.expected_num_edges(), 0.0, 0, 1e-6)
                if multi:
                    m = mk.build(back, kind, g, num_edges_label=np.array([1.0, 0.5]))
                    m.fit()
                    ctx.same("expected_num_edges_label", m.expected_num_edges_label(), [1, 0.5], 1e-6)
                    m = mk.build(back, kind, g, num_edges=1.5, per_label=False)
                    m.fit()
                    ctx.same("expected_num_edges", m.expected_num_edges(), 1.5, 1e-6)
                    m = mk.build(back, kind, g, per_label=False)
                    m.fit()
                    ctx.same("expected_num_edges", m.expected_num_edges(), 3.0, 1e-6)
                    if len(set(np.asarray(m.param).tolist())) != 1:
                        ctx.fail("one parameter expected when per_label is off", got=m.param)
                else:
                    m = mk.build(back, kind, g, num_edges=1.5)
                    m.fit()
                    ctx.same("expected_num_edges", m.expected_num_edges(), 1.5, 1e-6)
                # unnamed arguments other than the graph are ignored, with a warning
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    c = mk.model_class(back, kind)
                    a = (mk.context(),) if back == "spark" else ()
                    m = c(*a, g, "something", param=par)
                if not any("ignored" in str(r.message) for r in rec):
                    ctx.fail("unnamed arguments ignored without a warning")
                same_model(ctx, m, mk.Spec(kind, 3, x, y, P, False, L if multi else 1))


def bad_arguments(kind):
    """(name, kwargs changes); None deletes the argument"""
    multi = kind in mk.MULTI
    v = lambda **k: k
    out = [("no vertices", v(num_vertices=None)), ("zero vertices", v(num_vertices=0)),
           ("negative vertices", v(num_vertices=-3)), ("fractional vertices", v(num_vertices=2.5)),
           ("text vertices", v(num_vertices="3")), ("vertex array", v(num_vertices=np.array([1, 2]))),
           ("unknown argument", v(foo=1)), ("unknown argument", v(strength=1)),
           ("no parameter nor target", v(param=None)),
           ("text target", v(num_edges="2")), ("target list", v(num_edges=[1, 2, 3, 4])),
           ("negative parameter", v(param=-0.5)), ("text parameter", v(param="0.5"))]
    if not multi:
        out += [("negative target", v(num_edges=-1)), ("target array", v(num_edges=np.array([1, 2]))),
                ("parameter array", v(param=np.array([0.1, 0.2, 0.3]))),
                ("text array", v(param=np.array(["a", "b"] if kind == "random" else ["a"]))),
                ("empty parameter", v(param=np.array([])))]
    else:
        out += [("negative target", v(num_edges=-1, param=None)),
                ("target array", v(num_edges=np.array([1, 2, 3]))),
                ("parameter array", v(param=np.array([0.1, 0.2, 0.3]))),
                ("text array", v(param=np.array(["a", "b"]))),
                ("one negative parameter", v(param=np.array([0.1, -0.2]))),
                ("no labels", v(num_labels=None)), ("zero labels", v(num_labels=0)),
                ("empty layers", v(num_labels=0, prop_out=np.zeros((3, 0)),
                                   prop_in=np.zeros((3, 0)), param=0.5)),
                ("negative labels", v(num_labels=-2)), ("fractional labels", v(num_labels=1.5)),
                ("wrong labels", v(num_labels=3)), ("text labels", v(num_labels="2")),
                ("short label targets", v(num_edges_label=np.array([1.0]))),
                ("long label targets", v(num_edges_label=np.array([1.0, 1.0, 1.0]))),
                ("negative label target", v(num_edges_label=np.array([1.0, -1.0]))),
                ("text label targets", v(num_edges_label=np.array(["a", "b"]))),
                ("label targets twice", v(num_edges=np.array([1.0, 1.0]),
                                          num_edges_label=np.array([1.0, 1.0])))]
    if kind == "random":
        out += [("negative weight", v(total_weight=-1)), ("text weight", v(total_weight="a")),
                ("weight array", v(total_weight=np.array([1, 2]))),
                ("one of two parameters", v(param=np.array([0.1]))),
                ("probability above one", v(param=1.0001)), ("probability above one", v(param=2)),
                ("probability above one", v(param=np.array([1.5, 0.5])))]
    else:
        for a in ("prop_out", "prop_in"):
            sh = (3, 2) if multi else (3,)
            neg = np.ones(sh)
            neg[-1] = -1e-9
            out += [("no " + a, {a: None}), ("short " + a, {a: np.ones((2,) + sh[1:])}),
                    ("long " + a, {a: np.ones((4,) + sh[1:])}), ("negative " + a, {a: neg}),
                    ("text " + a, {a: "abc"}), ("number as " + a, {a: 1.0}),
                    ("list as " + a, {a: np.ones(sh).tolist()}),
                    ("3d " + a, {a: np.ones(sh + (1,))})]
            if multi:
                out += [("transposed " + a, {a: np.ones((2, 3))}), ("flat " + a, {a: np.ones(3)}),
                        ("wide " + a, {a: np.ones((3, 3))}),
                        ("sparse wide " + a, {a: sp.csr_array(np.ones((3, 3)))}),
                        ("sparse negative " + a, {a: sp.csr_array(neg)})]
            else:
                out += [("2d " + a, {a: np.ones((3, 1))}), ("row " + a, {a: np.ones((1, 3))})]
    return out


def refused(ctx):
    for back in mk.BACKS:
        for kind in mk.KINDS:
            for k, (name, change) in enumerate(bad_arguments(kind)):
                if not ctx.take(f"{back}.{kind}.{k}.{name}", group=back + kind):
                    continue
                with ctx.guard("refused"):
                    kw = base(kind, False).kwargs()
                    for a, x in change.items():
                        if x is None:
                            kw.pop(a, None)
                        else:
                            kw[a] = x
                    ctx.run()
                    ctx.raises(name, mk.build, back, kind, **kw)
                    ctx.state(kind, name)
            if ctx.take(f"{back}.{kind}.first", group=back + kind):
                with ctx.guard("refused"):
                    kw = base(kind, False).kwargs()
                    for bad in ("graph", 3, np.ones((3, 3)), None):
                        ctx.run()
                        ctx.raises("first argument %r" % type(bad).__name__, mk.build, back, kind,
                                   bad, **kw)
                    if kind in mk.MULTI:
                        g, _ = graph(back, "DiGraph", "chain", "int")
                        ctx.raises("graph without labels", mk.build, back, kind, g)
                    g, _ = graph("sparse" if back == "dense" else "dense", "MultiDiGraph", "chain", "int")
                    ctx.raises("graph of another backend", mk.build, back, kind, g)
                    if kind != "random":
                        mod = mk.module("dense" if back == "dense" else "sparse")
                        u = mod.Graph(pd.DataFrame({"id": [0, 1, 2]}),
                                      pd.DataFrame({"s": [0], "d": [1]}), v_id="id", src="s", dst="d")
                        ctx.raises("undirected graph", mk.build, back, kind, u)
            if back == "spark" and ctx.take(f"{back}.{kind}.blocks", group=back + kind):
                with ctx.guard("refused"):
                    s = base(kind, False)
                    for pb in (0, -1, 1.5, "2"):
                        ctx.run()
                        ctx.raises("p_blocks %r" % pb, mk.build, back, kind, p_blocks=pb, **s.kwargs())
                    for pb in (1, 2.0, np.int64(3)):
                        ok, m = ctx.call("constructor", mk.build, back, kind, p_blocks=pb, **s.kwargs())
                        ok and same_model(ctx, m, s)
                    c = mk.model_class(back, kind)
                    ctx.raises("no context", c, **s.kwargs())
                    ctx.raises("no context", c, "context", **s.kwargs())


def unfitted(ctx):
    """a model without parameters answers nothing, then works once fitted"""
    for back in mk.BACKS:
        for kind in mk.KINDS:
            if not ctx.take(f"{back}.{kind}", group=back + kind):
                continue
            with ctx.guard("unfitted"):
                s = base(kind, False)
                kw = s.kwargs()
                kw.pop("param")
                m = mk.build(back, kind, num_edges=2.0, **kw)
                A = np.zeros((3, 3))
                calls = [("expected_num_edges", ()), ("expected_degree", ()),
                         ("expected_out_degree", ()), ("expected_in_degree", ()),
                         ("expected_av_nn_property", (np.ones(3),)), ("expected_av_nn_degree", ()),
                         ("log_likelihood", (A,)), ("sample", ())]
                if s.multi:
                    calls += [("expected_num_edges_label", ()), ("expected_degree_by_label", ()),
                              ("expected_out_degree_by_label", ()), ("expected_in_degree_by_label", ())]
                for name, a in calls:
                    ctx.run()
                    ctx.raises(name + " before fitting", getattr(m, name), *a)
                ok, _ = ctx.call("fit", m.fit)
                if ok:
                    ctx.same("expected_num_edges", m.expected_num_edges(), 2.0, 1e-6)
                    if m.expected_degree().shape != (3,):
                        ctx.fail("expected_degree shape")


SECTIONS = [
    ("routes", routes, ("interp", "jit")),
    ("dtypes", dtypes, ("interp", "jit")),
    ("big", big, ("interp", "jit")),
    ("numbers", numbers, ("interp",)),
    ("override", override, ("interp",)),
    ("refused", refused, ("interp",)),
    ("unfitted", unfitted, ("interp",)),
]
