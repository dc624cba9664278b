"""C04 Average nearest-neighbour measures of observed graphs."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc import graphref as gr
from mc.checks import graphs_common
from mc.checks.graphs_common import BACK, build, cells_all, make, subsets


# the same two answers, however the caller spells the truth value
FLAGS = (False, True, np.False_, np.True_, 0, 1)


def props(n):
    yield "f1", np.array([1.5, -2.0, 4.25, 3.0][:n])
    yield "i1", np.array([3, 1, 7, 2][:n])
    yield "one", np.ones(n)
    yield "i1 narrow", np.array([100, 90, 120, 70][:n], np.int8)
    yield "bool", np.array([True, False, True, True][:n])
    yield "fine", np.array([0.1, 1 / 3, 2.0 ** 25 + 1, 123456.789][:n])
    yield "i1 large", np.array([2 ** 25 + 1, 2 ** 40 + 1, 3, 70001][:n])
    yield "f2", np.array([[1.0, 2.5], [3.0, -5.0], [7.0, 11.0], [2.0, 0.5]][:n])
    yield "f3", np.arange(24.0).reshape(4, 3, 2)[:n] ** 1.5 - 3


def spaces(ctx):
    for cls, (directed, labelled) in gr.CLASSES.items():
        if not labelled:
            plan = [(1, 1, 1), (2, 1, 4), (3, 1, 9)]
            if ctx.jit:
                plan = [(1, 1, 1), (2, 1, 4), (3, 1, 2)]
        else:
            plan = [(2, 2, 4), (3, 2, 3 if ctx.thorough else 2)]
            if ctx.jit:
                plan = [(2, 2, 2)]
        for n, L, k in plan:
            for sub in subsets(cells_all(n, L), 0,
                               min(k, n * n * L)):
                yield cls, n, sub


def deg_of(ref, order, kind):
    n = len(order)
    if kind == "out":
        return np.array([sum(ref.a_dir(s, d) for d in order) for s in order], float)
    if kind == "in":
        return np.array([sum(ref.a_dir(d, s) for d in order) for s in order], float)
    return np.array([sum(ref.a_und(s, d) for d in order) for s in order], float)


def all_graphs(ctx):
    for cls, n, sub in spaces(ctx):
        for back in BACK:
            key = f"{back}.{cls}.n{n}.{sub}"
            if not ctx.take(key, group=back + cls):
                continue
            with ctx.guard("average neighbour"):
                ref, v, e, kw = make(back, cls, n, sub, "int", "frac")
                g = build(back, cls, v, e, kw)
                order, _, _ = gr.orders(g, ref)
                dirs = ("out", "in", "out-in") if ref.directed else ("und",)
                for nd in dirs:
                    kw = {"ndir": nd} if ref.directed else {}
                    for s in FLAGS[:2] if n == 3 and len(sub) != 2 else FLAGS:
                        for pname, prop in props(n):
                            if n == 3 and pname in ("one", "i1", "bool") and len(sub) % 2:
                                continue
                            p = prop.copy()
                            ctx.run()
                            ok, got = ctx.call("average_nn_property", g.average_nn_property,
                                               p, selfloops=s, **kw)
                            if ok:
                                ctx.same(f"average_nn_property {nd} selfloops={s}", got,
                                         gr.av_nn(ref, order, prop, nd, s), prop=prop,
                                         rows=ref.edges)
                                if not np.array_equal(p, prop):
                                    ctx.fail("property array of the caller changed")
                        for dd in dirs:
                            k2 = dict(kw, ddir=dd) if ref.directed else {}
                            ok, got = ctx.call("average_nn_degree", g.average_nn_degree,
                                               selfloops=s, recompute=True, **k2)
                            ctx.run()
                            if ok:
                                d = deg_of(ref, order, dd)
                                ctx.same(f"average_nn_degree {nd} of {dd} selfloops={s}",
                                         got, gr.av_nn(ref, order, d, nd, s), rows=ref.edges)
                            # first call on a fresh object (nothing cached)
                        # default arguments
                    ok, got = ctx.call("average_nn_property default",
                                       g.average_nn_property, np.arange(1.0, n + 1), **kw)
                    if ok:
                        ctx.same("average_nn_property default", got,
                                 gr.av_nn(ref, order, np.arange(1.0, n + 1), nd, False))
                if back == "sparse":
                    pr = np.array([[1.0, 0.0], [0.0, 2.0], [3.0, 0.0]][:n])
                    nd = dirs[0]
                    kw = {"ndir": nd} if ref.directed else {}
                    ok, got = ctx.call("average_nn_property sparse prop",
                                       g.average_nn_property, sp.csr_array(pr), **kw)
                    if ok:
                        ctx.same("average_nn_property sparse prop", got,
                                 gr.av_nn(ref, order, pr, nd, False))
                # fresh object, no recompute, degree queries in default direction
                h = build(back, cls, v, e, {**kw_build(ref, cls, n, sub, back)})
                ok, got = ctx.call("average_nn_degree default", h.average_nn_degree)
                if ok:
                    nd = dirs[0]
                    ctx.same("average_nn_degree default", got,
                             gr.av_nn(ref, order, deg_of(ref, order, nd), nd, False))
                ctx.raises("property of the wrong length", g.average_nn_property,
                           np.ones(n + 1))
                if ref.directed:
                    ctx.raises("unknown direction", g.average_nn_property, np.ones(n),
                               ndir="sideways")
                ctx.state(cls, back, n, sub)
                ctx.sample(dict(case=key))


def kw_build(ref, cls, n, sub, back):
    return make(back, cls, n, sub, "int", "frac")[3]


def sizes(ctx):
    for cls, back, n, L, weighted in graphs_common.ladder(ctx):
        if weighted or n > 65:
            continue
        with ctx.guard("average neighbour"):
            ref, v, e, kw = graphs_common.big(cls, n, L, weighted)
            g = build(back, cls, v, e, kw)
            order, _, _ = gr.orders(g, ref)
            prop = np.array([(7 * i) % 11 - 3.5 for i in range(n)])
            dirs = ("out", "in", "out-in") if ref.directed else ("und",)
            for nd in dirs:
                k1 = {"ndir": nd} if ref.directed else {}
                for s in (False, True):
                    ctx.run()
                    ok, got = ctx.call("average_nn_property", g.average_nn_property, prop,
                                       selfloops=s, **k1)
                    ok and ctx.same("average_nn_property", got, gr.av_nn(ref, order, prop, nd, s), n=n)
                    dd = dirs[(dirs.index(nd) + s) % len(dirs)]
                    k2 = dict(k1, ddir=dd) if ref.directed else {}
                    ok, got = ctx.call("average_nn_degree", g.average_nn_degree, selfloops=s, **k2)
                    ok and ctx.same("average_nn_degree", got,
                                    gr.av_nn(ref, order, deg_of(ref, order, dd), nd, s), n=n)
            ctx.state(cls, back, n, L)


SECTIONS = [("all_graphs", all_graphs, ("interp", "jit")),
    ("sizes", sizes, ("interp", "jit")),
]
