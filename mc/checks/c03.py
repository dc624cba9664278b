"""C03 Answers of a graph do not depend on what was asked before."""
import copy
import itertools

import numpy as np

from mc import graphref as gr
from mc.core import dense, close
from mc.checks.graphs_common import BACK, build, make

GRAPHS = [
    # n, cells (label, src, dst), group map
    (3, [(0, 0, 0), (0, 0, 1), (1, 1, 0), (1, 1, 2), (1, 2, 2)], (0, 1, 0)),
    (3, [(0, 0, 1), (1, 0, 1), (0, 2, 1), (1, 0, 2)], (1, 0, 0)),
    (2, [(0, 0, 0), (1, 0, 1)], (0, 1)),
]


def menu(cls, n):
    directed, labelled = gr.CLASSES[cls]
    m = ["num_edges", "total_weight", "degree", "strength", "degree_by_group",
         "strength_by_group"]
    if directed:
        m += ["out_degree", "in_degree", "out_strength", "in_strength",
              "out_degree_by_group", "in_degree_by_group", "out_strength_by_group",
              "in_strength_by_group"]
    if labelled:
        m += ["num_edges_label", "total_weight_label", "degree_by_label",
              "strength_by_label"]
        if directed:
            m += ["out_degree_by_label", "in_degree_by_label", "out_strength_by_label",
                  "in_strength_by_label"]
    q = []
    for x in m:
        q.append((x, {}))
        q.append((x, {"recompute": True}))
    for d in (True, False) if directed else (False,):
        for w in (True, False):
            q.append(("adjacency_matrix", dict(directed=d, weighted=w)))
            if labelled:
                q.append(("adjacency_tensor", dict(directed=d, weighted=w)))
    prop = np.array([1.5, -2.0, 4.0][:n])
    prop2 = np.array([[1.0, 2.0], [3.0, 5.0], [7.0, 11.0]][:n])
    for s in (False, True):
        if directed:
            for nd in ("out", "in", "out-in"):
                q.append(("average_nn_property", dict(prop=prop, ndir=nd, selfloops=s)))
                for dd in ("out", "in", "out-in"):
                    q.append(("average_nn_degree", dict(ndir=nd, ddir=dd, selfloops=s)))
            q.append(("average_nn_degree", dict(ndir="in", ddir="out", selfloops=s,
                                                recompute=True)))
            q.append(("average_nn_degree", dict(ndir="out", ddir="out", selfloops=s,
                                                deg_recompute=True)))
            q.append(("average_nn_property", dict(prop=prop2, ndir="out", selfloops=s,
                                                  deg_recompute=True)))
        else:
            q.append(("average_nn_property", dict(prop=prop, selfloops=s)))
            q.append(("average_nn_property", dict(prop=prop2, selfloops=s,
                                                  deg_recompute=True)))
            q.append(("average_nn_degree", dict(selfloops=s)))
            q.append(("average_nn_degree", dict(selfloops=s, recompute=True)))
            q.append(("average_nn_degree", dict(selfloops=s, deg_recompute=True)))
    q.append(("to_networkx", {}))
    return q


def norm_result(name, r):
    if name == "to_networkx":
        return (sorted((str(a), sorted((k, str(v)) for k, v in d.items()))
                       for a, d in r.nodes(data=True)),
                sorted((str(a), str(b), sorted((k, str(float(v)) if k == "weight" else str(v))
                                               for k, v in d.items()))
                       for a, b, d in r.edges(data=True)))
    return dense(r).astype(float).copy()


def equal(a, b):
    if isinstance(a, tuple):
        return a == b
    return a.shape == b.shape and close(a, b)


def label(q):
    n, k = q
    return n + "(" + ",".join(f"{a}={'P%d' % np.ndim(b) if a == 'prop' else b}"
                              for a, b in sorted(k.items())) + ")"


def fresh(back, cls, spec, wname):
    n, cells, gm = spec
    if not gr.CLASSES[cls][1]:
        cells = [(0, s, d) for _, s, d in cells]
    ref, v, e, kw = make(back, cls, n, cells, "str", wname, gm)
    return build(back, cls, v, e, kw)


def clone(g):
    """A copy of an object nothing was asked of yet."""
    return copy.deepcopy(g)


def histories(ctx):
    """Every history of queries up to the depth bound on one object; every
    answer must equal the answer a fresh object gives to that query alone."""
    depth = 3 if ctx.thorough else 2
    for back in BACK:
        for cls in gr.CLASSES:
            for gi, spec in enumerate(GRAPHS):
                for wname in ("frac", "unw"):
                    if ctx.jit and (gi != 0 or wname == "unw"):
                        continue
                    if not ctx.thorough and wname == "unw" and gi != 0:
                        continue
                    q = menu(cls, spec[0])
                    d = depth if gi == 0 and wname == "frac" else 2
                    base = None
                    for i0, first in enumerate(q):
                        key = f"{back}.{cls}.g{gi}.{wname}.{label(first)}"
                        if not ctx.take(key, group=back + cls):
                            continue
                        with ctx.guard("history"):
                            if base is None:
                                b0 = fresh(back, cls, spec, wname)
                                alone = []
                                for name, kw in q:
                                    g = clone(b0)
                                    ctx.op()
                                    alone.append(norm_result(name, getattr(g, name)(**kw)))
                                base = b0
                            walk(ctx, base, q, alone, i0, d)


def walk(ctx, base, q, alone, i0, depth):
    adj0 = snap(base)
    rest = range(len(q))
    for tail in itertools.product(rest, repeat=depth - 1):
        hist = (i0,) + tail
        if depth == 3 and not interesting(q, hist):
            continue
        g = clone(base)
        kept = []
        ctx.run()
        for i in hist:
            name, kw = q[i]
            ctx.op()
            r = getattr(g, name)(**kw)
            got = norm_result(name, r)
            if not equal(got, alone[i]):
                ctx.fail("answer to %s depends on history" % label(q[i]),
                         history=[label(q[k]) for k in hist], got=got, want=alone[i])
            kept.append((i, r))
        for i, r in kept:
            if not equal(norm_result(q[i][0], r), alone[i]):
                ctx.fail("answer to %s changed after it was given" % label(q[i]),
                         history=[label(q[k]) for k in hist])
        if snap(g) != adj0:
            ctx.fail("queries changed the graph", history=[label(q[k]) for k in hist])
    ctx.state(type(base).__name__, i0, adj0)


def interesting(q, hist):
    # depth 3 only over histories whose last query is a cached one
    return "adjacency" not in q[hist[2]][0]


def snap(g):
    a = dense(g.adj)
    return (str(a.shape), a.tobytes().hex(), str(sorted(g.id_dict.items(), key=str)),
            str(getattr(g, "groups", None)), str(g.num_vertices))


SECTIONS = [("histories", histories, ("interp", "jit"))]
