"""C02 Every graph measure equals the count or sum its definition says."""
import itertools

import numpy as np

from mc import graphref as gr
from mc.checks import graphs_common
from mc.checks.graphs_common import BACK, build, cells_all, gmaps, make, subsets


def gr_size(x):
    return len(x) if isinstance(x, (list, tuple)) else int(np.prod(np.shape(x)))


def compare(ctx, g, ref, **where):
    order, lorder, gorder = gr.orders(g, ref)
    want = gr.measures(ref, order, lorder, gorder)
    for name, w in want.items():
        m, kw = gr.get_query(name)
        ok, got = ctx.call(name, getattr(g, m), **kw)
        if ok and ref.labelled and not ref.labels and np.size(w) == 0:
            if gr_size(got):
                ctx.fail(name + " of a graph without labels is not empty")
        elif ok:
            ctx.same(name, got, w, **where)
    ctx.state(type(g).__name__, want["degree"], want["strength"], ref.cell)


def spaces(ctx):
    t = ctx.thorough
    for cls, (directed, labelled) in gr.CLASSES.items():
        if not labelled:
            plan = [(1, 1, 1), (2, 1, 4), (3, 1, 9 if (t or directed) else 9)]
            if ctx.jit:
                plan = [(2, 1, 4), (3, 1, 2)]
        else:
            plan = [(1, 2, 2), (2, 2, 8 if t else 4), (3, 2, 3 if t else 2), (2, 3, 3)]
            if ctx.jit:
                plan = [(2, 2, 2)]
        for n, L, k in plan:
            cells = cells_all(n, L)
            for sub in subsets(cells, 0, min(k, len(cells))):
                yield cls, n, sub


def all_graphs(ctx):
    for cls, n, sub in spaces(ctx):
        gms = gmaps(n)
        for back in BACK:
            for w, wname in enumerate(("unw", "int", "frac")):
                # the partition rotates through all of them over the space;
                # thorough takes the full product
                gl = gms if (ctx.thorough or n < 3) else [
                    gms[(sum(7 * s + 3 * d + l for l, s, d in sub) + w) % len(gms)]]
                if ctx.jit:
                    gl = gl[-1:]
                for gm in gl:
                    key = f"{back}.{cls}.n{n}.{wname}.{gm}.{sub}"
                    if not ctx.take(key, group=back + cls):
                        continue
                    with ctx.guard("measures"):
                        ref, v, e, kw = make(back, cls, n, sub, "int", wname, gm)
                        ctx.run()
                        g = build(back, cls, v, e, kw)
                        compare(ctx, g, ref, rows=ref.edges)
                        ctx.sample(dict(case=key))


def duplicated(ctx):
    """Graphs written with repeated rows, strings, tuples, float32."""
    for cls, (directed, labelled) in gr.CLASSES.items():
        L = 2 if labelled else 1
        n = 2
        cells = cells_all(n, L)
        for seq in itertools.product(cells, repeat=3):
            if labelled and not ctx.thorough and len(set(seq)) == 3:
                continue
            for back in BACK:
                for kind, wname in (("str", "frac"), ("tup", "f32"), ("int", "unw"),
                                    ("int", "u1"), ("str", "i1"), ("void", "tiny"),
                                    ("zero", "frac")):
                    key = f"{back}.{cls}.{kind}.{wname}.{seq}"
                    if not ctx.take(key, group=back + cls):
                        continue
                    with ctx.guard("measures"):
                        ref, v, e, kw = make(back, cls, n, seq, kind, wname, (1, 0))
                        ctx.run()
                        g = build(back, cls, v, e, kw)
                        compare(ctx, g, ref, rows=ref.edges)


def larger(ctx):
    """Fixed-shape larger graphs: stars, cycles, complete, disconnected, with
    and without loops, every number of labels and groups up to the bound."""
    ns = (4, 5, 6) if not ctx.thorough else (4, 5, 6, 7)
    shapes = {
        "star_out": lambda n: [(0, i) for i in range(1, n)],
        "star_in": lambda n: [(i, 0) for i in range(1, n)],
        "cycle": lambda n: [(i, (i + 1) % n) for i in range(n)],
        "complete": lambda n: [(i, j) for i in range(n) for j in range(n)],
        "upper": lambda n: [(i, j) for i in range(n) for j in range(i, n)],
        "isolated": lambda n: [(n - 2, n - 3), (n - 3, n - 3)],
        "mutual": lambda n: [(0, 1), (1, 0), (2, 3), (3, 2), (3, 3)],
    }
    for cls, (directed, labelled) in gr.CLASSES.items():
        for n in ns:
            for sname, fn in shapes.items():
                for L in (1, 2, 3) if labelled else (1,):
                    for off in range(3):
                        for back in BACK:
                            for wname in ("unw", "frac"):
                                key = f"{back}.{cls}.{sname}.{n}.{L}.{off}.{wname}"
                                if not ctx.take(key, group=back + cls):
                                    continue
                                with ctx.guard("measures"):
                                    pairs = fn(n)
                                    cells = [((k + off) % L, s, d)
                                             for k, (s, d) in enumerate(pairs)]
                                    ids = list(range(50, 50 + n))[::-1]
                                    labels = gr.LABELS["int"]
                                    rows = [(ids[s], ids[d], labels[l] if labelled else None,
                                             0.5 + 1.37 * k) for k, (l, s, d) in enumerate(cells)]
                                    groups = {x: (x * (off + 1)) % (2 + off) for x in ids}
                                    ref = gr.Ref(ids, rows, wname != "unw", groups,
                                                 directed, labelled)
                                    import pandas as pd
                                    v, e, kw = gr.tables(pd, ids, rows, ref.weighted,
                                                         groups, labelled)
                                    ctx.run()
                                    g = build(back, cls, v, e, kw)
                                    compare(ctx, g, ref, shape=sname)


def hubs(ctx):
    """Degrees, labels and groups past the range of the narrow index types."""
    import pandas as pd
    n = 258
    shapes = {
        "star_out": [(0, i) for i in range(1, n)], "star_in": [(i, 0) for i in range(n)],
        "chain": [(i, i + 1) for i in range(n - 1)] + [(3, 3)],
    }
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for sname, pairs in shapes.items():
                for wname in ("unw", "u1"):
                    if (wname == "u1") != (sname == "star_in"):
                        continue
                    if not ctx.take(f"{back}.{cls}.{sname}.{wname}"):
                        continue
                    with ctx.guard("measures"):
                        ids = list(range(n))
                        if sname == "chain":
                            lab = lambda k: 0
                            groups = {x: x for x in ids}
                        else:
                            lab = lambda k: int(k > n // 2)
                            groups = {x: x % 2 for x in ids}
                        w = [255 if wname == "u1" else 1.0] * len(pairs)
                        rows = [(s, d, lab(k) if labelled else None, w[k]) for k, (s, d) in enumerate(pairs)]
                        ref = gr.Ref(ids, rows, wname != "unw", groups, directed, labelled)
                        v, e, kw = gr.tables(pd, ids, rows, ref.weighted, groups, labelled,
                                             wdtype=np.uint8)
                        ctx.run()
                        g = build(back, cls, v, e, kw)
                        compare(ctx, g, ref, shape=sname)


def sizes(ctx):
    for cls, back, n, L, weighted in graphs_common.ladder(ctx):
        with ctx.guard("measures"):
            if n > 65 and not ctx.jit:
                continue
            ref, v, e, kw = graphs_common.big(cls, n, L, weighted)
            ctx.run()
            compare(ctx, build(back, cls, v, e, kw), ref, n=n)


SECTIONS = [
    ("hubs", hubs, ("interp",)),
    ("all_graphs", all_graphs, ("interp", "jit")),
    ("duplicated", duplicated, ("interp",)),
    ("larger", larger, ("interp", "jit")),
    ("sizes", sizes, ("interp", "jit")),
]
