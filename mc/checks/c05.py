"""C05 The networkx export carries exactly the graph."""
import networkx as nx
import numpy as np

from mc import graphref as gr
from mc.checks import graphs_common
from mc.checks.graphs_common import BACK, build, cells_all, gmaps, make, subsets


def spaces(ctx):
    for cls, (directed, labelled) in gr.CLASSES.items():
        if not labelled:
            plan = [(1, 1, 1), (2, 1, 4), (3, 1, 9 if ctx.thorough else 5)]
        else:
            plan = [(1, 2, 2), (2, 2, 8 if ctx.thorough else 4), (3, 2, 2), (2, 3, 3)]
        for n, L, k in plan:
            for sub in subsets(cells_all(n, L), 0, min(k, n * n * L)):
                yield cls, n, sub


def check_export(ctx, g, ref, cls, n):
    order, lorder, gorder = gr.orders(g, ref)
    ok, G = ctx.call("to_networkx", g.to_networkx)
    if not ok:
        return None
    want_t = {"Graph": nx.Graph, "DiGraph": nx.DiGraph,
              "MultiGraph": nx.MultiGraph,
              "MultiDiGraph": nx.MultiDiGraph}[cls]
    if type(G) is not want_t:
        ctx.fail("export type", got=type(G).__name__)
    if sorted(G.nodes) != list(range(n)):
        ctx.fail("export nodes", got=list(G.nodes))
        return None
    ids = [gr.norm(G.nodes[i].get("node_id")) for i in range(n)]
    if ids != order:
        ctx.fail("export node ids", got=ids, want=order)
    grp = [gr.norm(G.nodes[i].get("group")) for i in range(n)]
    want = [ref.groups[x] if ref.groups else None for x in order]
    if grp != want:
        ctx.fail("export groups", got=grp, want=want)
    got = {}
    for i, j, d in G.edges(data=True):
        l = gr.norm(d.get("label")) if ref.labelled else None
        k = (i, j, l) if ref.directed else (min(i, j), max(i, j), l)
        if k in got:
            ctx.fail("export repeats an edge", edge=k)
        got[k] = float(d.get("weight", 1))
    exp = {}
    wf = ref.w_dir if ref.directed else ref.w_und
    for i, s in enumerate(order):
        for j, t in enumerate(order):
            if not ref.directed and i > j:
                continue
            for l in (lorder if ref.labelled else [None]):
                x = wf(s, t, l)
                if x:
                    exp[(i, j, l)] = float(x)
    if set(got) != set(exp):
        ctx.fail("export edges", got=sorted(map(str, got)),
                 want=sorted(map(str, exp)))
    elif any(abs(got[k] - exp[k]) > 1e-12 * exp[k] for k in exp):
        ctx.fail("export weights", got={str(k): x for k, x in got.items()},
                 want={str(k): x for k, x in exp.items()})
    return got


def export(ctx):
    for cls, n, sub in spaces(ctx):
        gms = gmaps(n)
        for back in BACK:
            for w, (kind, wname) in enumerate((
                    ("int", "unw"), ("str", "int"), ("tup", "frac"), ("int", "u1"),
                    ("zero", "unw"), ("void", "tiny"), ("pair0", "frac"))):
                gm = (gms + [None])[(len(sub) + w + sum(s for _, s, _ in sub)) % (len(gms) + 1)]
                if not sub and kind not in ("int", "zero"):
                    continue
                key = f"{back}.{cls}.n{n}.{kind}.{gm}.{sub}"
                if not ctx.take(key):
                    continue
                with ctx.guard("export"):
                    ref, v, e, kw = make(back, cls, n, sub, kind, wname, gm)
                    ctx.run()
                    g = build(back, cls, v, e, kw)
                    got = check_export(ctx, g, ref, cls, n)
                    ctx.state(cls, back, got)
                    ctx.sample(dict(case=key))


def sizes(ctx):
    for cls, back, n, L, weighted in graphs_common.ladder(ctx):
        with ctx.guard("export"):
            ref, v, e, kw = graphs_common.big(cls, n, L, weighted)
            ctx.run()
            g = build(back, cls, v, e, kw)
            check_export(ctx, g, ref, cls, n)


SECTIONS = [("export", export, ("interp",)),
    ("sizes", sizes, ("interp",)),
]
