"""C01 A graph object is a faithful image of the vertex and edge tables."""
import itertools
import warnings

import numpy as np
import pandas as pd

from mc import graphref as gr
from mc.checks.graphs_common import BACK, build, cells_all, gmaps, make


def check_image(ctx, g, ref, where):
    """Everything the tables say can be read back, nothing else."""
    ctx.op()
    if sorted(map(repr, map(gr.norm, g.id_dict))) != sorted(map(repr, ref.v)) or sorted(
        int(i) for i in g.id_dict.values()
    ) != list(range(len(ref.v))):
        ctx.fail("vertex dictionary is not a bijection", got=dict(g.id_dict))
        return False
    if g.num_vertices != len(ref.v):
        ctx.fail("num_vertices", got=g.num_vertices, want=len(ref.v))
    if ref.labelled:
        if sorted(map(repr, map(gr.norm, g.label_dict))) != sorted(
            map(repr, ref.labels)
        ) or sorted(int(i) for i in g.label_dict.values()) != list(range(len(ref.labels))):
            ctx.fail("label dictionary is not a bijection", got=dict(g.label_dict))
            return False
        if g.num_labels != len(ref.labels):
            ctx.fail("num_labels", got=g.num_labels, want=len(ref.labels))
    if ref.groups:
        if sorted(map(repr, map(gr.norm, g.group_dict))) != sorted(
            map(repr, ref.group_list)
        ) or sorted(int(i) for i in g.group_dict.values()) != list(
            range(len(ref.group_list))
        ):
            ctx.fail("group dictionary is not a bijection", got=dict(g.group_dict))
            return False
        if g.num_groups != len(ref.group_list):
            ctx.fail("num_groups", got=g.num_groups)
    order, lorder, gorder = gr.orders(g, ref)
    if ref.groups:
        want = [gorder.index(ref.groups[x]) for x in order]
        ctx.same("group of each vertex", g.groups, want)
    if bool(g.weighted) != ref.weighted:
        ctx.fail("weighted flag", got=g.weighted)
    if not np.can_cast(np.min_scalar_type(max(len(ref.v) - 1, 0)), g.id_dtype):
        ctx.fail("id dtype too small", got=str(g.id_dtype))
    if ref.labelled and not ref.labels:
        for wt in (False, True):
            if len(g.adjacency_tensor(directed=ref.directed, weighted=wt)) != 0:
                ctx.fail("links by label of a graph without links")
    elif ref.labelled:
        w = ref.w_dir if ref.directed else ref.w_und
        a = ref.a_dir if ref.directed else ref.a_und
        d = ref.directed
        ctx.same("links by label", g.adjacency_tensor(directed=d, weighted=False),
                 ref.tens(a, order, lorder), **where)
        ctx.same("weights by label", g.adjacency_tensor(directed=d, weighted=True),
                 ref.tens(w, order, lorder), **where)
    w = ref.w_dir if ref.directed else ref.w_und
    a = ref.a_dir if ref.directed else ref.a_und
    d = ref.directed
    ctx.same("links", g.adjacency_matrix(directed=d, weighted=False),
             ref.mat(a, order), **where)
    ctx.same("weights", g.adjacency_matrix(directed=d, weighted=True),
             ref.mat(w, order), **where)
    ctx.op(2)
    return True


def sequences(n, L, kmax):
    cells = cells_all(n, L)
    for k in range(0, kmax + 1):
        yield from itertools.product(cells, repeat=k)


def spaces(ctx):
    """(class, n, cells) : all ordered edge lists with repetition up to a bound"""
    t = ctx.thorough
    for cls, (directed, labelled) in gr.CLASSES.items():
        if not labelled:
            plan = [(1, 1, 2), (2, 1, 3), (3, 1, 3 if t else 2)]
        else:
            plan = [(1, 2, 2), (2, 2, 3 if t else 2), (3, 2, 2), (2, 3, 2)]
            if ctx.jit:
                plan = [(1, 2, 2), (2, 2, 2)]
        if ctx.jit:
            plan = plan[:2]
        for n, L, k in plan:
            for cells in sequences(n, L, k):
                yield cls, n, cells


def edge_lists(ctx):
    """Every ordered edge list with repetitions: duplicates are summed, row
    order is irrelevant, nothing is lost."""
    for cls, n, cells in spaces(ctx):
        for back in BACK:
            for wname in ("unw", "int", "frac"):
                if ctx.jit and wname == "int":
                    continue
                for kind in ("int", "str", "tup", "zero", "void", "pair0"):
                    if kind in ("zero", "void", "pair0") and wname != "frac":
                        continue
                    if kind != "int" and not ctx.thorough and (len(cells) > 2 or n > 2):
                        continue
                    key = f"{back}.{cls}.n{n}.{wname}.{kind}.{cells}"
                    if not ctx.take(key, group=back + cls):
                        continue
                    with ctx.guard("construction"):
                        gm = tuple(i % 2 for i in range(n)) if n > 1 else (0,)
                        if not cells and kind != "int":
                            gm = None
                        ref, v, e, kw = make(back, cls, n, cells, kind, wname, gm)
                        ctx.op()
                        ctx.run()
                        g = build(back, cls, v, e, kw)
                        if check_image(ctx, g, ref, dict(rows=ref.edges)):
                            ctx.state(cls, back, ref.cell, ref.weighted)
                        ctx.sample(dict(case=key, rows=ref.edges))


def row_orders(ctx):
    """Every permutation of the vertex rows and of the edge rows, with
    arbitrary DataFrame indices, gives the same graph."""
    base = [
        (3, [(0, 0, 1), (0, 1, 2), (0, 1, 1)]),
        (3, [(0, 2, 0), (1, 0, 2), (0, 2, 0)]),
    ]
    if ctx.thorough:
        base.append((4, [(0, 0, 1), (1, 3, 2), (0, 3, 3), (1, 0, 1)]))
    for cls, (directed, labelled) in gr.CLASSES.items():
        for n, cells in base:
            if not labelled:
                cells = [(0, s, d) for _, s, d in cells]
            for back in BACK:
                for kind in ("int", "str", "tup"):
                    for vo in itertools.permutations(range(n)):
                        for eo in itertools.permutations(range(len(cells))):
                            key = f"{back}.{cls}.{n}.{kind}.{vo}.{eo}"
                            if not ctx.take(key, group=back + cls):
                                continue
                            with ctx.guard("row order"):
                                idx = ([5, 5, -1, 0][:n], [9, 3, 3, 1])
                                ref, v, e, kw = make(
                                    back, cls, n, cells, kind, "frac",
                                    tuple([1, 0, 1, 2][:n]), vorder=vo, eorder=eo,
                                    index=idx)
                                ctx.run()
                                ctx.op()
                                v0, e0 = v.copy(), e.copy()
                                g = build(back, cls, v, e, kw)
                                check_image(ctx, g, ref, dict(rows=ref.edges))
                                for nm, a, b in (("vertex", v0, v), ("edge", e0, e)):
                                    if not a.equals(b[list(a.columns)]):
                                        ctx.fail(nm + " table of the caller changed")
                                # the same tables build the same graph again
                                g2 = build(back, cls, v, e, kw)
                                check_image(ctx, g2, ref, dict(again=True))
                                ctx.state(cls, back, kind, g.id_dict, ref.cell)


def columns(ctx):
    """a column named by itself or in a list of one is the same column"""
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for kind in ("int", "str"):
                for pick in itertools.product((0, 1), repeat=6):
                    if not ctx.take(f"{back}.{cls}.{kind}.{pick}", group=back + cls):
                        continue
                    with ctx.guard("columns"):
                        cells = [(1 if labelled else 0, 0, 1), (0, 1, 2), (0, 1, 1)]
                        ref, v, e, kw = make(back, cls, 3, cells, kind, "frac", (1, 0, 1))
                        for on, a in zip(pick, ("v_id", "src", "dst", "v_group", "weight",
                                                "edge_label")):
                            if on and a in kw:
                                kw[a] = [kw[a]]
                        ctx.run()
                        g = build(back, cls, v, e, kw)
                        check_image(ctx, g, ref, dict(rows=ref.edges, arguments=str(kw)))


def rejections(ctx):
    """Every single-fault table is rejected."""
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for n in (2, 3):
                base = [(0, i % n, (i + 1) % n) for i in range(3)]
                if labelled:
                    base = [(i % 2, s, d) for i, (_, s, d) in enumerate(base)]
                for kind in ("int", "str", "tup"):
                    for fault in ("dup_vertex", "unknown_src", "unknown_dst",
                                  "zero_w", "neg_w", "nan_w"):
                        for pos in range(3):
                            key = f"{back}.{cls}.{n}.{kind}.{fault}.{pos}"
                            if not ctx.take(key, group=back + cls):
                                continue
                            with ctx.guard("rejection"):
                                ref, v, e, kw = make(back, cls, n, base, kind, "frac")
                                ctx.run()
                                if fault == "dup_vertex":
                                    v = pd.concat([v, v.iloc[[pos % n]]])
                                elif fault in ("unknown_src", "unknown_dst"):
                                    col = kw["src" if fault.endswith("src") else "dst"]
                                    col = col if isinstance(col, str) else col[1]
                                    j = e.columns.get_loc(col)
                                    e.iloc[pos, j] = "nope" if kind == "str" else 999
                                else:
                                    j = e.columns.get_loc("value")
                                    e.iloc[pos, j] = {"zero_w": 0.0, "neg_w": -1.0,
                                                      "nan_w": np.nan}[fault]
                                ctx.raises(fault + " accepted:", build, back, cls, v, e, kw)
                                ctx.state(fault, pos, cls, back, kind)
                # unknown vertex in an unweighted graph, non dataframe input
                key = f"{back}.{cls}.{n}.types"
                if ctx.take(key, group=back + cls):
                    with ctx.guard("rejection"):
                        ctx.run()
                        ref, v, e, kw = make(back, cls, n, base, "int", "unw")
                        e2 = e.copy()
                        e2.iloc[0, 0] = 999
                        ctx.raises("unknown vertex, unweighted", build, back, cls, v, e2, kw)
                        ctx.raises("list as vertex table", build, back, cls, [1, 2], e, kw)
                        ctx.raises("list as edge table", build, back, cls, v, [[1, 2]], kw)
                        kw2 = dict(kw, src=["creditor", "debtor"])
                        ctx.raises("mixed src/dst kinds", build, back, cls, v, e, kw2)


def missing(ctx):
    """A missing id, label or group is refused, wherever it is."""
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for n in (2, 3):
                for hole in ("nan", "none", "NaT", "NA"):
                    for what in ("vertex", "src", "dst", "label", "group"):
                        if what == "label" and not labelled:
                            continue
                        for pos in range(3):
                            if what in ("vertex", "group") and pos >= n:
                                continue
                            for more in (False, True):
                                key = f"{back}.{cls}.{n}.{hole}.{what}.{pos}.{int(more)}"
                                if not ctx.take(key, group=back + cls):
                                    continue
                                with ctx.guard("missing"):
                                    ctx.run()
                                    one_missing(ctx, back, cls, directed, labelled, n,
                                                hole, what, pos, more)


def one_missing(ctx, back, cls, directed, labelled, n, hole, what, pos, more):
    vals = {"nan": [1.0, 2.0, 3.0], "none": ["a", "b", "c"], "NA": [5, 6, 7],
            "NaT": list(pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-03"]))}[hole]
    bad = {"nan": np.nan, "none": None, "NaT": pd.NaT, "NA": pd.NA}[hole]
    at = [pos] if not more else [pos, (pos + 1) % (n if what in ("vertex", "group") else 3)]

    def col(k, holes):
        a = [vals[i] for i in k]
        for i in holes:
            a[i] = bad
        return pd.Series(a, dtype={"nan": float, "none": object, "NaT": "datetime64[ns]", "NA": "Int64"}[hole])

    f = lambda w: at if what == w else []
    src, dst = [0, 1, 0], [1, 0, 0]
    if what == "vertex":
        at = at[:1]
    v = pd.DataFrame({"i": col(range(n), f("vertex")), "g": col([0, 1, 1][:n], f("group"))})
    e = pd.DataFrame({"s": col(src, f("src")), "d": col(dst, f("dst")), "l": col([0, 1, 0], f("label"))})
    kw = dict(v_id="i", src="s", dst="d", v_group="g")
    if labelled:
        kw["edge_label"] = "l"
    if what == "vertex":  # the edges name only vertices that are there
        left = [k for k in range(n) if k not in at]
        e = e.iloc[:0] if len(left) < 1 else pd.DataFrame(
            {"s": col([left[0]] * 3, []), "d": col([left[-1]] * 3, []), "l": col([0, 1, 0], [])})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            g = getattr(BACK[back], cls)(v, e, **kw)
        except Exception:  # noqa: BLE001  refused
            ctx.state(cls, back, what)
            return
    if what == "vertex":
        # one vertex may go by a missing id, as long as it is a vertex of its own
        if g.num_vertices != n or len(g.id_dict) != n or g.num_edges() != 1:
            ctx.fail("vertex without id", got=str(g.id_dict))
        return
    # a missing group or label may be a value of its own, but not another one
    part = lambda c: [c.index(x) for x in c]
    if what == "group":
        want = ["missing" if i in at else (0, 1, 1)[i] for i in range(n)]
        if len(g.id_dict) == n and part(want) == part([int(g.groups[g.id_dict[x]]) for x in v["i"]]):
            return
    if what == "label":
        want = ["missing" if i in at else (0, 1, 0)[i] for i in range(3)]
        T = [np.asarray(a.todense() if hasattr(a, "todense") else a) != 0
             for a in g.adjacency_tensor(directed=True, weighted=False)]
        got = [[k for k, a in enumerate(T) if a[src[i], dst[i]]] for i in range(3)]
        if len(set(want)) == g.num_labels and all(len(x) == (2 if not directed and i < 2 and want[0] != want[1] else 1)
                                                  for i, x in enumerate(got)):
            if not directed or part(want) == part([x[0] for x in got]):
                return
    ctx.fail("missing %s accepted" % what, hole=hole, at=at,
             groups=getattr(g, "groups", None), labels=str(getattr(g, "label_dict", "")))


def reused(ctx):
    """The same table objects serve for several graphs, in every order of two
    and three constructions: each graph is the image of what it was told."""
    names = [("A1", "B1"), ("B1", "A1"), ("A1", "B2")]
    menu = []
    for cls in gr.CLASSES:
        for s, d in names:
            for w in (None, "w1", "w2"):
                menu.append((cls, s, d, w))
    firsts = menu if ctx.thorough else menu[::5] + menu[1::7]
    for back in BACK:
        for h in itertools.product(firsts, menu):
            key = f"{back}.{h}"
            if not ctx.take(key, group=back):
                continue
            with ctx.guard("reused tables"):
                v = pd.DataFrame({"i": ["x", "y", "z"], "j": ["z", "x", "q"], "g1": [1, 2, 1], "g2": ["a", "a", "b"]})
                e = pd.DataFrame({"A1": ["x", "y", "x"], "B1": ["z", "z", "x"], "B2": ["x", "z", "z"],
                                  "w1": [1.0, 2.0, 4.0], "w2": [0.5, 8.0, 0.25], "l1": [1, 2, 1], "l2": ["p", "p", "r"]})
                rows = e.to_dict("list")
                for k, (cls, s, d, w) in enumerate(h):
                    directed, labelled = gr.CLASSES[cls]
                    grp = ("g1", "g2", None)[(k + len(s + d + str(w))) % 3]
                    lab = "l%d" % (k + 1)
                    kw = dict(v_id="i", src=s, dst=d, v_group=grp, weight=w)
                    if labelled:
                        kw["edge_label"] = lab
                    ctx.run()
                    ctx.op()
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        g = getattr(BACK[back], cls)(v, e, **kw)
                    ed = [(rows[s][i], rows[d][i], rows[lab][i] if labelled else None, rows[w][i] if w else 1)
                          for i in range(3)]
                    groups = dict(zip("xyz", {"g1": [1, 2, 1], "g2": ["a", "a", "b"]}[grp])) if grp else None
                    ref = gr.Ref(["x", "y", "z"], ed, w is not None, groups, directed, labelled)
                    check_image(ctx, g, ref, dict(history=h[:k + 1]))
                ctx.state(back, h)


def isolated(ctx):
    """A vertex without links is announced; a graph without any is silent."""
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for n in (2, 3):
                cells = [(0, s, d) for s in range(n) for d in range(n)]
                for k in range(1, 3):
                    for sub in itertools.combinations(cells, k):
                        key = f"{back}.{cls}.{n}.{sub}"
                        if not ctx.take(key, group=back + cls):
                            continue
                        with ctx.guard("isolated"):
                            ref, v, e, kw = make(back, cls, n, sub, "str", "frac")
                            ctx.run()
                            ctx.op()
                            with warnings.catch_warnings(record=True) as rec:
                                warnings.simplefilter("always")
                                getattr(BACK[back], cls)(v, e, **kw)
                            iso = {x for x in ref.v
                                   if not any(x in (s, d) for s, d, _, _ in ref.edges)}
                            txt = [str(r.message) for r in rec
                                   if issubclass(r.category, UserWarning)
                                   and "no edges" in str(r.message)]
                            if bool(txt) != bool(iso):
                                ctx.fail("isolated vertex announcement", got=txt,
                                         want=sorted(iso))
                            for x in iso:
                                if txt and not any(x in t for t in txt):
                                    ctx.fail("isolated vertex not named", got=txt, want=x)
                            ctx.state(cls, back, sub)


def sizes(ctx):
    """Identifier storage at the one byte / two byte boundary."""
    ns = (255, 256, 257, 65535, 65536, 65537) if not ctx.thorough else (254, 255, 256, 257, 300, 511, 512, 65535, 65536, 65537, 70000)
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for n in ns:
                for what in ("vertices", "labels", "groups"):
                    if n > 2**15 and (back == "dense" or what == "labels"):
                        continue
                    if what == "labels" and (not labelled or back == "dense" and n > 300):
                        continue
                    key = f"{back}.{cls}.{n}.{what}"
                    if not ctx.take(key, group=back + cls):
                        continue
                    with ctx.guard("size"):
                        ctx.run()
                        ctx.op()
                        N = n if what != "labels" else 4
                        ids = list(range(1000, 1000 + N))
                        v = pd.DataFrame({"name": ids[::-1]})
                        rows = [(i, i + 1) for i in range(N - 1)] + [(N - 1, 0)]
                        if what == "labels":
                            rows = [(i % N, (i * 3 + 1) % N) for i in range(n)]
                        e = pd.DataFrame({
                            "s": [ids[i] for i, _ in rows], "d": [ids[j] for _, j in rows],
                            "w": np.arange(1.0, len(rows) + 1)})
                        kw = dict(v_id="name", src="s", dst="d", weight="w")
                        if labelled:
                            e["t"] = np.arange(len(rows)) if what == "labels" else (
                                np.arange(len(rows)) % 2)
                            kw["edge_label"] = "t"
                        if what == "groups":
                            v["g"] = [(x * 7) % n for x in ids[::-1]]
                            kw["v_group"] = "g"
                        g = build(back, cls, v, e, kw)
                        A = np.zeros((N, N)) if N < 2000 else {}
                        for k, (i, j) in enumerate(rows):
                            at = int(g.id_dict[ids[i]]), int(g.id_dict[ids[j]])
                            if N < 2000:
                                A[at] += k + 1.0
                            else:  # a ring: no repeated link, no self-loop
                                A[at] = k + 1.0
                                if not directed:
                                    A[at[::-1]] = k + 1.0
                        got = g.adjacency_matrix(directed=directed, weighted=True)
                        if N < 2000:
                            if not directed:
                                A = A + A.T - np.diag(np.diag(A))
                            ctx.same("weights at size boundary", got, A)
                        else:
                            c = got.tocoo()
                            if dict(zip(zip(c.row.tolist(), c.col.tolist()), c.data.tolist())) != A:
                                ctx.fail("weights at size boundary", n=N)
                            ctx.same("degree at size boundary", g.degree(), np.full(N, 2))
                        if labelled and what == "labels":
                            if g.num_labels != n or len(set(g.label_dict.values())) != n:
                                ctx.fail("labels at size boundary", got=g.num_labels)
                            ctx.same("label weights", g.total_weight_label()[
                                [g.label_dict[k] for k in range(n)]],
                                np.arange(1.0, n + 1))
                        if what == "groups":
                            want = [g.group_dict[(x * 7) % n] for x in sorted(
                                g.id_dict, key=lambda z: g.id_dict[z])]
                            ctx.same("groups at size boundary", g.groups, want)
                        ctx.state(cls, back, n, what)


def weight_types(ctx):
    """Every numeric type of the weight column, at the end of its range: sums
    of repeated, reversed and superposed links do not overflow."""
    for cls, (directed, labelled) in gr.CLASSES.items():
        L = 2 if labelled else 1
        cells = cells_all(2, L)
        for k in (1, 2, 3):
            for seq in itertools.product(cells, repeat=k):
                if k == 3 and labelled and not ctx.thorough and len(set(seq)) == 3:
                    continue
                for wname in ("u1", "i1", "u2", "i2", "u4", "i4", "u8", "bool"):
                    if wname not in ("u1", "i1", "bool") and k == 3 and not ctx.thorough:
                        continue
                    for back in BACK:
                        key = f"{back}.{cls}.{wname}.{seq}"
                        if not ctx.take(key, group=back + cls):
                            continue
                        with ctx.guard("weight types"):
                            ref, v, e, kw = make(back, cls, 2, seq, "int", wname)
                            ctx.run()
                            ctx.op()
                            g = build(back, cls, v, e, kw)
                            check_image(ctx, g, ref, dict(rows=ref.edges, type=wname))
                            ctx.state(cls, back, wname, ref.cell)


ID_TYPES = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64,
            np.float32, np.float64, "category", "string", "object", "datetime", "bool"]


def id_types(ctx):
    """Every pair of column types of the vertex and of the edge table that name
    the same vertices."""
    def col(t, vals):
        if t == "category":
            return pd.Categorical(vals, categories=sorted(set(vals), reverse=True) or None)
        if t == "string":
            return pd.array(["v%d" % x for x in vals], dtype="str")
        if t == "datetime":
            return pd.to_datetime([1000000 * x for x in vals])
        if t == "bool":
            return np.array([x > 3 for x in vals], bool)
        if t == "object":
            return np.array(vals, object)
        return np.array(vals, t)

    num = [t for t in ID_TYPES if t not in ("string", "datetime", "bool")]
    pairs = [(a, b) for a in num for b in num] + [(t, t) for t in ("string", "datetime", "bool")]
    for cls, (directed, labelled) in gr.CLASSES.items():
        for back in BACK:
            for a, b in pairs:
                an, bn = (getattr(t, "__name__", t) for t in (a, b))
                if not ctx.take(f"{back}.{cls}.{an}.{bn}"):
                    continue
                with ctx.guard("id types"):
                    vals = [5, 3, 90] if a != "bool" else [5, 3]
                    rows = [(5, 3, 1.5), (3, 3, 2.0), (3, 5, 4.0)]
                    if a != "bool":
                        rows.append((90, 5, 8.0))
                    v = pd.DataFrame({"name": col(a, vals)})
                    e = pd.DataFrame({"s": col(b, [r[0] for r in rows]), "d": col(b, [r[1] for r in rows]),
                                      "w": [r[2] for r in rows]})
                    kw = dict(v_id="name", src="s", dst="d", weight="w")
                    if labelled:
                        e["l"] = col(b, [r[1] for r in rows])
                        kw["edge_label"] = "l"
                    v["g"] = col(a, [vals[-1]] + vals[:-1])
                    kw["v_group"] = "g"
                    ctx.run()
                    g = build(back, cls, v, e, kw)
                    key = dict(zip(vals, v["name"].tolist()))
                    A = np.zeros((len(vals),) * 2)
                    for s, d, w in rows:
                        A[g.id_dict[key[s]], g.id_dict[key[d]]] += w
                    if not directed:
                        A = A + A.T - np.diag(np.diag(A))
                    ctx.same("weights", g.adjacency_matrix(directed=directed, weighted=True), A)
                    if labelled:
                        ctx.same("labels", g.num_labels, len({r[1] for r in rows}))
                    want = [None] * len(vals)
                    for k, x in enumerate(vals):
                        want[g.id_dict[key[x]]] = g.group_dict[v["g"].tolist()[k]]
                    ctx.same("groups", g.groups, want)
                    ctx.state(cls, back, an, bn)


SECTIONS = [
    ("missing", missing, ("interp",)),
    ("reused", reused, ("interp",)),
    ("weight_types", weight_types, ("interp",)),
    ("id_types", id_types, ("interp",)),
    ("edge_lists", edge_lists, ("interp", "jit")),
    ("columns", columns, ("interp",)),
    ("row_orders", row_orders, ("interp",)),
    ("rejections", rejections, ("interp",)),
    ("isolated", isolated, ("interp",)),
    ("sizes", sizes, ("interp",)),
]
