"""Reference model of graphs: plain Python over the edge table.

Nothing here imports the package: vertices are original identifiers, edges are
rows (src, dst, label, weight) exactly as the user wrote them.
"""
import itertools

import numpy as np


class Ref:
    """What a user means by a vertex table and an edge table."""

    def __init__(self, vertices, edges, weighted, groups=None, directed=True,
                 labelled=False):
        self.v = list(vertices)
        self.edges = list(edges)  # (src, dst, label, weight)
        self.weighted = weighted
        self.groups = groups  # dict vertex -> group or None
        self.directed = directed
        self.labelled = labelled
        self.labels = sorted({l for _, _, l, _ in self.edges}, key=repr)
        self.group_list = sorted(set(groups.values()), key=repr) if groups else []
        # directed cell weights, duplicates summed (presence if unweighted)
        self.cell = {}
        for s, d, l, w in self.edges:
            k = (s, d, l)
            if weighted:
                self.cell[k] = self.cell.get(k, 0) + w
            else:
                self.cell[k] = 1

    # --- elementary adjacency -------------------------------------------
    def w_dir(self, s, d, label=None):
        if label is not None:
            return self.cell.get((s, d, label), 0)
        ls = self.labels if self.labelled else [None]
        w = sum(self.cell.get((s, d, l), 0) for l in ls)
        # without weights only one link is considered to exist
        return w if self.weighted else (1 if w else 0)

    def a_dir(self, s, d, label=None):
        return 1 if self.w_dir(s, d, label) != 0 else 0

    def w_und(self, s, d, label=None):
        """Undirected weight of the unordered pair; self loops count once.
        Without weights a link exists or not (strength equals degree)."""
        if not self.weighted:
            return 1 if (self.w_dir(s, d, label) or self.w_dir(d, s, label)) else 0
        if s == d:
            return self.w_dir(s, s, label)
        return self.w_dir(s, d, label) + self.w_dir(d, s, label)

    def a_und(self, s, d, label=None):
        return 1 if (self.w_dir(s, d, label) != 0 or self.w_dir(d, s, label) != 0) else 0

    # --- arrays in a given vertex/label/group order -----------------------
    def mat(self, fn, order, label=None):
        n = len(order)
        m = np.zeros((n, n))
        for i, s in enumerate(order):
            for j, d in enumerate(order):
                m[i, j] = fn(s, d, label)
        return m

    def tens(self, fn, order, lorder):
        n = len(order)
        return np.array([self.mat(fn, order, l) for l in lorder]).reshape(len(lorder), n, n)

    def group_sum(self, m, order, gorder):
        n = len(order)
        r = np.zeros((n, len(gorder)))
        for i in range(n):
            for j, d in enumerate(order):
                r[i, gorder.index(self.groups[d])] += m[i, j]
        return r


def measures(ref, order, lorder, gorder):
    """All order-free measures of a graph, from the definition."""
    out = {}
    A, W = ref.a_dir, ref.w_dir
    Au = ref.mat(ref.a_und, order)
    Wu = und_weight(ref, order)
    tri = np.triu(np.ones_like(Au))
    out["degree"] = Au.sum(axis=1)
    out["strength"] = Wu.sum(axis=1)
    if not ref.directed:
        out["adjacency_matrix(False,False)"] = Au
        out["adjacency_matrix(False,True)"] = Wu
        out["num_edges"] = (Au * tri).sum()
        out["total_weight"] = (Wu * tri).sum()
    else:
        Ad = ref.mat(A, order)
        Wd = ref.mat(W, order)
        out["adjacency_matrix(False,False)"] = Au
        out["adjacency_matrix(False,True)"] = Wu
        out["adjacency_matrix(True,False)"] = Ad
        out["adjacency_matrix(True,True)"] = Wd
        out["num_edges"] = Ad.sum()
        out["total_weight"] = Wd.sum()
        out["out_degree"] = Ad.sum(axis=1)
        out["in_degree"] = Ad.sum(axis=0)
        out["out_strength"] = Wd.sum(axis=1)
        out["in_strength"] = Wd.sum(axis=0)
    if ref.groups:
        out["degree_by_group"] = ref.group_sum(Au, order, gorder)
        out["strength_by_group"] = ref.group_sum(Wu, order, gorder)
        if ref.directed:
            out["out_degree_by_group"] = ref.group_sum(Ad, order, gorder)
            out["in_degree_by_group"] = ref.group_sum(Ad.T, order, gorder)
            out["out_strength_by_group"] = ref.group_sum(Wd, order, gorder)
            out["in_strength_by_group"] = ref.group_sum(Wd.T, order, gorder)
    if ref.labelled:
        Tu = ref.tens(ref.a_und, order, lorder)
        TWu = ref.tens(ref.w_und, order, lorder)
        out["adjacency_tensor(False,False)"] = Tu
        out["adjacency_tensor(False,True)"] = TWu
        out["degree_by_label"] = Tu.sum(axis=2).T
        out["strength_by_label"] = TWu.sum(axis=2).T
        if not ref.directed:
            out["num_edges_label"] = (Tu * tri).sum(axis=(1, 2))
            out["total_weight_label"] = (TWu * tri).sum(axis=(1, 2))
        else:
            T = ref.tens(A, order, lorder)
            TW = ref.tens(W, order, lorder)
            out["adjacency_tensor(True,False)"] = T
            out["adjacency_tensor(True,True)"] = TW
            out["num_edges_label"] = T.sum(axis=(1, 2))
            out["total_weight_label"] = TW.sum(axis=(1, 2))
            out["out_degree_by_label"] = T.sum(axis=2).T
            out["in_degree_by_label"] = T.sum(axis=1).T
            out["out_strength_by_label"] = TW.sum(axis=2).T
            out["in_strength_by_label"] = TW.sum(axis=1).T
    return out


def und_weight(ref, order):
    return ref.mat(ref.w_und, order)


def av_nn(ref, order, prop, ndir, selfloops, directed=True):
    """Nearest-neighbour average; zero for an empty neighbourhood."""
    n = len(order)
    prop = np.asarray(prop, dtype=float)
    res = np.zeros(prop.shape)
    for i, s in enumerate(order):
        acc = np.zeros(prop.shape[1:])
        cnt = 0
        for j, d in enumerate(order):
            if i == j and not selfloops:
                continue
            if ndir == "out":
                a = ref.a_dir(s, d)
            elif ndir == "in":
                a = ref.a_dir(d, s)
            else:
                a = ref.a_und(s, d)
            if a:
                acc = acc + prop[j]
                cnt += 1
        if cnt:
            res[i] = acc / cnt
    return res


# ------------------------------------------------------------------ builders
IDS = {
    "int": [7, -2, 30, 4, 12],
    "str": ["z", "a", "m", "b10", "b9"],
    "tup": [("NL", 2), ("FR", 9), ("NL", 1), ("DE", 5), ("FR", 1)],
    # values that are false as a truth value, or equal to a position
    "zero": [1, 0, -1, 3, 2],
    "void": ["a", "", " ", "0", "nan"],
    "pair0": [(0, 1), (0, 0), (1, 0), (-1, 0), (1, 1)],
}
LABELS = {
    "int": [5, 3, 11],
    "str": ["y", "x", "k"],
    "tup": [("b", 1), ("a", 2), ("a", 1)],
    "zero": [1, 0, -1],
    "void": ["b", "", "0"],
    "pair0": [(1, 0), (0, 0), (0, 1)],
}
GROUPS = {"int": [9, 2, 4], "str": ["g2", "g1", "g0"],
          "tup": [("q", 2), ("p", 3), ("p", 1)],
          "zero": [1, 0, -1], "void": ["b", "", "0"],
          "pair0": [(1, 0), (0, 0), (0, 1)]}
PAIRS = ("tup", "pair0")


def tables(pd, vertices, edges, weighted, groups, labelled, wdtype=float,
           vorder=None, eorder=None, kind="int", extra=False, index=None):
    """DataFrames for the given rows. Tuple identifiers become two columns."""
    vs = list(vertices) if vorder is None else [vertices[i] for i in vorder]
    es = list(edges) if eorder is None else [edges[i] for i in eorder]
    kw = {}
    if kind in PAIRS:
        v = pd.DataFrame({"c1": [x[0] for x in vs], "c2": [x[1] for x in vs]})
        e = pd.DataFrame({
            "s1": [x[0][0] for x in es], "s2": [x[0][1] for x in es],
            "d1": [x[1][0] for x in es], "d2": [x[1][1] for x in es]})
        kw.update(v_id=["c1", "c2"], src=["s1", "s2"], dst=["d1", "d2"])
    else:
        dt = np.int64 if kind in ("int", "zero") else object
        v = pd.DataFrame({"name": np.array(vs, dtype=dt)})
        e = pd.DataFrame({"creditor": np.array([x[0] for x in es], dtype=dt),
                          "debtor": np.array([x[1] for x in es], dtype=dt)})
        kw.update(v_id="name", src="creditor", dst="debtor")
    if weighted:
        e["value"] = np.array([x[3] for x in es], dtype=wdtype)
        kw["weight"] = "value"
    if labelled:
        if kind in PAIRS:
            e["l1"] = [x[2][0] for x in es]
            e["l2"] = [x[2][1] for x in es]
            kw["edge_label"] = ["l1", "l2"]
        else:
            e["type"] = [x[2] for x in es]
            kw["edge_label"] = "type"
    if groups:
        if kind in PAIRS:
            v["g1"] = [groups[x][0] for x in vs]
            v["g2"] = [groups[x][1] for x in vs]
            kw["v_group"] = ["g1", "g2"]
        else:
            v["country"] = [groups[x] for x in vs]
            kw["v_group"] = "country"
    if index is not None:
        v.index = index[0][: len(v)]
        e.index = index[1][: len(e)]
    return v, e, kw


def get_query(name):
    """'adjacency_matrix(True,False)' -> (method, kwargs)"""
    if "(" in name:
        m, a = name[:-1].split("(")
        d, w = a.split(",")
        return m, dict(directed=d == "True", weighted=w == "True")
    return name, {}


CLASSES = {
    "Graph": (False, False),
    "DiGraph": (True, False),
    "MultiGraph": (False, True),
    "MultiDiGraph": (True, True),
}


def orders(g, ref):
    """Vertex / label / group order used by the object, from its dictionaries."""
    order = [None] * len(ref.v)
    for k, i in g.id_dict.items():
        order[i] = norm(k)
    lorder = []
    if ref.labelled:
        lorder = [None] * len(ref.labels)
        for k, i in g.label_dict.items():
            lorder[i] = norm(k)
    gorder = []
    if ref.groups:
        gorder = [None] * len(ref.group_list)
        for k, i in g.group_dict.items():
            gorder[i] = norm(k)
    return order, lorder, gorder


def norm(k):
    if isinstance(k, tuple):
        return tuple(norm(x) for x in k)
    if isinstance(k, np.generic):
        return k.item()
    return k
