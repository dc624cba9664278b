import itertools
import warnings

import numpy as np
import pandas as pd

import graph_ensembles as ge_dense
import graph_ensembles.sparse as ge_sparse

from mc import graphref as gr

BACK = {"dense": ge_dense, "sparse": ge_sparse}
POW = [1, 2, 4, 8, 16, 32]
FRAC = [0.5, 1.25, 3.125, 7.0625, 10.03125, 0.75]


def edge_rows(cells, ids, labels, weights):
    """cells: sequence of (label index, src index, dst index)"""
    return [(ids[s], ids[d], labels[l] if labels else None, weights[k % len(weights)])
            for k, (l, s, d) in enumerate(cells)]


def build(back, cls, v, e, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(BACK[back], cls)(v, e, **kw)


def weight_scheme(name):
    """(weighted, weights, dtype)"""
    return {
        "unw": (False, [1], float),
        "int": (True, POW, np.int64),
        "frac": (True, FRAC, float),
        "u1": (True, [200, 100, 57, 255, 128, 3], np.uint8),
        "i1": (True, [127, 100, 3, 64, 9, 126], np.int8),
        "u2": (True, [65535, 40000, 30000, 1, 2, 65534], np.uint16),
        "i2": (True, [32767, 20000, 30000, 1, 2, 7], np.int16),
        "u4": (True, [2**32 - 1, 2**31, 5, 2**32 - 2, 7, 8], np.uint32),
        "i4": (True, [2**31 - 1, 2**30, 2**30, 3, 4, 5], np.int32),
        "u8": (True, [2**50, 3, 2**40, 9, 1, 2], np.uint64),
        "tiny": (True, [1e-9, 1e-300, 0.25, 3e-12, 1e12, 2.0], float),
        "bool": (True, [1], bool),
        "f32": (True, [0.5, 1.25, 3.5, 7.0625, 9.25, 0.75], np.float32),
    }[name]


def make(back, cls, n, cells, kind="int", wname="unw", gmap=None, **tkw):
    directed, labelled = gr.CLASSES[cls]
    weighted, ws, dt = weight_scheme(wname)
    ids = gr.IDS[kind][:n]
    labels = gr.LABELS[kind] if labelled else None
    groups = None
    if gmap is not None:
        groups = {ids[i]: gr.GROUPS[kind][gmap[i]] for i in range(n)}
    rows = edge_rows(cells, ids, labels, ws)
    ref = gr.Ref(ids, rows, weighted, groups, directed, labelled)
    v, e, kw = gr.tables(pd, ids, rows, weighted, groups, labelled, wdtype=dt,
                         kind=kind, **tkw)
    return ref, v, e, kw


def gmaps(n, full=False):
    """Every assignment of n vertices to groups, up to which group ids exist."""
    out = []
    for m in itertools.product(range(min(n, 3)), repeat=n):
        used = sorted(set(m))
        if used == list(range(len(used))):
            out.append(m)
    return out


def subsets(items, kmin, kmax):
    for k in range(kmin, kmax + 1):
        yield from itertools.combinations(items, k)


def cells_all(n, L):
    return [(l, s, d) for l in range(L) for s in range(n) for d in range(n)]


LADDER_N = (4, 7, 9, 16, 17, 33, 65, 130)


def big_cells(n, L):
    """about four links per vertex, some loops, isolated vertices, both ways"""
    out = []
    for i in range(n):
        if i % 9 == 5:
            continue
        for k, d in enumerate((1, 3, n - 1, 0)):
            j = (i * (k + 1) + d) % n
            if j % 9 != 5 and (k < 3 or i % 4 == 0):
                out.append(((i + k) % L, i, j))
    return out


def big(cls, n, L, weighted):
    """tables of a larger graph; labels past the vertices when there are many"""
    directed, labelled = gr.CLASSES[cls]
    ids = [3 * i - n for i in range(n)][::-1]
    cells = big_cells(n, L)
    rows = [(ids[s], ids[d], 100 - l if labelled else None, 0.5 + (1.37 * k) % 9)
            for k, (l, s, d) in enumerate(cells)]
    groups = {x: (x * x) % (3 + n // 4) for x in ids}
    ref = gr.Ref(ids, rows, weighted, groups, directed, labelled)
    v, e, kw = gr.tables(pd, ids, rows, weighted, groups, labelled)
    return ref, v, e, kw


def ladder(ctx):
    """(class, backend, n, labels, weighted) over a ladder of sizes"""
    for cls, (directed, labelled) in gr.CLASSES.items():
        for n in LADDER_N:
            for L in ((2, 5) if n > 4 else (12,)) if labelled else (1,):
                for back in BACK:
                    for weighted in (False, True):
                        if ctx.take(f"{back}.{cls}.{n}.{L}.{weighted}", group=back + cls):
                            yield cls, back, n, L, weighted
