"""Deterministic instances over a ladder of sizes.

The exhaustive sections explore every pattern of small instances.  These walk
the number of vertices and of labels, past the widths of the index types and
past any number of rows that fits one block, with every value different.
"""
import numpy as np

from mc import modelkit as mk


def values(n, k, gap=11):
    """n fitnesses, different from each other, some of them zero"""
    i = np.arange(n)
    v = 0.15 + ((i * (2 * k + 3) + k) % 13) * 0.3 + 0.001 * i
    if n > 3:
        v[(5 * i + k) % gap == 3] = 0.0
    return v


def table(n, L, k):
    return np.array([values(n, k + 2 * l, 7 + l % 4) for l in range(L)]).T.copy()


SMALL_N = (4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 24, 31, 32, 33)
LARGE_N = (48, 64, 65, 100, 128, 129, 200, 256, 257, 300)
SMALL_NL = ((4, 2), (4, 5), (5, 3), (6, 4), (9, 2), (3, 9), (2, 17), (2, 33), (12, 3), (17, 2))
LARGE_NL = ((64, 2), (65, 3), (130, 2), (3, 130), (2, 257), (2, 300), (257, 1))


def single(ctx, ns=None):
    for n in ns or (LARGE_N if ctx.jit else SMALL_N):
        for loops in (False, True):
            yield mk.Spec("random", n, param=0.2 + 0.001 * n, loops=loops)
            for kind in ("fitness", "invariant"):
                yield mk.Spec(kind, n, values(n, 1), values(n, 4, 13), 2.0 / n, loops)


def multi(ctx, nls=None):
    for k, (n, L) in enumerate(nls or (LARGE_NL if ctx.jit else SMALL_NL)):
        for loops in (False, True):
            for kind in mk.MULTI:
                one = (k + loops + (kind == "mfitness")) % 2
                d = 1.5 / n if one or L == 1 else [(0.5 + (l % 5) * 0.4) / n for l in range(L)]
                yield mk.Spec(kind, n, table(n, L, 1), table(n, L, 4), d, loops, L)


def models(ctx, ns=None, nls=None):
    for gen, arg in ((single, ns), (multi, nls)):
        for s in gen(ctx, arg):
            for back in mk.BACKS:
                key = f"{back}.{s.kind}.n{s.n}.L{s.L}.{int(s.loops)}.{np.ndim(s.param)}"
                if ctx.take(key, group=back + s.kind):
                    yield back, s, key


def graphs(s):
    """three graphs the model can produce: none, some, all of the links"""
    p, q = s.tab()[0], s.tab()[1]
    can = (p > 0) & s.allowed()[None]
    must = (q <= 0) & can
    k = np.arange(can.size).reshape(can.shape)
    yield "none", must.astype(int)
    yield "some", (must | (can & ((k * 7 + 3) % 5 < 2))).astype(int)
    yield "all", can.astype(int)
