"""C16 Spark results do not depend on blocks, partitions or task schedule.

The cluster is replaced by mc.fakespark, whose partition layout, task order,
merge order, retries and closure shipping are enumerated; the functions run by
the tasks are the repository's own.  The worker of mode ``spark`` replays part
of the same cases on a real local Spark.
"""
import itertools
import math

import numpy as np

from mc import modelkit as mk
from mc.checks import sampling as sm
from mc.core import close
from mc.fakespark import Policy
from mc.rngctl import Source

THR = np.array([0.0, 0.05, 0.3, 0.62, 1.0])


def spec(kind, n, loops):
    """every vertex and label has its own fitness, some of them zero"""
    i = np.arange(n)
    if kind == "random":
        return mk.Spec("random", n, param=0.35, loops=loops)
    if kind in mk.MULTI:
        L = 3
        c = i[:, None] * L + np.arange(L)
        X = 0.1 + ((c * 7) % 11) / 9.0 + c * 1e-3
        Y = 0.2 + ((c * 5) % 13) / 11.0 + c * 1.3e-3
        X[(c % 4) == 1] = 0
        Y[(c % 5) == 3] = 0
        return mk.Spec(kind, n, X, Y, [0.1, 0.04, 0.3], loops, L)
    x = 0.1 + ((i * 7) % 11) / 9.0 + i * 1e-3
    y = 0.2 + ((i * 5) % 13) / 11.0 + i * 1.3e-3
    x[(i % 6) == 4] = 0
    y[(i % 7) == 5] = 0
    return mk.Spec(kind, n, x, y, 0.3, loops)


def graph_for(s):
    """an observed graph with links of positive probability everywhere"""
    n = s.n
    i, j = np.indices((n, n))
    A = ((i * 3 + j * 5 + i * j) % 4 == 0) & (s.agg()[0] > 0)
    return A.astype(int)


def confusion(s, A, thr, loops):
    P = s.agg(True)[0]
    m = s.allowed(loops)
    r = []
    for pos, obs in ((1, 1), (1, 0), (0, 0), (0, 1)):
        r.append([int((m & ((P >= t) == pos) & ((A != 0) == obs)).sum()) for t in thr])
    return [np.array(v) for v in r]


def safe_thresholds(s, thr):
    """thresholds that are not within rounding of a link probability"""
    P = np.unique(s.agg(True)[0])
    return np.array([t for t in thr if t in (0.0,) or not np.any(np.abs(P - t) < 1e-9)])


def strengths(s):
    n = s.n
    i = np.arange(n)
    if s.multi:
        a = 1.0 + ((i[:, None] * 3 + np.arange(s.L)) % 5)
        b = 1.0 + ((i[:, None] * 2 + np.arange(s.L)) % 7)
        b = b * (a.sum(0) / b.sum(0))
        return dict(out_strength_label=a, in_strength_label=b)
    a = 1.0 + (i * 3) % 5
    b = 1.0 + (i * 2) % 7
    return dict(out_strength=a, in_strength=b * (a.sum() / b.sum()))


def expected(s):
    """reference values of everything that is observed"""
    A = graph_for(s)
    prop = np.cos(np.arange(s.n)) + 2
    thr = safe_thresholds(s, THR)
    r = dict(A=A, prop=prop, thr=thr)
    r["num"] = s.exp_edges()
    r["deg"] = {d: s.exp_deg(d) for d in ("out", "in", "out-in")}
    r["nn"] = {d: s.exp_av_nn(prop, d, s.loops) for d in ("out", "in", "out-in")}
    r["like"] = s.loglik(A)
    r["conf"] = confusion(s, A, thr, s.loops)
    if s.multi:
        r["numl"] = s.exp_edges_label()
        r["degl"] = {d: s.exp_deg_label(d) for d in ("out", "in", "out-in")}
        T = np.array([((np.indices((s.n, s.n)).sum(0) + l) % 3 == 0) & (s.pl()[l] > 0)
                      for l in range(s.L)]).astype(int)
        r["T"] = T
        r["likel"] = s.loglik(T)
    return r


def sp_list(T):
    import scipy.sparse as sp

    return [sp.csr_array(t) for t in T]


def observe(ctx, m, s, w, parts, where):
    """every quantity in ``parts`` of model m against the reference w"""
    def chk(what, got, want, **k):
        return ctx.same(what, got, want, 1e-9, 1e-12, **where, **k)

    def ask(what, name, *a, **k):
        return ctx.call(what, getattr(m, name), *a, **k)

    if "edges" in parts:
        ok, v = ask("expected_num_edges", "expected_num_edges")
        ok and chk("expected_num_edges", v, w["num"])
    if "degree" in parts:
        for d, name in (("out-in", "expected_degree"), ("out", "expected_out_degree"),
                        ("in", "expected_in_degree")):
            ok, v = ask(name, name)
            ok and chk(name, v, w["deg"][d])
    if "nn" in parts:
        for d in ("out", "in", "out-in"):
            ok, v = ask("expected_av_nn_property", "expected_av_nn_property", w["prop"], ndir=d,
                        selfloops=None)
            ok and chk("expected_av_nn_property", v, w["nn"][d], ndir=d)
    if "like" in parts:
        ok, v = ask("log_likelihood", "log_likelihood", w["A"])
        ok and chk("log_likelihood", v, w["like"])
    if "conf" in parts:
        ok, v = ask("confusion_matrix", "confusion_matrix", w["A"], thresholds=w["thr"])
        if ok:
            for nm, a, b in zip(("tp", "fp", "tn", "fn"), v, w["conf"]):
                chk("confusion_matrix " + nm, a, b)
    if s.multi and "label" in parts:
        ok, v = ask("expected_num_edges_label", "expected_num_edges_label")
        ok and chk("expected_num_edges_label", v, w["numl"])
        for d, name in (("out-in", "expected_degree_by_label"), ("out", "expected_out_degree_by_label"),
                        ("in", "expected_in_degree_by_label")):
            ok, v = ask(name, name)
            ok and chk(name, v, w["degl"][d])
        ok, v = ask("log_likelihood of layers", "log_likelihood", sp_list(w["T"]))
        ok and chk("log_likelihood of layers", v, w["likel"])
    if "sample" in parts:
        for script, what in ((lambda k: 0, "every"), (lambda k: k - 1, "no")):
            with Source(script):
                ok, g = ask("sample", "sample")
            if ok:
                b, wt = sm.read_links(g, s)
                want = (s.pl() > 0) if what == "every" else (s.pl() >= 1)
                if not np.array_equal(b, want):
                    bad = np.argwhere(b != want)
                    ctx.fail("pairs drawn in a sample (%s link)" % what, wrong=bad[:6].tolist(),
                             count=len(bad), **where)
                elif not np.array_equal(wt, want.astype(float)):
                    ctx.fail("pairs drawn more than once in a sample", **where)
    if "cremb" in parts and s.kind != "random":
        kw = strengths(s)
        with Source(lambda k: 0, lambda n: 1.0) as src:
            ok, g = ask("weighted sample", "sample", weights="cremb", **kw)
        if ok:
            a, b = (kw["out_strength_label"].T, kw["in_strength_label"].T) if s.multi else (
                kw["out_strength"][None], kw["in_strength"][None])
            pl = s.pl()
            tot = a.sum(1)[:, None, None]
            with np.errstate(divide="ignore", invalid="ignore"):
                want = np.where(pl > 0, a[:, :, None] * b[:, None, :] / tot / pl, 0.0)
            _b, wt = sm.read_links(g, s)
            chk("mean weights of a sample", wt, want)


ALL = ("edges", "degree", "nn", "like", "conf", "label", "sample", "cremb")


def blocks(ctx):
    """every number of vertices and every number of blocks"""
    top = 90 if ctx.thorough else 45
    for n in range(1, top + 1):
        for pb in sorted(set(list(range(1, n // 10 + 3)) + [10])):
            for kind in mk.KINDS:
                for loops in (False, True):
                    if not ctx.take(f"{kind}.{n}.{pb}.{int(loops)}"):
                        continue
                    if n > 31 and loops and kind in mk.MULTI and not ctx.thorough:
                        continue
                    with ctx.guard("blocks"):
                        s = spec(kind, n, loops)
                        w = expected(s)
                        ctx.run()
                        m = s.build("spark", p_blocks=pb)
                        observe(ctx, m, s, w, ALL, dict(n=n, p_blocks=pb))
                        ctx.state(kind, n, m.p_blocks, w["num"])
                        ctx.sample({"model": kind, "vertices": n, "blocks": m.p_blocks,
                                    "expected edges": w["num"]})


def onepair(ctx):
    """a single pair that can be linked, in every position of the blocks"""
    for n in (11, 20, 23, 31):
        for i in range(n):
            for kind in ("fitness", "minvariant", "invariant", "mfitness"):
                if n > 23 and kind in ("invariant", "mfitness") and not ctx.thorough:
                    continue
                if not ctx.take(f"{kind}.{n}.{i}"):
                    continue
                with ctx.guard("pair"):
                    for j in range(n):
                        ctx.run()
                        x, y = np.zeros(n), np.zeros(n)
                        x[i], y[j] = 1.7, 0.9
                        if kind in mk.MULTI:
                            X, Y = np.zeros((n, 2)), np.zeros((n, 2))
                            X[:, 1], Y[:, 1] = x, y
                            s = mk.Spec(kind, n, X, Y, [0.3, 0.8], True, 2)
                        else:
                            s = mk.Spec(kind, n, x, y, 0.8, True)
                        p = s.law(s.L - 1, i, j)[0]
                        m = s.build("spark", p_blocks=3)
                        A = np.zeros((n, n), int)
                        A[i, j] = 1
                        e = [np.eye(n)[i] * p, np.eye(n)[j] * p]
                        u = np.maximum(*e) if i == j else e[0] + e[1]
                        where = dict(n=n, pair=(i, j))
                        ctx.same("expected_num_edges", m.expected_num_edges(), p, **where)
                        ctx.same("expected_degree", m.expected_degree(), u, **where)
                        ctx.same("expected_out_degree", m.expected_out_degree(), e[0], **where)
                        ctx.same("expected_in_degree", m.expected_in_degree(), e[1], **where)
                        ctx.same("log_likelihood", m.log_likelihood(A), math.log(p), **where)
                        if s.multi:
                            ctx.same("expected_degree_by_label", m.expected_degree_by_label(),
                                     np.stack([u * 0, u], axis=1), **where)
                        if (i + j) % 3 == 0 or i // 10 != j // 10:
                            got = {}
                            for c in (0, 1):
                                with Source(lambda k: c) as src:
                                    g = m.sample()
                                b, _w = sm.read_links(g, s)
                                key = tuple(map(tuple, np.argwhere(b).tolist()))
                                got[key] = got.get(key, 0) + src.weight
                            want = {((s.L - 1, i, j),): p, (): 1 - p}
                            if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-12 for k in got):
                                ctx.fail("distribution of samples", got=str(got), want=str(want), **where)
                        ctx.op(7)


class Sched(Policy):
    def __init__(self, parts=None, order=None, merge=None, retry=(), isolate=False):
        self.parts, self._o, self._m, self._r = parts, order, merge, retry
        self.isolate = isolate

    def partitions(self, n_items, n_slices):
        return self.parts or max(1, n_slices)

    @staticmethod
    def _perm(p, n):
        if p is None:
            return range(n)
        if p == "reverse":
            return range(n - 1, -1, -1)
        if isinstance(p, tuple) and len(p) == n:
            return p
        if isinstance(p, tuple) and p[0] == "rot":
            return [(i + p[1]) % n for i in range(n)]
        if isinstance(p, tuple) and p[0] == "swap":
            r = list(range(n))
            if p[1] + 1 < n:
                r[p[1]], r[p[1] + 1] = r[p[1] + 1], r[p[1]]
            return r
        # a permutation of fewer elements: the rest follows in order
        return [i for i in p if i < n] + [i for i in range(n) if i not in p]

    def order(self, n):
        return list(self._perm(self._o, n))

    def merge_order(self, n):
        return list(self._perm(self._m, n))

    def attempts(self, k):
        return 2 if k in self._r else 1


def schedules(top):
    """all schedules of up to four tasks; a covering set for nine"""
    for parts in range(1, 5):
        for o in itertools.permutations(range(parts)):
            yield Sched(parts, o, None)
            if o != tuple(range(parts)):
                yield Sched(parts, None, o)
                yield Sched(parts, o, o)
    for parts in (5, 6, 7, 12):
        yield Sched(parts)  # some partitions are empty
    for m in range(1, 16):
        yield Sched(4, None, None, tuple(k for k in range(4) if m >> k & 1))
    for k in range(9):
        yield Sched(None, ("rot", k), ("swap", k), (k,))
        yield Sched(None, None, ("rot", k), tuple(range(k)))
    yield Sched(None, "reverse", "reverse", tuple(range(9)))
    yield Sched(None, None, None, (), True)
    yield Sched(2, (1, 0), (1, 0), (0,), True)
    if top:
        for o in itertools.permutations(range(6)):
            yield Sched(None, o, o)
            yield Sched(6, None, o)


def schedule(ctx):
    for n, pb in ((7, 2), (23, 2), (31, 3)):
        for kind in mk.KINDS:
            for loops in (True, False):
                s = w = None
                for k, pol in enumerate(schedules(ctx.thorough)):
                    if n == 31 and k % 4 != 1 and not ctx.thorough and not pol.isolate:
                        continue
                    if loops is False and k % 5 and not pol.isolate:
                        continue
                    if not ctx.take(f"{kind}.{n}.{pb}.{int(loops)}.{k}"):
                        continue
                    with ctx.guard("schedule"):
                        if s is None:
                            s = spec(kind, n, loops)
                            w = expected(s)
                        ctx.run()
                        m = s.build("spark", sc=mk.context(pol), p_blocks=pb)
                        where = dict(n=n, p_blocks=pb, schedule=str(sorted(vars(pol).items())))
                        parts = ALL if (n == 7 or pol.isolate) else ALL[:7]
                        observe(ctx, m, s, w, parts, where)
                        # asked again: cached partitions must not have been changed
                        for name, v in (("expected_num_edges", w["num"]),
                                        ("expected_degree", w["deg"]["out-in"])):
                            ok, r = ctx.call(name, getattr(m, name), recompute=True)
                            ok and ctx.same(name + " recomputed", r, v, **where)
                        ctx.same("log_likelihood again", m.log_likelihood(w["A"]), w["like"], **where)
                        ctx.state(kind, n, k)


def fits(ctx):
    """the fitted parameter does not depend on blocks or schedule"""
    sizes = (2, 5, 9, 10, 12, 20, 21, 31, 43) if not ctx.thorough else range(2, 60)
    for n in sizes:
        for kind in mk.KINDS[1:]:
            for per in (False, True) if kind in mk.MULTI else (False,):
                for pb in sorted({1, 2, n // 10 + 1}):
                    for pi, pol in enumerate((None, Sched(3, (2, 0, 1), (1, 2, 0), (0, 2)),
                                              Sched(1), Sched(None, None, None, (), True))):
                        if pi and (n not in (9, 21) or pb != 2):
                            continue
                        if not ctx.take(f"{kind}.{n}.{int(per)}.{pb}.{pi}"):
                            continue
                        with ctx.guard("fit"):
                            s = spec(kind, n, False)
                            if not per and s.multi:
                                s.param = 0.2
                            ctx.run()
                            kw = s.kwargs()
                            par = kw.pop("param")
                            if s.multi:
                                kw["per_label"] = per
                            if per:
                                kw["num_edges_label"] = s.exp_edges_label()
                                if (s.exp_edges_label() == 0).any():
                                    continue
                            else:
                                kw["num_edges"] = s.exp_edges()
                            if s.exp_edges() == 0:
                                continue
                            m = mk.build("spark", kind, sc=mk.context(pol) if pol else None,
                                         p_blocks=pb, **kw)
                            ok, _ = ctx.call("fit", m.fit, atol=1e-13)
                            if ok:
                                got = np.asarray(m.param, float)
                                if not close(got, par * np.ones_like(got), 1e-6):
                                    ctx.fail("fitted parameter", got=got, want=par, n=n, p_blocks=pb)
                                ctx.same("expected_num_edges after fit", m.expected_num_edges(),
                                         s.exp_edges(), 1e-7, 1e-9)


def real(ctx):
    """the same models on a real local Spark (processes, pickling, shuffled tasks)"""
    from pyspark import SparkContext

    try:
        sc = SparkContext(master="local[2]")
        sc.setLogLevel("OFF")
    except Exception as err:  # no Spark here: nothing to say about the code
        ctx.inconclusive.append("real: Spark does not start (%s)" % str(err)[:200])
        return
    try:
        for n, pb in ((1, 2), (5, 2), (21, 2), (32, 3)):
            for kind in mk.KINDS:
                for loops in (False, True):
                    if not ctx.thorough and (loops != (n == 5) or n == 1
                                             or n == 32 and kind not in ("fitness", "minvariant")):
                        continue
                    if not ctx.take(f"{kind}.{n}.{int(loops)}"):
                        continue
                    with ctx.guard("real spark"):
                        s = spec(kind, n, loops)
                        w = expected(s)
                        ctx.run()
                        m = s.build("spark", sc=sc, p_blocks=pb)
                        observe(ctx, m, s, w, ALL[:6], dict(n=n, p_blocks=pb, spark="real"))
                        ok, g = ctx.call("sample", m.sample)
                        if ok:
                            b, _w = sm.read_links(g, s)
                            if (b & ~(s.pl() > 0)).any():
                                ctx.fail("impossible link sampled on a real cluster")
                        ctx.state(kind, n)
        if ctx.take("independent"):
            with ctx.guard("real spark"):
                s = mk.Spec("random", 80, param=0.5, loops=True)
                m = s.build("spark", sc=sc, p_blocks=8)
                seen = set()
                for k in range(3):
                    ctx.run()
                    ok, g = ctx.call("sample", m.sample)
                    if not ok:
                        break
                    A = sm.read_links(g, s)[0][0]
                    for a, b in itertools.product(range(8), repeat=2):
                        seen.add(A[a * 10:a * 10 + 10, b * 10:b * 10 + 10].tobytes())
                else:
                    if len(seen) != 3 * 64:
                        ctx.fail("blocks of samples repeat each other", distinct=len(seen), blocks=192)
        if ctx.take("fit"):
            for kind in ("fitness", "minvariant"):
                with ctx.guard("real spark"):
                    s = spec(kind, 21, False)
                    s.param = 0.2
                    kw = s.kwargs()
                    kw.pop("param")
                    ctx.run()
                    m = mk.build("spark", kind, sc=sc, num_edges=s.exp_edges(), **kw)
                    m.fit(atol=1e-13)
                    if not np.all(np.abs(np.asarray(m.param, float) - 0.2) < 1e-7):
                        ctx.fail("fitted parameter on a real cluster", got=m.param)
    finally:
        sc.stop()


SECTIONS = [
    ("blocks", blocks, ("interp",)),
    ("onepair", onepair, ("interp",)),
    ("schedule", schedule, ("interp",)),
    ("fits", fits, ("interp",)),
    ("real", real, ("spark",)),
]
