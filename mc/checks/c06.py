"""C06 Link probabilities follow the model law for every parameter and fitness.

A model with one vertex and self-loops has exactly one possible link, and a
model with two vertices and fitnesses on one side only has one too, so the
expected number of edges is the link probability itself and the likelihoods of
the two graphs are its logarithm and that of its complement.
"""
import itertools
import math

import numpy as np

from mc import modelkit as mk

GRID = [0.0, 1e-150, 1e-20, 1e-9, 1e-3, 0.5, 1.0, 3.0, 40.0, 1e3, 1e9, 1e17, 1e150]
DGRID = GRID + [mk.INF]
SMALL = [0.0, 1e-17, 1e-4, 0.7, 1.0, 2.0, 30.0, 1e3, 1e17]


def plain(*v):
    """no partial product of these leaves the double range"""
    v = [a for a in v if a != 0 and not math.isinf(a)]
    for r in range(1, len(v) + 1):
        for c in itertools.combinations(v, r):
            s = sum(math.log10(a) for a in c)
            if abs(s) > 290:
                return False
    return True


def rel(got, want, tol=1e-9, atol=1e-300):
    try:
        got = float(got)
    except Exception:
        return False
    if math.isnan(got) or math.isinf(got) or math.isinf(want):
        return got == want
    return abs(got - want) <= tol * abs(want) + atol


def place(s, n):
    """the same pair as the only possible link 0 -> 1 of two vertices"""
    if n == 1:
        return s
    z = np.zeros_like(s.x)
    return mk.Spec(s.kind, 2, np.concatenate([s.x, z]), np.concatenate([z, s.y]),
                   s.param, s.loops, s.L)


def observe(ctx, back, s, exact):
    """p, log p, log(1-p) of the one possible link, from the public methods"""
    m = s.build(back)
    ctx.run()
    i, j = (0, 0) if s.n == 1 else (0, 1)
    P, Q, lp, lq = (a[:, i, j] for a in s.tab())
    agg = float(s.agg(True)[0][i, j])
    if s.kind == "random" and s.n == 2:
        raise AssertionError
    ok, p = ctx.call("link probability", m.expected_num_edges)
    if ok:
        p = float(p)
        if not (0 <= p <= 1):
            ctx.fail("link probability outside [0,1]", got=p, spec=s.key())
        elif exact and not rel(p, agg):
            ctx.fail("link probability", got=p, want=agg, spec=s.key())
        elif not exact and abs(p - agg) > 1e-12:
            ctx.fail("link probability", got=p, want=agg, spec=s.key())
    if s.multi:
        ok2, pl = ctx.call("link probability per label", m.expected_num_edges_label)
        if ok2:
            pl = np.asarray(pl, float)
            if pl.shape != (s.L,) or not all(
                    rel(a, b) if exact else abs(a - b) <= 1e-12 for a, b in zip(pl, P)):
                ctx.fail("link probability per label", got=pl, want=P, spec=s.key())
    if not exact:
        return p if ok else None
    sh = (s.n, s.n)
    for a in (0, 1):
        A = np.zeros(sh, int)
        A[i, j] = a
        if s.L == 1:
            want = float(lp[0] if a else lq[0])
        elif a:
            want = -mk.INF if agg == 0 else log_any(lq)
        else:
            want = float(lq.sum())
        ok3, got = ctx.call("log of the link probability" if a else "log of its complement",
                            m.log_likelihood, A)
        if ok3 and not rel(got, want, 1e-8, 1e-14 if a else 1e-300):
            ctx.fail("log of the link probability" if a else "log of its complement",
                     got=got, want=want, spec=s.key())
    if s.multi:
        for bits in itertools.product((0, 1), repeat=s.L):
            A = np.zeros((s.L,) + sh, int)
            A[:, i, j] = bits
            terms = [float(lp[l] if b else lq[l]) for l, b in enumerate(bits)]
            want = -mk.INF if any(math.isinf(t) for t in terms) else math.fsum(terms)
            ok3, got = ctx.call("log of the probability per label", m.log_likelihood, A)
            if ok3 and not rel(got, want, 1e-8, 1e-14 if any(bits) else 1e-300):
                ctx.fail("log of the probability per label", bits=bits, got=got, want=want,
                         spec=s.key())
    ctx.state(s.kind, agg, P)
    return p if ok else None


def log_any(lq):
    """log(1 - exp(sum lq)) without loss"""
    v = float(lq.sum())
    if v == -mk.INF:
        return 0.0
    return math.log(-math.expm1(v)) if v > -1 else math.log1p(-math.exp(v))


def single(ctx):
    for kind in ("fitness", "invariant"):
        for back in mk.BACKS:
            for n in (1, 2):
                for x, y in itertools.product(GRID, repeat=2):
                    if ctx.jit and not (x in SMALL or y in SMALL or x == y):
                        continue
                    if n == 2 and not ctx.thorough and x != y and x * y != 0 and 1 not in (x, y):
                        continue
                    if not ctx.take(f"{back}.{kind}.{n}.{x}.{y}", group=back + kind):
                        continue
                    with ctx.guard("model"):
                        last = -1.0
                        for d in DGRID:
                            s = place(mk.Spec(kind, 1, [x], [y], d, True), n)
                            p = observe(ctx, back, s, plain(d, x, y))
                            if p is not None:
                                if p < last * (1 - 1e-15):
                                    ctx.fail("probability decreases with the parameter",
                                             x=x, y=y, d=d, p=p, before=last)
                                last = p
                        ctx.sample({"backend": back, "kind": kind, "x": x, "y": y,
                                    "p_at_infinite_parameter": last})


def monotone(ctx):
    """never decreasing in either fitness, at every parameter"""
    for kind in ("fitness", "invariant"):
        for back in mk.BACKS:
            for d in DGRID:
                for b in GRID:
                    if not ctx.take(f"{back}.{kind}.{d}.{b}", group=back + kind):
                        continue
                    with ctx.guard("model"):
                        for side in (0, 1):
                            last = -1.0
                            for a in GRID:
                                x, y = (a, b) if side == 0 else (b, a)
                                m = mk.Spec(kind, 1, [x], [y], d, True).build(back)
                                ctx.run()
                                ok, p = ctx.call("link probability", m.expected_num_edges)
                                if not ok:
                                    break
                                if not 0 <= p <= 1:
                                    ctx.fail("link probability outside [0,1]", got=p, x=x, y=y, d=d)
                                if p < last * (1 - 1e-15):
                                    ctx.fail("probability decreases with a fitness",
                                             x=x, y=y, d=d, p=float(p), before=last)
                                last = float(p)


def random_model(ctx):
    ps = [0.0, 1e-300, 1e-20, 1e-9, 0.1, 0.5, 0.75, 1 - 1e-9, 1.0]
    for back in mk.BACKS:
        for p in ps:
            if not ctx.take(f"{back}.{p}", group=back):
                continue
            with ctx.guard("model"):
                observe(ctx, back, mk.Spec("random", 1, param=p, loops=True), True)
                if 1 + p > 1:  # no parameter gives a probability outside [0, 1]
                    ctx.raises("probability larger than one", mk.build, back, "random",
                               num_vertices=2, param=1 + p)
                for n in (2, 3):
                    m = mk.Spec("random", n, param=p).build(back)
                    ctx.run()
                    ok, e = ctx.call("expected_num_edges", m.expected_num_edges)
                    if ok:
                        ctx.same("expected_num_edges", e, p * n * (n - 1), 1e-12, 0)


def multi(ctx):
    """all combinations of layer magnitudes, by parameter and by fitness"""
    g2 = SMALL + [mk.INF]
    g3 = [0.0, 1e-17, 0.7, 1e17, mk.INF] if not ctx.thorough else g2
    for kind in mk.MULTI:
        for back in mk.BACKS:
            for L, g in ((1, g2), (2, g2), (3, g3)):
                if ctx.jit:
                    if L == 3:
                        continue
                    g = [0.0, 1e-17, 0.7, 1e17, mk.INF]
                for ds in itertools.product(g, repeat=L):
                    for n in (1, 2):
                        if n == 2 and L == 3 and not ctx.thorough:
                            continue
                        if not ctx.take(f"{back}.{kind}.d{ds}.{n}", group=back + kind):
                            continue
                        with ctx.guard("model"):
                            x = np.array([[1.0, 0.5, 2.0][:L]])
                            y = np.array([[1.0, 3.0, 0.25][:L]])
                            p1 = list(ds) if L > 1 else ds[0]
                            observe(ctx, back, place(mk.Spec(kind, 1, x, y, p1, True, L), n), True)
                            ctx.sample({"backend": back, "kind": kind, "parameters": ds})
                gf = [a for a in g if not math.isinf(a)]
                if L == 3:
                    gf = [0.0, 1e-17, 0.7, 1e17]
                for xs in itertools.product(gf, repeat=L):
                    for d in (0.0, 1e-9, 0.8, 1.0, 1e3, mk.INF):
                        for side in (0, 1):
                            if not ctx.take(f"{back}.{kind}.x{xs}.{d}.{side}", group=back + kind):
                                continue
                            with ctx.guard("model"):
                                a = np.array([xs])
                                b = np.array([[1.0, 0.5, 2.0][:L]])
                                x, y = (a, b) if side == 0 else (b, a)
                                if not all(plain(d, u, v) for u, v in zip(x[0], y[0])):
                                    continue
                                observe(ctx, back, mk.Spec(kind, 1, x, y, d, True, L), True)


def integers(ctx):
    """integer fitnesses and parameters of any size"""
    vals = [0, 1, 3, 2**20, 2**31, 2**40]
    for kind in ("fitness", "invariant", "mfitness", "minvariant"):
        for back in mk.BACKS:
            for dt in (np.int64, np.int32, np.uint8, np.float32):
                for x, y in itertools.product(vals, repeat=2):
                    if dt != np.float32 and max(x, y) > np.iinfo(dt).max:
                        continue
                    for d in (0, 1, 5):
                        for pdt in (np.int64, np.float64, np.float32):
                            if not ctx.take(f"{back}.{kind}.{np.dtype(dt)}.{x}.{y}.{d}.{np.dtype(pdt)}",
                                            group=f"{back}{kind}{np.dtype(dt)}{np.dtype(pdt)}"):
                                continue
                            if ctx.jit and (pdt != np.int64 or (x, y, d) not in (
                                    (3, 1, 5), (2**31, 2**40, 5), (2**20, 2**20, 1))):
                                continue
                            with ctx.guard("model"):
                                ctx.run()
                                if kind in mk.MULTI:
                                    s = mk.Spec(kind, 1, [[x]], [[y]], float(d), True, 1)
                                else:
                                    s = mk.Spec(kind, 1, [x], [y], float(d), True)
                                kw = s.kwargs(dtype=dt)
                                kw["param"] = np.array([d], dtype=pdt)
                                m = mk.build(back, kind, **kw)
                                ok, p = ctx.call("link probability", m.expected_num_edges)
                                want = float(s.agg(True)[0][0, 0])
                                if ok and not rel(p, want, 1e-5 if np.float32 in (dt, pdt) else 1e-9):
                                    ctx.fail("link probability of %s" % np.dtype(dt), got=float(p),
                                             want=want, spec=s.key())


def laws(ctx):
    """the law functions the classes offer, asked directly"""
    import inspect

    vals = [0.0, 1e-9, 0.5, 1.0, 3.0, 40.0, 1e9]
    for kind in mk.KINDS:
        for back in mk.BACKS:
            cls = mk.model_class(back, kind)
            names = (("p_ijk", "logp_ijk", "log1mp_ijk") if kind in mk.MULTI
                     else ("p_ij", "logp", "log1mp"))
            for pos, name in enumerate(names):
                f = getattr(cls, name, None)
                f = getattr(f, "py_func", f)
                try:
                    if len(inspect.signature(f).parameters) != 4:
                        continue
                except (TypeError, ValueError):
                    continue
                for d in ([1e-20, 0.1, 0.5, 0.75] if kind == "random" else vals + [mk.INF]):
                    if not ctx.take(f"{back}.{kind}.{name}.{d}", group=back + kind):
                        continue
                    for x, y in itertools.product(vals, repeat=2):
                        ctx.run()
                        if kind == "random":
                            want = (d, math.log(d), math.log1p(-d))[pos]
                            par = np.array([d, 0.3])
                        else:
                            t = 0.0 if 0 in (d, x, y) else d * x * y
                            p, q, lp, lq = mk.LAW[kind[1:] if kind in mk.MULTI else kind](t)
                            want = (p, lp, lq)[pos]
                            par = d if kind in mk.MULTI else np.array([d])
                        try:
                            got = f(par, x, y, 1.0)
                        except (TypeError, IndexError):  # another calling convention
                            continue
                        if not rel(np.ravel(got)[0], want, 1e-8, 1e-14):
                            ctx.fail(name, got=got, want=want, d=d, x=x, y=y)


SECTIONS = [
    ("laws", laws, ("interp",)),
    ("single", single, ("interp", "jit")),
    ("monotone", monotone, ("interp",)),
    ("random_model", random_model, ("interp", "jit")),
    ("multi", multi, ("interp", "jit")),
    ("integers", integers, ("interp", "jit")),
]
