"""C09 Unweighted sampling draws every graph with its ensemble probability."""
import itertools

import numpy as np

from mc import modelkit as mk
from mc.checks import sampling as sm
from mc.checks import sizes
from mc.checks.c07 import MX, MY, VX, VY, mask_vec


def specs(ctx):
    # every on/off pattern of the fitnesses on two vertices, three in part
    for n in (1, 2, 3):
        for loops in (False, True):
            for p in (0.0, 0.3, 1.0):
                if n == 3 and loops and p == 0.3 and not ctx.thorough:
                    continue
                yield mk.Spec("random", n, param=p, loops=loops)
            for kind in ("fitness", "invariant"):
                for bx in itertools.product((0, 1), repeat=n):
                    for by in itertools.product((0, 1), repeat=n):
                        if n == 3 and not ctx.thorough:
                            if sum(bx) + sum(by) < 5 or (loops and sum(bx) + sum(by) == 6):
                                continue
                        for d in (0.0, 0.7, mk.INF) if n < 3 else (0.7,):
                            yield mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, by), d, loops)
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]
    for n, L in shapes:
        c = n * L
        one = np.ones((n, L), int)
        pats = [one] + [one - (np.arange(c).reshape(n, L) == k) for k in range(c)]
        if c <= 2:
            pats = [np.array(b).reshape(n, L) for b in itertools.product((0, 1), repeat=c)]
        for loops in (False, True):
            if c > 4 and loops:
                pats = [one * 0 + np.eye(n, L, dtype=int)]
            for kind in mk.MULTI:
                for bx in pats:
                    for by in pats:
                        if c > 2 and not ctx.thorough and not (bx is pats[0] or by is pats[0]):
                            continue
                        if c == 4 and loops and bx.sum() + by.sum() > 7 and not ctx.thorough:
                            continue
                        for d in (0.6, [0.3, 1.8, 0.9][:L], [mk.INF, 0.0, 1.1][:L]):
                            if L == 1 and np.ndim(d):
                                continue
                            yield mk.Spec(kind, n, MX[:n, :L] * bx, MY[:n, :L] * by, d, loops, L)


def exact_distribution(ctx):
    seen = set()
    for s in specs(ctx):
        if s.key() in seen:
            continue
        seen.add(s.key())
        for back in mk.BACKS:
            if not ctx.take(back + "." + s.key()):
                continue
            with ctx.guard("sample"):
                got = sm.distribution(ctx, lambda: s.build(back), s)
                sm.compare(ctx, "sampling probability", got, sm.exact(s), spec=s.key())
                ctx.state(s.kind, sorted(got.items()))
                ctx.sample({"backend": back, "model": s.key(), "graphs": len(got)})


def base(loops):
    yield mk.Spec("random", 2, param=0.3, loops=loops)
    for k in ("fitness", "invariant"):
        yield mk.Spec(k, 2, VX[:2], VY[:2], 0.6, loops)
    for k in mk.MULTI:
        yield mk.Spec(k, 2, MX[:2, :2], MY[:2, :2], [0.3, 1.8], loops, 2)


def override(ctx):
    """the self-loop setting given with the call decides for that call"""
    for own in (False, True):
        for s in base(own):
            for arg in (None, False, True, np.False_, np.True_, 0, 1):
                if arg is not None and not isinstance(arg, bool) and s.multi and bool(arg) != own:
                    continue
                for back in mk.BACKS:
                    if not ctx.take(f"{back}.{s.key()}.{arg}"):
                        continue
                    with ctx.guard("sample"):
                        got = sm.distribution(ctx, lambda: s.build(back), s, selfloops=arg)
                        sm.compare(ctx, "sampling probability with selfloops=%s" % arg, got,
                                   sm.exact(s, arg), spec=s.key())


def repeated(ctx):
    """a second sample of the same object is independent of the first"""
    for own in (False, True):
        for s in base(own):
            if own and s.multi and not ctx.thorough:
                continue
            for back in mk.BACKS:
                if not ctx.take(f"{back}.{s.key()}"):
                    continue
                with ctx.guard("sample"):
                    def make():
                        m = s.build(back)
                        m.expected_num_edges()
                        m.expected_degree()
                        sc = sm.Source(lambda n: 0)
                        with sc:
                            m.sample()
                        return m

                    got = sm.distribution(ctx, make, s)
                    sm.compare(ctx, "sampling probability after another sample", got,
                               sm.exact(s), spec=s.key())


def blocks(ctx):
    """Spark models split into blocks: exact law for every pair of blocks

    With at most three pairs of positive probability the whole distribution is
    explored, with those pairs placed in every block.
    """
    for n in (20, 23, 31):
        pos = [(0, 1), (0, n - 1), (n - 1, 0), (n // 2, n // 2), (n // 2 - 1, n // 2),
               (n // 2, n // 2 - 1), (9, 10), (10, 9)]
        for i, j in pos:
            for loops in (False, True):
                for kind in ("fitness", "invariant"):
                    if not ctx.take(f"{n}.{i}.{j}.{loops}.{kind}"):
                        continue
                    with ctx.guard("sample"):
                        x, y = np.zeros(n), np.zeros(n)
                        x[i], y[j] = 0.7, 1.3
                        if (i + 3) % n != j:
                            x[(i + 3) % n] = 0.4
                        s = mk.Spec(kind, n, x, y, 0.9, loops)
                        want = sm.exact(s)
                        for pb in (2, 3):
                            got = sm.distribution(
                                ctx, lambda: s.build("spark", p_blocks=pb), s)
                            sm.compare(ctx, "sampling probability", got, want,
                                       n=n, link=(i, j), p_blocks=pb)


def certain(ctx):
    """links of probability zero or one, on every backend, compiled code too"""
    for n in (1, 2, 3):
        for loops in (False, True):
            lst = [mk.Spec("random", n, param=p, loops=loops) for p in (0.0, 1.0)]
            for kind in ("fitness", "invariant"):
                for bx in itertools.product((0, 1), repeat=n):
                    lst.append(mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, bx[::-1]),
                                       mk.INF, loops))
                    lst.append(mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, bx), 0.0, loops))
            for kind in mk.MULTI:
                for d in ([mk.INF, 0.0], [0.0, mk.INF], [mk.INF, mk.INF]):
                    b = np.arange(2 * n).reshape(n, 2) % 3 != 1
                    lst.append(mk.Spec(kind, n, MX[:n, :2] * b, MY[:n, :2] * (1 - (
                        np.arange(2 * n).reshape(n, 2) == 1)), d, loops, 2))
            for s in lst:
                for back in mk.BACKS:
                    if not ctx.take(f"{back}.{s.key()}", group=back + s.kind + str(loops)):
                        continue
                    with ctx.guard("sample"):
                        m = s.build(back)
                        want = s.pl()
                        for _ in range(2):
                            ctx.run()
                            ok, g = ctx.call("sample", m.sample)
                            if ok:
                                b, _w = sm.read_links(g, s)
                                if not (b == (want > 0.5)).all():
                                    ctx.fail("certain links", got=b.astype(int), want=want,
                                             spec=s.key())
                        ctx.state(s.key())


def support(ctx):
    """compiled code: only possible links, whatever the generator's state"""
    for own in (False, True):
        for s in base(own):
            for arg in (None, False, True):
                for back in mk.BACKS:
                    if not ctx.take(f"{back}.{s.key()}.{arg}", group=back + s.kind):
                        continue
                    with ctx.guard("sample"):
                        m = s.build(back)
                        al = s.allowed(arg)
                        hit = np.zeros((s.L, 2, 2), int)
                        for _ in range(60):
                            ctx.run()
                            ok, g = ctx.call("sample", m.sample, selfloops=arg)
                            if not ok:
                                break
                            b, _w = sm.read_links(g, s)
                            if (b & ~al[None]).any():
                                ctx.fail("disallowed self-loop sampled", arg=arg, spec=s.key())
                            hit += b


NS = (4, 5, 7, 11, 12, 20, 23)
NLS = ((4, 2), (3, 5), (5, 3), (2, 9), (11, 2), (12, 3))


def ladder(ctx):
    """larger models: every outcome but at most one alike"""
    for back, s, key in sizes.models(ctx, NS, NLS):
        with ctx.guard("sample"):
            most = 400 if ctx.thorough else 60 if s.n < 20 else 24
            sm.deviations(ctx, lambda: s.build(back), s, "sampling probability", most=most)


def ladder_certain(ctx):
    """compiled code, larger models: pairs of probability zero or one"""
    for gen, arg in ((sizes.single, sizes.LARGE_N[::2]), (sizes.multi, sizes.LARGE_NL)):
        for s in gen(ctx, arg):
            if s.kind == "random":
                s.param = 1.0
            else:
                s.param = mk.INF if not s.multi else [(0.0, mk.INF)[l % 3 != 1] for l in range(s.L)]
            for back in mk.BACKS:
                if not ctx.take(f"{back}.{s.kind}.{s.n}.{s.L}.{s.loops}", group=back + s.kind):
                    continue
                with ctx.guard("sample"):
                    ctx.run()
                    ok, g = ctx.call("sample", s.build(back).sample)
                    if ok:
                        b, _ = sm.read_links(g, s)
                        if not (b == (s.pl() > 0.5)).all():
                            ctx.fail("certain links of a larger model", n=s.n, L=s.L,
                                     got=int(b.sum()), want=float(s.pl().sum()))


SECTIONS = [
    ("exact_distribution", exact_distribution, ("interp",)),
    ("override", override, ("interp",)),
    ("repeated", repeated, ("interp",)),
    ("blocks", blocks, ("interp",)),
    ("certain", certain, ("interp", "jit")),
    ("support", support, ("jit",)),
    ("ladder", ladder, ("interp",)),
    ("ladder_certain", ladder_certain, ("jit",)),
]
