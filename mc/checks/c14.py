"""C14 Expected nearest-neighbour averages follow the link probabilities."""
import itertools

import numpy as np

from mc import modelkit as mk
from mc.checks import sizes
from mc.checks.c07 import VX, VY, MX, MY, mask_vec

PROPS = {
    "f": np.array([1.5, -2.0, 4.25, 0.5, 3.0]),
    "i": np.array([3, -1, 7, 2, 5]),
    "2d": np.array([[1.0, 2.0, 0.0], [3.0, -5.0, 1.0], [7.0, 11.0, 0.25],
                    [0.5, 2.5, 1.0], [2.0, 4.0, 9.0]]),
    "z": np.zeros(5),
    "fine": np.array([0.1, 1 / 3, 1.7, 0.123456789, 7e-5]),
    "3d": np.arange(30.0).reshape(5, 3, 2) ** 1.5 - 3,
}
NDIR = ("out", "in", "out-in")
LOOPS = (False, True, None, np.False_, np.True_, 0, 1)


def specs(ctx):
    for loops in (False, True):
        for n in (1, 2, 3, 5):
            for p in (0.0, 1e-18, 0.3, 1.0):
                yield mk.Spec("random", n, param=p, loops=loops)
    for n in (1, 2, 3):
        if ctx.jit and n == 3:
            continue
        for loops in (False, True):
            for bx in itertools.product((0, 1), repeat=n):
                for by in itertools.product((0, 1), repeat=n):
                    if ctx.jit and n == 2 and sum(bx) < 1:
                        continue
                    for kind in ("fitness", "invariant"):
                        for d in (0.7, 1e-18, mk.INF) if n < 3 else (0.7,):
                            yield mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, by), d, loops)
    for kind in ("fitness", "invariant"):
        for loops in (False, True):
            for d in (0.45, 1e-18, 1e30):
                yield mk.Spec(kind, 4, VX, VY, d, loops)
    shapes = [(1, 1), (1, 2), (2, 2), (3, 2), (3, 3)]
    for n, L in shapes:
        c = n * L
        if c <= (4 if ctx.thorough else 2):
            pats = [np.array(b).reshape(n, L) for b in itertools.product((0, 1), repeat=c)]
        else:
            one = np.ones((n, L), int)
            pats = [one] + [one - (np.arange(c).reshape(n, L) == k) for k in range(c)]
            pats += [np.arange(c).reshape(n, L) == k for k in range(0, c, 2)]
            # a vertex or a label without fitness
            for i in range(n):
                z = one.copy()
                z[i] = 0
                pats.append(z)
        if ctx.jit:
            pats = pats[-1:] + pats[:1]
        for k, bx in enumerate(pats):
            for by in pats if c <= 4 else (pats[0], pats[(k + 1) % len(pats)]):
                for loops in (False, True):
                    for kind in mk.MULTI:
                        for d in (0.6, [0.3, 1.7, 0.9][:L], 1e-18):
                            if np.ndim(d) and L == 1:
                                continue
                            yield mk.Spec(kind, n, MX[:n, :L] * bx, MY[:n, :L] * by, d, loops, L)


def models(ctx):
    for s in specs(ctx):
        for back in mk.BACKS:
            if not ctx.take(back + "." + s.key(), group=back + s.kind):
                continue
            with ctx.guard("expected_av_nn"):
                one(ctx, back, s)


def one(ctx, back, s):
    m = s.build(back)
    loops0 = m.selfloops
    for nd in NDIR:
        for sl in LOOPS if s.n == 2 else LOOPS[:3]:
            eff = s.loops if sl is None else sl
            for pn, prop in PROPS.items():
                prop = prop[: s.n]
                p0 = prop.copy()
                ctx.run()
                ok, r = ctx.call("expected_av_nn_property", m.expected_av_nn_property,
                                 prop, ndir=nd, selfloops=sl)
                if ok:
                    want = s.exp_av_nn(prop, nd, eff)
                    ctx.same("expected_av_nn_property", r, want, 1e-9, 1e-12,
                             spec=s.key(), ndir=nd, selfloops=sl, prop=pn)
                    ctx.state(s.kind, nd, eff, want)
                if not np.array_equal(prop, p0):
                    ctx.fail("property array changed", spec=s.key())
            for dd in NDIR:
                ctx.run()
                ok, r = ctx.call("expected_av_nn_degree", m.expected_av_nn_degree,
                                 ddir=dd, ndir=nd, selfloops=sl)
                if ok:
                    deg = s.exp_deg(dd, eff)
                    ctx.same("expected_av_nn_degree", r, s.exp_av_nn(deg, nd, eff), 1e-9, 1e-12 * max(deg.max(), 1e-300),
                             spec=s.key(), ndir=nd, ddir=dd, selfloops=sl)
    # the default is without self-loops
    ctx.run()
    ok, r = ctx.call("expected_av_nn_property", m.expected_av_nn_property, PROPS["f"][: s.n])
    if ok:
        ctx.same("expected_av_nn_property default", r, s.exp_av_nn(PROPS["f"][: s.n], "out", False))
    if m.selfloops is not loops0:
        ctx.fail("selfloops setting of the model changed", spec=s.key())
    # rejected: wrong length and unknown direction
    ctx.raises("property of wrong length", m.expected_av_nn_property, np.ones(s.n + 1))
    ctx.raises("unknown direction", m.expected_av_nn_property, np.ones(s.n), ndir="up")
    ctx.raises("unknown direction", m.expected_av_nn_degree, ndir="up")
    ctx.raises("unknown degree", m.expected_av_nn_degree, ddir="up")


def unfitted(ctx):
    for back in mk.BACKS:
        for kind in mk.KINDS:
            if not ctx.take(f"{back}.{kind}"):
                continue
            with ctx.guard("unfitted"):
                L = 2 if kind in mk.MULTI else 1
                s = mk.Spec(kind, 3, MX[:, :2][:3] if L > 1 else VX[:3],
                            MY[:, :2][:3] if L > 1 else VY[:3], 0.5, False, L)
                kw = s.kwargs()
                kw.pop("param")
                m = mk.build(back, kind, num_edges=2, **kw)
                ctx.run()
                ctx.raises("unfitted model", m.expected_av_nn_property, np.ones(3))
                ctx.raises("unfitted model", m.expected_av_nn_degree)


def ladder(ctx):
    """every value different, over a ladder of sizes"""
    for back, s, key in sizes.models(ctx):
        k = s.n + s.L + s.loops + len(s.kind) + len(back)
        with ctx.guard("expected_av_nn"):
            m = s.build(back)
            for nd in NDIR:
                sl = (None, False, True)[(k + len(nd)) % 3]
                eff = s.loops if sl is None else sl
                prop = sizes.values(s.n, 7, 6) - 1.0
                ctx.run(2)
                ok, r = ctx.call("expected_av_nn_property", m.expected_av_nn_property,
                                 prop, ndir=nd, selfloops=sl)
                if ok:
                    ctx.same("expected_av_nn_property", r, s.exp_av_nn(prop, nd, eff), 1e-8, 1e-11,
                             model=key, ndir=nd, selfloops=sl)
                dd = NDIR[(k + NDIR.index(nd)) % 3]
                ok, r = ctx.call("expected_av_nn_degree", m.expected_av_nn_degree,
                                 ddir=dd, ndir=nd, selfloops=sl)
                if ok:
                    ctx.same("expected_av_nn_degree", r, s.exp_av_nn(s.exp_deg(dd, eff), nd, eff),
                             1e-8, 1e-11, model=key, ndir=nd, ddir=dd, selfloops=sl)
            ctx.state(key)


SECTIONS = [("models", models, ("interp", "jit")), ("unfitted", unfitted, ("interp",)),
    ("ladder", ladder, ("interp", "jit")),
]
