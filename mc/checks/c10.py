"""C10 Weighted sampling puts weights of the right law on the sampled links."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks import sampling as sm
from mc.checks import sizes
from mc.checks.c07 import MX, MY, VX, VY, mask_vec

FACTORS = [lambda n: 1.0 + 0.03125 * n, lambda n: 2.5 + 0.0625 * n, lambda n: 0.004 * (n + 1)]


def bal(x, y):
    """strengths with the same total on both sides (per layer)"""
    x, y = np.array(x, float), np.array(y, float)
    return x, y * (x.sum(axis=0) / np.where(y.sum(axis=0) == 0, 1, y.sum(axis=0)))


def specs(ctx):
    for n in (1, 2, 3):
        for loops in (False, True):
            for bx in itertools.product((0, 1), repeat=n):
                for by in itertools.product((0, 1), repeat=n):
                    if n == 3 and (sum(bx) + sum(by) < 5 or loops and sum(bx) + sum(by) == 6):
                        continue
                    if sum(bx) == 0 or sum(by) == 0:
                        continue
                    for kind in ("fitness", "invariant"):
                        x, y = bal(mask_vec(VX, bx), mask_vec(VY, by))
                        for d in (0.6, mk.INF) if n < 3 else (0.6,):
                            yield mk.Spec(kind, n, x, y, d, loops)
    for n, L in ((1, 2), (2, 1), (2, 2), (2, 3)):
        c = n * L
        one = np.ones((n, L), int)
        pats = [one] + [one - (np.arange(c).reshape(n, L) == k) for k in range(c)]
        for loops in (False, True):
            for kind in mk.MULTI:
                for bx in pats:
                    for by in pats:
                        if not (bx is pats[0] or by is pats[0]):
                            continue
                        if ((MX[:n, :L] * bx).sum(0) * (MY[:n, :L] * by).sum(0) == 0).any():
                            continue
                        if c == 4 and loops and bx.sum() + by.sum() > 7 and not ctx.thorough:
                            continue
                        if c > 4 and loops:
                            continue
                        x, y = bal(MX[:n, :L] * bx, MY[:n, :L] * by)
                        for d in (0.6, [0.3, 1.8, 0.9][:L]):
                            if L == 1 and np.ndim(d):
                                continue
                            yield mk.Spec(kind, n, x, y, d, loops, L)
        # a layer without any strength
        if L > 1:
            for kind in mk.MULTI:
                x, y = bal(MX[:n, :L], MY[:n, :L])
                x[:, 0] = y[:, 0] = 0
                yield mk.Spec(kind, n, x, y, 0.6, n == 1, L)


def means(s, so, si):
    """prescribed mean weight of each link given that it is there"""
    p = s.tab()[0]
    so = so.reshape(s.n, -1)
    si = si.reshape(s.n, -1)
    out = np.zeros((s.L, s.n, s.n))
    for l in range(s.L):
        tot = so[:, l].sum()
        for i in range(s.n):
            for j in range(s.n):
                if p[l, i, j] > 0 and tot > 0:
                    out[l, i, j] = so[i, l] * si[j, l] / (tot * p[l, i, j])
    return out


def checker(ctx, s, mean, factor, what):
    def visit(g, b, w, src):
        used = set()
        for idx in zip(*np.nonzero(b | (w != 0))):
            if not b[idx] or w[idx] == 0:
                ctx.fail(what + ": weight and link disagree", link=idx, weight=w[idx],
                         spec=s.key())
                return
            r = w[idx] / mean[idx] if mean[idx] > 0 else -1.0
            hit = None
            for n, (kind, scale, val) in enumerate(src.draws):
                if n not in used and kind == "exponential" and abs(r - factor(n)) < 1e-9 * abs(r):
                    hit = n
                    break
            if hit is None:
                ctx.fail(what + ": law of the weight", link=idx, weight=w[idx], mean=mean[idx],
                         draws=src.draws, spec=s.key())
                return
            used.add(hit)
    return visit


def run_case(ctx, back, s, so, si, what, kw, factors=FACTORS):
    want = sm.exact(s, kw.get("selfloops"))
    mean = means(s, so, si)
    for f in factors:
        got = sm.distribution(ctx, lambda: s.build(back), s, f,
                              checker(ctx, s, mean, f, what), weights="cremb", **kw)
        sm.compare(ctx, what + ": links of a weighted sample", got, want, spec=s.key())
    ctx.state(s.kind, mean, sorted(got.items()))
    # the resulting expected strengths are the prescribed ones
    if s.loops and so.sum() > 0 and kw.get("selfloops") is not False:
        exp = (s.tab()[0] * mean).sum(axis=2)
        ref = so.reshape(s.n, -1).T
        pos = s.tab()[0] > 0
        if pos.all():
            ctx.same("expected strengths", exp, ref, 1e-9, 1e-12)


def default_strengths(ctx):
    for s in specs(ctx):
        for back in mk.BACKS:
            if not ctx.take(back + "." + s.key()):
                continue
            with ctx.guard("weighted sample"):
                f = FACTORS if s.n < 3 and s.n * s.L < 4 or ctx.thorough else FACTORS[:1]
                run_case(ctx, back, s, s.x, s.y, "cremb", {}, f)
                ctx.sample({"backend": back, "model": s.key()})


def base(loops):
    yield mk.Spec("random", 2, param=0.3, loops=loops)
    for k in ("fitness", "invariant"):
        x, y = bal(VX[:2], VY[:2])
        yield mk.Spec(k, 2, x, y, 0.6, loops)
    for k in mk.MULTI:
        x, y = bal(MX[:2, :2], MY[:2, :2])
        yield mk.Spec(k, 2, x, y, [0.3, 1.8], loops, 2)


def given_strengths(ctx):
    """strengths other than the fitnesses, in every container, and the
    self-loop setting of the call"""
    so1, si1 = bal([0.9, 2.1], [1.7, 0.4])
    so2, si2 = bal([[0.9, 0.3], [2.1, 1.2]], [[1.7, 2.2], [0.4, 0.5]])
    int1 = np.array([3, 1]), np.array([2, 2])
    int2 = np.array([[3, 2], [1, 5]]), np.array([[2, 3], [2, 4]])
    wraps = {"arr": lambda a: a, "int": None, "csr": sp.csr_array, "csc": sp.csc_matrix,
             "F": np.asfortranarray, "f32": lambda a: a.astype(np.float32), "view": lambda a: a[::-1].copy()[::-1],
             "dupr": lambda a: repeated_entries(a, sp.csr_array), "dupc": lambda a: repeated_entries(a, sp.csc_matrix),
             "coo": sp.coo_array, "lil": sp.lil_matrix}
    for loops in (False, True):
        for s in base(loops):
            for wn, wf in wraps.items():
                if wn in ("csr", "csc", "dupr", "dupc", "coo", "lil") and not s.multi:
                    continue
                for arg in (None, False, True):
                    if arg is not None and wn != "arr":
                        continue
                    if s.multi and loops and arg is not False and not ctx.thorough and wn != "arr":
                        continue
                    for back in mk.BACKS:
                        if not ctx.take(f"{back}.{s.key()}.{wn}.{arg}"):
                            continue
                        with ctx.guard("weighted sample"):
                            so, si = ((int2 if s.multi else int1) if wn == "int"
                                      else ((so2, si2) if s.multi else (so1, si1)))
                            f = (lambda a: a) if wf is None else wf
                            if wn == "f32":  # values that single precision holds exactly
                                so, si = ((np.array([[0.75, 0.5], [2.25, 1.25]]), np.array([[2.5, 0.25], [0.5, 1.5]]))
                                          if s.multi else (np.array([0.75, 2.25]), np.array([2.5, 0.5])))
                            names = (("out_strength_label", "in_strength_label") if s.multi
                                     else ("out_strength", "in_strength"))
                            kw = {names[0]: f(so.copy()), names[1]: f(si.copy())}
                            if arg is not None:
                                kw["selfloops"] = arg
                            run_case(ctx, back, s, so, si, "cremb with given strengths", kw,
                                     FACTORS[:1])


def repeated_entries(a, fmt):
    """compressed columns or rows, unsorted, every entry stored in two parts"""
    m = a.T if fmt is sp.csc_matrix else a
    ptr, ind, dat = [0], [], []
    for row in m:
        for part in (0.25, 0.75):
            for j in reversed(range(len(row))):
                ind.append(j)
                dat.append(row[j] * part)
        ptr.append(len(ind))
    return fmt((np.array(dat), np.array(ind), np.array(ptr)), shape=a.shape)


def one_given(ctx):
    """only one of the two strengths given: the other one is the fitness"""
    for s in base(True):
        if s.kind == "random":
            continue
        for side in (0, 1):
            for back in mk.BACKS:
                if not ctx.take(f"{back}.{s.key()}.{side}"):
                    continue
                with ctx.guard("weighted sample"):
                    so, si = s.x.copy(), s.y.copy()
                    new = (so if side == 0 else si)[::-1].copy()
                    names = (("out_strength_label", "in_strength_label") if s.multi
                             else ("out_strength", "in_strength"))
                    kw = {names[side]: new}
                    if side == 0:
                        so = new
                    else:
                        si = new
                    run_case(ctx, back, s, so, si, "cremb with one strength given", kw,
                             FACTORS[:1])


def random_weights(ctx):
    """the random graph's own weights: exponential or geometric"""
    for n in (1, 2):
        for loops in (False, True):
            for p in (0.0, 0.3, 1.0):
                for q in (0.25, 0.8, 0.0, 0.004, 0.995):
                    for disc in (None, False, True):
                        for arg in (None, False, True):
                            for back in mk.BACKS:
                                s = mk.Spec("random", n, param=p, loops=loops, q=q)
                                if q == 0 and not disc:
                                    continue  # no exponential law
                                if not ctx.take(f"{back}.{s.key()}.{q}.{disc}.{arg}"):
                                    continue
                                with ctx.guard("weighted sample"):
                                    random_case(ctx, back, s, q, disc, arg)


def random_case(ctx, back, s, q, disc, arg):
    extra = {} if disc is None else {"discrete_weights": disc}
    kind = "geometric" if disc else "exponential"
    scale = 1 - q if disc else 1 / q

    def visit(g, b, w, src):
        vals = sorted(w[b].tolist())
        if (w[~b] != 0).any():
            ctx.fail("weight without link", spec=s.key())
        draws = sorted(v for k, sc, v in src.draws)
        if any(k != kind or abs(sc - scale) > 1e-12 for k, sc, v in src.draws):
            ctx.fail("law of the weights", draws=src.draws, want=(kind, scale))
        for v in vals:
            m = [d for d in draws if abs(d - v) <= 1e-12 * abs(d)]
            if not m:
                ctx.fail("weight not drawn", weight=v, draws=draws)
                break
            draws.remove(m[0])

    kw = {} if arg is None else {"selfloops": arg}
    for f in FACTORS[:2]:
        got = sm.distribution(ctx, lambda: s.build(back, **extra), s, f, visit,
                              weights="random", **kw)
        sm.compare(ctx, "links of a weighted sample", got, sm.exact(s, arg), spec=s.key())
    m = s.build(back, **extra)
    ok, tw = ctx.call("expected_total_weight", m.expected_total_weight)
    if ok:
        want = s.exp_edges() * (1 / (1 - q) if disc else 1 / q)
        ctx.same("expected_total_weight", tw, want, 1e-9, 1e-12, spec=s.key())


def compiled(ctx):
    """compiled code: weights sit exactly on the links of certain graphs, are
    positive, and calls that must be refused are"""
    for loops in (False, True):
        lst = [mk.Spec("random", 2, param=p, loops=loops, q=0.5) for p in (0.0, 1.0)]
        for k in ("fitness", "invariant"):
            for n in (1, 2, 3):
                x, y = bal(VX[:n], VY[:n])
                lst.append(mk.Spec(k, n, x, y, mk.INF, loops))
                lst.append(mk.Spec(k, n, x, y, 0.0, loops))
        for k in mk.MULTI:
            x, y = bal(MX[:2, :2], MY[:2, :2])
            lst.append(mk.Spec(k, 2, x, y, [mk.INF, 0.0], loops, 2))
            x[:, 1] = y[:, 1] = 0
            lst.append(mk.Spec(k, 2, x, y, [mk.INF, 1.0], loops, 2))
        for s in lst:
            for back in mk.BACKS:
                if not ctx.take(f"{back}.{s.key()}", group=back + s.kind + str(loops)):
                    continue
                with ctx.guard("weighted sample"):
                    want = s.pl() > 0.5
                    modes = ("random", "cremb") if s.kind == "random" else ("cremb",)
                    for w in modes:
                        for disc in (False, True) if w == "random" else (None,):
                            ex = {} if disc is None else {"discrete_weights": disc}
                            m = s.build(back, **ex)
                            kw = {"weights": w}
                            if s.kind == "random" and w == "cremb":
                                kw["out_strength"] = np.array([1.0, 2.0])
                                kw["in_strength"] = np.array([2.0, 1.0])
                            ctx.run()
                            ok, g = ctx.call("sample", m.sample, **kw)
                            if not ok:
                                continue
                            b, wt = sm.read_links(g, s)
                            if not (b == want).all() or not ((wt > 0) == want).all():
                                ctx.fail("weights of certain links", got=wt, want=want,
                                         spec=s.key())
                            if disc and (wt[want] % 1 != 0).any():
                                ctx.fail("discrete weights are not whole", got=wt)


def refused(ctx):
    """strengths that do not add up, of the wrong shape, unknown methods"""
    for s in base(False):
        for back in mk.BACKS:
            names = (("out_strength_label", "in_strength_label") if s.multi
                     else ("out_strength", "in_strength"))
            sh = (2, 2) if s.multi else (2,)
            one = np.ones(sh)
            bad = {
                "unknown": dict(weights="gaussian"),
                "sum": {"weights": "cremb", names[0]: one, names[1]: one * 2},
            }
            if s.multi:
                bad["shape"] = {"weights": "cremb", names[0]: np.ones((2, 3)),
                                names[1]: np.ones((2, 3))}
                bad["list"] = {"weights": "cremb", names[0]: [[1.0, 1.0]] * 2,
                               names[1]: [[1.0, 1.0]] * 2}
                a, b = one.copy(), one.copy()
                a[:, 1] *= 3
                bad["layer sum"] = {"weights": "cremb", names[0]: a, names[1]: b}
                # equal over the whole table, different layer by layer
                a, b = one.copy(), one.copy()
                a[:, 0] *= 3
                b[:, 1] *= 3
                bad["layer swap"] = {"weights": "cremb", names[0]: a, names[1]: b}
            for name, kw in bad.items():
                if not ctx.take(f"{back}.{s.key()}.{name}"):
                    continue
                with ctx.guard("refusal"):
                    ctx.run()
                    m = s.build(back)
                    with sm.Source(lambda n: 0):
                        ctx.raises("sample with " + name, m.sample, **kw)


NS = (4, 5, 7, 11, 12, 20, 23)
NLS = ((4, 2), (3, 5), (5, 3), (2, 9), (11, 2), (12, 3))


def ladder(ctx):
    """larger models: every outcome but at most one alike; the weight of each
    link tells the mean of its law"""
    for back, s, key in sizes.models(ctx, NS, NLS):
        if s.kind == "random":
            continue
        with ctx.guard("weighted sample"):
            s.x, s.y = bal(s.x, s.y)
            mean = means(s, s.x, s.y)

            def visit(g, b, w, src):
                if ((w != 0) != b).any():
                    ctx.fail("cremb: weight and link disagree", model=key)
                elif not np.allclose(w[b], 2.0 * mean[b], 1e-9, 0):
                    k = np.argwhere(~np.isclose(w, 2.0 * mean * b, 1e-9, 0))[0]
                    ctx.fail("cremb: law of the weight", model=key, link=k, got=w[tuple(k)] / 2,
                             want=mean[tuple(k)])
                elif any(k != "exponential" for k, _, _ in src.draws):
                    ctx.fail("cremb: kind of law", model=key, got=src.draws[:2])

            most = 400 if ctx.thorough else 30 if s.n < 20 else 12
            sm.deviations(ctx, lambda: s.build(back), s, "cremb", lambda n: 2.0, visit,
                          most, weights="cremb")


SECTIONS = [
    ("default_strengths", default_strengths, ("interp",)),
    ("given_strengths", given_strengths, ("interp",)),
    ("one_given", one_given, ("interp",)),
    ("random_weights", random_weights, ("interp",)),
    ("refused", refused, ("interp",)),
    ("compiled", compiled, ("interp", "jit")),
    ("ladder", ladder, ("interp",)),
]
