"""C11 Fitting matches the requested number of edges or says it did not."""
import itertools
import math
import warnings

import numpy as np

from mc import modelkit as mk
from mc.checks import sizes
from mc.checks.c07 import MX, MY, VX, VY, mask_vec


def fit(ctx, m, what="fit", **kw):
    """(ok, warned) after fitting; an exception is a failure"""
    ctx.op()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            with np.errstate(all="ignore"):
                m.fit(**kw)
        except Exception as err:  # noqa: BLE001
            ctx.fail(what + " raised " + type(err).__name__, error=str(err)[:200])
            return False, False
    warned = any(issubclass(w.category, UserWarning) and "converge" in str(w.message).lower()
                 for w in rec)
    return True, warned


def maxima(s):
    """supremum of the expected number of edges, in total and per label"""
    pos = np.zeros((s.L, s.n, s.n), bool)
    for l, i, j in np.ndindex(s.L, s.n, s.n):
        a = s.x[i, l] if s.multi else s.x[i]
        b = s.y[j, l] if s.multi else s.y[j]
        pos[l, i, j] = a > 0 and b > 0 and (s.loops or i != j)
    return pos.any(axis=0).sum(), pos.sum(axis=(1, 2))


def param_of(m, s):
    p = np.asarray(m.param, dtype=float).ravel()
    return p


def judge(ctx, s, m, warned, target, rtol, atol, per_label, feasible, must, info):
    """the fitted parameter against the reference ensemble"""
    p = param_of(m, s)
    n_par = s.L if s.multi else 1
    if p.shape != (n_par,) or np.isnan(p).any() or (p < 0).any():
        ctx.fail("fitted parameter", got=p, **info)
        return
    f = mk.Spec(s.kind, s.n, s.x, s.y, p if s.multi else float(p[0]), s.loops, s.L)
    got = f.exp_edges_label() if per_label else np.array([f.exp_edges()])
    target = np.atleast_1d(np.asarray(target, float))
    close = np.abs(got - target) <= (atol + rtol * target) * 1.01 + 1e-11 * (1 + target)
    if not warned and not close.all():
        ctx.fail("fit missed its target without saying so", got=got, want=target, param=p, **info)
    if warned and must:
        ctx.fail("fit did not converge to a plain target", got=got, want=target, param=p, **info)
    if not per_label and s.multi and len(set(p.tolist())) > 1:
        ctx.fail("one parameter expected for all labels", param=p, **info)
    # what the model itself answers after fitting
    for name, want in (("expected_num_edges", f.exp_edges()),) + (
            (("expected_num_edges_label", f.exp_edges_label()),) if s.multi else ()):
        ok, v = ctx.call(name, getattr(m, name))
        if ok:
            ctx.same(name + " after fit", v, want, 1e-9, 1e-11, **info)
    if not warned and feasible and not hasattr(m, "solver_output"):
        ctx.fail("no solver output kept", **info)
    ctx.state(s.kind, p, warned)


X0S = (None, 0.0, 1e-9, 0.5, 3, 1e4)
FRACS = (0.0, 1e-6, 0.05, 0.5, 0.9, 0.999, 1.0, 1.3)


def single(ctx):
    for kind in ("fitness", "invariant"):
        for n in (1, 2, 3, 4):
            pats = [(1,) * n] + [tuple(int(k != z) for k in range(n)) for z in range(n)] if n > 1 else [(1,), (0,)]
            for bx in pats:
                for by in (pats if n < 4 else pats[:2]):
                    for loops in (False, True):
                        s = mk.Spec(kind, n, mask_vec(VX, bx), mask_vec(VY, by), 0.0, loops)
                        mx = maxima(s)[0]
                        for fr in FRACS:
                            for x0 in X0S:
                                if n > 2 and not ctx.thorough and x0 not in (None, 0.5, 1e4):
                                    continue
                                if ctx.jit and (x0 not in (None, 3) or n > 2 or bx != pats[0]):
                                    continue
                                for back in mk.BACKS:
                                    key = f"{back}.{s.key()}.{fr}.{x0}"
                                    if not ctx.take(key, group=back + kind):
                                        continue
                                    with ctx.guard("fit"):
                                        one_single(ctx, back, s, mx, fr, x0)


def one_single(ctx, back, s, mx, fr, x0, atol=1e-24, rtol=1e-9):
    target = fr * mx if mx > 0 else fr
    kw = s.kwargs()
    kw.pop("param")
    kw["num_edges"] = target
    m = mk.build(back, s.kind, **kw)
    ctx.run()
    a = {} if x0 is None else {"x0": x0}
    ok, warned = fit(ctx, m, **a)
    if not ok:
        return
    feasible = target < mx or target == 0
    plain = 0.01 <= fr <= 0.9 and mx > 0 or target == 0
    judge(ctx, s, m, warned, target, rtol, atol, False, feasible, plain,
          dict(spec=s.key(), target=target, x0=x0))
    if not feasible and fr > 1 and not warned:
        ctx.fail("infeasible target accepted silently", spec=s.key(), target=target)


def multi(ctx):
    for kind in mk.MULTI:
        for n, L in ((1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
            c = n * L
            one = np.ones((n, L), int)
            pats = [one] + [one - (np.arange(c).reshape(n, L) == k) for k in range(c)]
            for bx in pats:
                for by in (pats[0], pats[-1]):
                    for loops in (False, True):
                        s = mk.Spec(kind, n, MX[:n, :L] * bx, MY[:n, :L] * by, 0.0, loops, L)
                        for per in (False, True):
                            for fr in FRACS:
                                for x0 in (None, 0.5, 2, "vec", "ivec"):
                                    if c > 4 and not ctx.thorough and (x0 not in (None, "vec") or bx is not pats[0]):
                                        continue
                                    if ctx.jit and (x0 not in (None, "ivec") or c > 4 or
                                                    bx is not pats[0] or fr not in (0.05, 0.9, 1.3)):
                                        continue
                                    for back in mk.BACKS:
                                        key = f"{back}.{s.key()}.{per}.{fr}.{x0}"
                                        if not ctx.take(key, group=back + kind + str(per)):
                                            continue
                                        with ctx.guard("fit"):
                                            one_multi(ctx, back, s, per, fr, x0)


def one_multi(ctx, back, s, per, fr, x0):
    tot, lab = maxima(s)
    kw = s.kwargs()
    kw.pop("param")
    mult = np.array([1.0, 0.7, 0.4])[: s.L] if fr < 1 else np.ones(s.L)
    if per:
        target = fr * lab * mult
        kw["num_edges_label"] = target
        kw["per_label"] = True
        feasible = bool(((target < lab) | (target == 0)).all())
    else:
        target = fr * tot
        kw["num_edges"] = target
        kw["per_label"] = False
        feasible = target < tot or target == 0
    m = mk.build(back, s.kind, **kw)
    ctx.run()
    a = {}
    if x0 == "vec":
        a["x0"] = np.linspace(0.3, 2.0, s.L)
    elif x0 == "ivec":
        a["x0"] = np.arange(1, s.L + 1)
    elif x0 is not None:
        a["x0"] = x0
    ok, warned = fit(ctx, m, **a)
    if not ok:
        return
    plain = 0.01 <= fr <= 0.9 or fr == 0
    judge(ctx, s, m, warned, target, 1e-9, 1e-24, per, feasible, plain,
          dict(spec=s.key(), target=target, x0=str(x0), per_label=per))
    if not feasible and fr > 1 and not warned:
        ctx.fail("infeasible target accepted silently", spec=s.key(), target=target)


def random_model(ctx):
    for n in (1, 2, 3, 5):
        for loops in (False, True):
            mx = n * n if loops else n * (n - 1)
            for fr in (0.0, 0.25, 1.0, 1.3):
                for w in (None, 0.5, 1.0, 2.5):
                    for disc in (None, False, True):
                        if w is None and disc is not None:
                            continue
                        for back in mk.BACKS:
                            key = f"{back}.{n}.{loops}.{fr}.{w}.{disc}"
                            if not ctx.take(key, group=back):
                                continue
                            with ctx.guard("fit"):
                                one_random(ctx, back, n, loops, mx, fr, w, disc)


def one_random(ctx, back, n, loops, mx, fr, w, disc):
    target = fr * mx if mx else fr
    kw = dict(num_vertices=n, num_edges=target, selfloops=loops)
    if w is not None:
        kw["total_weight"] = w * target if target else w
        if disc is not None:
            kw["discrete_weights"] = disc
    m = mk.build(back, "random", **kw)
    ctx.run()
    feasible = target <= mx
    if w is not None and disc and target and w < 1:
        feasible = False  # whole weights of at least one per link
    if w is not None and target == 0:
        feasible = False  # weight without links
    ctx.op()
    refused = warned = False
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            m.fit()
        except Exception as err:  # noqa: BLE001
            refused = True
            if feasible:
                ctx.fail("fit raised " + type(err).__name__, error=str(err)[:200])
                return
        warned = any(issubclass(r.category, UserWarning) for r in rec)
    if refused or warned:
        return
    p, q = (float(a) for a in np.asarray(m.param, float).ravel())
    if not (0 <= p <= 1):
        ctx.fail("infeasible target accepted silently", p=p, n=n, target=target)
        return
    s = mk.Spec("random", n, param=p, loops=loops)
    if abs(s.exp_edges() - target) > 1e-9 * (1 + target):
        ctx.fail("fit missed its target without saying so", p=p, n=n, target=target)
    ok, e = ctx.call("expected_num_edges", m.expected_num_edges)
    if ok:
        ctx.same("expected_num_edges after fit", e, target, 1e-9, 1e-12)
    if w is not None and feasible:
        ok, e = ctx.call("expected_total_weight", m.expected_total_weight)
        if ok:
            ctx.same("expected_total_weight after fit", e, kw["total_weight"], 1e-9, 1e-12)
    if w is not None and not (q >= 0 and not math.isnan(q)):
        ctx.fail("infeasible weight accepted silently", q=q)


def options(ctx):
    """tolerances, iteration limit, refits, rejected arguments"""
    base = [mk.Spec(k, 3, VX[:3], VY[:3], 0.0, lo) for k in ("fitness", "invariant") for lo in (False, True)]
    base += [mk.Spec(k, 3, MX[:3, :2], MY[:3, :2], 0.0, lo, 2) for k in mk.MULTI for lo in (False, True)]
    for s in base:
        for back in mk.BACKS:
            for name in ("tol", "maxiter", "bad", "refit", "fromparam", "forms"):
                if not ctx.take(f"{back}.{s.key()}.{name}"):
                    continue
                with ctx.guard("fit"):
                    OPTS[name](ctx, back, s)


def make(back, s, target, per=False, **extra):
    kw = s.kwargs()
    kw.pop("param")
    kw["num_edges_label" if per else "num_edges"] = target
    if s.multi:
        kw["per_label"] = per
    kw.update(extra)
    return mk.build(back, s.kind, **kw)


def opt_tol(ctx, back, s):
    tot, lab = maxima(s)
    for rtol, atol in ((1e-3, 1e-24), (1e-12, 0.0), (0.0, 1e-6), (1e-9, 0.5)):
        for fr in (0.2, 0.6):
            for per in (False, True) if s.multi else (False,):
                t = fr * lab if per else fr * tot
                m = make(back, s, t, per)
                ctx.run()
                ok, warned = fit(ctx, m, rtol=rtol, atol=atol)
                if ok:
                    judge(ctx, s, m, warned, t, rtol, atol, per, True, False,
                          dict(spec=s.key(), tol_r=rtol, tol_a=atol))


def opt_maxiter(ctx, back, s):
    tot, lab = maxima(s)
    for mi in (0, 1, 2, 3, 5):
        for x0 in (None, 5.0):
            for per in (False, True) if s.multi else (False,):
                t = 0.6 * lab if per else 0.6 * tot
                m = make(back, s, t, per)
                ctx.run()
                a = {} if x0 is None else {"x0": x0}
                ok, warned = fit(ctx, m, maxiter=mi, **a)
                if ok:
                    judge(ctx, s, m, warned, t, 1e-9, 1e-24, per, True, False,
                          dict(spec=s.key(), maxiter=mi))
                    if mi == 0 and not warned:
                        ctx.fail("no iterations and no warning", spec=s.key())


def opt_bad(ctx, back, s):
    """a refused call leaves the model as it was, and usable"""
    tot, lab = maxima(s)
    bads = [dict(method="mle"), dict(method="other"), dict(x0=-1.0), dict(x0=np.array([-1.0] * s.L)),
            dict(x0=np.array(["a"] * s.L)), dict(x0=np.ones(s.L + 1))]
    if s.L > 1:
        bads += [dict(x0=np.linspace(-0.5, 2.0, s.L)), dict(x0=np.linspace(2.0, -0.5, s.L)),
                 dict(x0=[1.0] * (s.L - 1) + [-1.0])]
    for bad in bads:
        for fitted in (False, True):
            m = make(back, s, 0.5 * tot)
            if fitted:
                fit(ctx, m)
                before = np.array(m.param, float)
            ctx.run()
            ctx.raises("fit(%s)" % list(bad)[0], m.fit, **bad)
            if fitted and not np.array_equal(np.asarray(m.param, float), before):
                ctx.fail("a refused fit changed the parameter", bad=str(bad))
            if not fitted and hasattr(m, "param"):
                ctx.fail("a refused fit left a parameter", bad=str(bad))
            ok, warned = fit(ctx, m)
            if ok:
                judge(ctx, s, m, warned, 0.5 * tot, 1e-9, 1e-24, False, True, True,
                      dict(spec=s.key(), after=str(bad)))
    # no target at all
    kw = s.kwargs()
    m = mk.build(back, s.kind, **kw)
    ctx.raises("fit without a target", m.fit)
    if s.multi:
        m = make(back, s, 0.5 * tot)
        m.per_label = True
        ctx.raises("fit per label without a target per label", m.fit)
        m = make(back, s, 0.5 * lab, True)
        m.per_label = False
        if not hasattr(m, "num_edges"):
            ctx.raises("fit without a target", m.fit)


def opt_refit(ctx, back, s):
    """fitting again, to another target or the same, from the old parameter"""
    tot, lab = maxima(s)
    for per in (False, True) if s.multi else (False,):
        m = make(back, s, 0.3 * (lab if per else tot), per)
        fit(ctx, m)
        for fr in (0.7, 0.1, 0.1):
            t = fr * (lab if per else tot)
            if per:
                m.num_edges_label = np.array(t, float)
            else:
                m.num_edges = float(t)
            ctx.run()
            ok, warned = fit(ctx, m, x0=np.array(m.param, float))
            if ok:
                judge(ctx, s, m, warned, t, 1e-9, 1e-24, per, True, True,
                      dict(spec=s.key(), refit=fr))


def opt_fromparam(ctx, back, s):
    """a model given both a parameter and a target is fitted to the target"""
    tot, lab = maxima(s)
    m = make(back, s, 0.4 * tot, param=np.array([0.123]))
    ctx.run()
    f = mk.Spec(s.kind, s.n, s.x, s.y, 0.123, s.loops, s.L)
    ok, v = ctx.call("expected_num_edges", m.expected_num_edges)
    if ok:
        ctx.same("expected_num_edges before fit", v, f.exp_edges(), 1e-9)
    ok, warned = fit(ctx, m)
    if ok:
        judge(ctx, s, m, warned, 0.4 * tot, 1e-9, 1e-24, False, True, True, dict(spec=s.key()))


def opt_forms(ctx, back, s):
    """which target is meant follows from what the model was given"""
    if not s.multi:
        return
    tot, lab = maxima(s)
    t, tl = 0.4 * tot, 0.4 * lab * np.linspace(1.0, 0.6, s.L)
    vec = np.linspace(0.2, 0.5, s.L)
    forms = [(False, dict(num_edges=t)), (False, dict(num_edges=t, param=0.3)),
             (False, dict(num_edges=t, param=[0.3])), (False, dict(num_edges=t, param=np.array([0.3]))),
             (False, dict(num_edges=[t])), (False, dict(num_edges=np.array([t]))),
             (True, dict(num_edges_label=tl)), (True, dict(num_edges=tl)),
             (True, dict(num_edges_label=tl, param=vec)), (True, dict(num_edges_label=tl, param=list(vec))),
             (True, dict(num_edges_label=tl, num_edges=t)),
             (False, dict(num_edges_label=tl, num_edges=t, per_label=False)),
             (True, dict(num_edges_label=tl, num_edges=t, per_label=True)),
             (True, dict(num_edges_label=tl, param=0.3, per_label=True)),
             (False, dict(num_edges=t, param=vec, per_label=False))]
    for per, form in forms:
        kw = s.kwargs()
        kw.pop("param")
        kw.update(form)
        m = mk.build(back, s.kind, **kw)
        ctx.run()
        ok, warned = fit(ctx, m, "fit of a model given " + ", ".join(form))
        if ok:
            judge(ctx, s, m, warned, tl if per else t, 1e-9, 1e-24, per, True, True,
                  dict(spec=s.key(), form=str(form)))


OPTS = {"forms": opt_forms, "tol": opt_tol, "maxiter": opt_maxiter, "bad": opt_bad, "refit": opt_refit,
        "fromparam": opt_fromparam}


def scales(ctx):
    """fitnesses of very different magnitude"""
    sets = [([1e-8, 1.0, 1e6], [1e5, 1e-4, 1.0]), ([1e9] * 3, [1e9] * 3),
            ([1e-9] * 3, [1e-9] * 3), ([1.0, 1e-15, 1e15], [1.0, 1.0, 1.0])]
    for kind in ("fitness", "invariant", "mfitness", "minvariant"):
        for k, (x, y) in enumerate(sets):
            for loops in (False, True):
                for fr in (0.05, 0.4, 0.8):
                    for x0 in (None, 1.0):
                        for back in mk.BACKS:
                            if not ctx.take(f"{back}.{kind}.{k}.{loops}.{fr}.{x0}", group=back + kind):
                                continue
                            with ctx.guard("fit"):
                                if kind in mk.MULTI:
                                    X = np.array([x, x[::-1]]).T
                                    Y = np.array([y, y[::-1]]).T
                                    s = mk.Spec(kind, 3, X, Y, 0.0, loops, 2)
                                    t = fr * maxima(s)[1]
                                    m = make(back, s, t, True)
                                else:
                                    s = mk.Spec(kind, 3, x, y, 0.0, loops)
                                    t = fr * maxima(s)[0]
                                    m = make(back, s, t)
                                ctx.run()
                                ok, warned = fit(ctx, m, **({} if x0 is None else {"x0": x0}))
                                if ok:
                                    judge(ctx, s, m, warned, t, 1e-9, 1e-24, kind in mk.MULTI,
                                          True, False, dict(spec=s.key(), target=t, x0=x0))


def ladder(ctx):
    """larger models"""
    for back, s, key in sizes.models(ctx, *(((33, 65, 130), ((64, 2), (3, 40), (33, 5))) if ctx.jit
                                            else ((5, 8, 12, 17), ((4, 5), (9, 2), (2, 12))))):
        if s.kind == "random":
            continue
        with ctx.guard("fit"):
            mx, mxl = maxima(s)
            per = s.multi and (s.n + s.loops + len(back)) % 2 == 1
            for fr in (0.03, 0.4, 0.85, 1.2):
                t = fr * mxl if per else fr * mx
                kw = s.kwargs()
                kw.pop("param")
                if s.multi:
                    kw["per_label"] = per
                kw["num_edges_label" if per else "num_edges"] = t
                m = mk.build(back, s.kind, **kw)
                ctx.run()
                ok, warned = fit(ctx, m)
                if ok:
                    judge(ctx, s, m, warned, t, 1e-9, 1e-24, per, fr < 1, fr < 1, dict(model=key, target=t))
                    if fr > 1 and not warned:
                        ctx.fail("infeasible target accepted silently", model=key, target=t)


SECTIONS = [
    ("single", single, ("interp", "jit")),
    ("multi", multi, ("interp", "jit")),
    ("random_model", random_model, ("interp",)),
    ("options", options, ("interp",)),
    ("scales", scales, ("interp", "jit")),
    ("ladder", ladder, ("interp", "jit")),
]
