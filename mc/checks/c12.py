"""C12 The monotonic solver never lies about convergence.

The function given to the solver is the environment.  ``adversary`` lets the
explorer decide, at every point the solver asks for, the value and the slope,
among all those (on a grid of levels) that a monotone function agreeing with
the previous answers can take: every run of the solver against every such
function to the depth bound is executed.  ``family`` runs concrete functions.
"""
import itertools
import math
import warnings

import numpy as np

from graph_ensembles.solver import monotonic_newton_solver
from mc.core import explore

INF = float("inf")


class Watch:
    """The function under observation: every call is checked at once."""

    def __init__(self, ctx, f, target, lo, hi, sign, what):
        self.ctx, self.f, self.target = ctx, f, target
        self.lo, self.hi, self.sign = lo, hi, sign
        self.calls = []
        self.low, self.high = -INF, INF
        self.what = what
        self.bad = False

    def __call__(self, x):
        v = float(np.asarray(x).ravel()[0])
        self.ctx.op()
        if math.isnan(v):
            self.fail("evaluated at nan")
        elif not (self.lo <= v <= self.hi):
            self.fail("evaluated outside the admissible interval", x=v)
        elif not (self.low <= v <= self.high):
            self.fail("left the bracket", x=v, bracket=(self.low, self.high))
        f, s = self.f(v)
        self.calls.append((v, f))
        if s != 0:
            if self.sign * (f - self.target) < 0:
                self.low = max(self.low, v)
            elif self.sign * (f - self.target) > 0:
                self.high = min(self.high, v)
        return np.float64(f), np.float64(s)

    def fail(self, what, **d):
        if not self.bad:
            self.ctx.fail(what, calls=self.calls[-6:], case=self.what, **d)
        self.bad = True


def solve(ctx, f, target, x0, lo, hi, sign, atol, rtol, max_iter, what, arr=True, **kw):
    w = Watch(ctx, f, target, lo, hi, sign, what)
    ctx.run()
    start = np.array([x0], dtype=float) if arr else float(x0)
    try:
        with np.errstate(all="ignore"):
            sol = monotonic_newton_solver(start, w, target, atol=atol, rtol=rtol,
                                          max_iter=max_iter, x_l=lo, x_u=hi,
                                          full_return=True, **kw)
    except TooDeep:
        w.fail("did not stop at the maximum number of iterations")
        return None
    except Exception as err:  # noqa: BLE001
        w.fail("solver raised " + type(err).__name__, error=str(err)[:200])
        return None
    x = float(np.asarray(sol.x).ravel()[0])
    last, fl = w.calls[-1]
    norm = abs(fl - target)
    tol = atol + rtol * target
    if not (x == last):
        w.fail("result is not the last point", x=x)
    if bool(sol.converged) != bool(norm <= tol):
        w.fail("convergence misreported", converged=bool(sol.converged), distance=norm, tol=tol)
    if len(w.calls) > max_iter + 1:
        w.fail("did not stop at the maximum number of iterations")
    if int(sol.n_iter) != len(w.calls) - 1:
        w.fail("iterations misreported", n_iter=int(sol.n_iter))
    if bool(sol.max_iter_reached) != (len(w.calls) - 1 >= max_iter):
        w.fail("iteration limit misreported")
    if sol.no_change_stop and len(w.calls) > 1:
        a, b = w.calls[-2][0], w.calls[-1][0]
        if not (abs(b - a) <= rtol * abs(a) * (1 + 1e-9)):
            w.fail("step misreported", step=b - a)
    if not sol.converged and not sol.no_change_stop and not sol.max_iter_reached:
        w.fail("stopped without a reason")
    if norm < INF and not (abs(float(np.asarray(sol.norm_seq[-1]).ravel()[0]) - norm) <= 1e-12 * (1 + norm)):
        w.fail("reported distance is not that of the result")
    return sol, w


class TooDeep(Exception):
    pass


def adversary(ctx):
    """every monotone environment on a grid of levels, to a bounded depth"""
    depth = 6 if ctx.thorough else 4
    configs = []
    for target in (1.0, 0.0, 2.5):
        for x0 in (0.0, 1.0, 100.0):
            for atol, rtol in ((1e-24, 1e-9), (0.5, 0.0)):
                configs.append((target, x0, atol, rtol))
    for k, (target, x0, atol, rtol) in enumerate(configs):
        # first two choices are the unit of work sharing
        for first in range(12):
            if not ctx.take(f"{target}.{x0}.{atol}.{rtol}.{first}"):
                continue
            with ctx.guard("solver"):
                one_adversary(ctx, target, x0, atol, rtol, depth, first)


SLOPES = (0.0, 0.05, 1.0, 1e8)


def one_adversary(ctx, target, x0, atol, rtol, depth, first):
    """values of an increasing function on [0, inf), 0 <= f <= 4"""

    def run(ch):
        seen = {}

        def f(x):
            if x in seen:
                return seen[x]
            if len(seen) > depth:
                raise TooDeep()
            lo = max([v for z, (v, s) in seen.items() if z < x], default=0.0)
            hi = min([v for z, (v, s) in seen.items() if z > x], default=4.0)
            opts = []
            for v in (lo, (lo + hi) / 2, hi, target):
                if lo <= v <= hi and v not in opts:
                    opts.append(v)
            if not seen:
                k = first
                v = opts[(k // 4) % len(opts)]
                s = SLOPES[k % 4]
            else:
                v = opts[ch(len(opts))]
                s = SLOPES[ch(4)] if not math.isinf(x) else 0.0
            seen[x] = (v, s)
            return v, s

        n = len(ctx.violations)
        r = solve(ctx, f, target, x0, 0.0, INF, 1, atol, rtol, depth - 1, "adversary")
        return r, seen

    for (r, seen), ch in explore(run):
        if r is not None:
            ctx.state(tuple(sorted(seen.items())))
    ctx.sample({"target": target, "x0": x0, "first": first})


def functions():
    """(name, f, df, sign, infimum, supremum) on [0, inf)"""
    def frac(ws):
        def f(x):
            if math.isinf(x):
                return float(len(ws)), 0.0
            return (sum(1.0 if math.isinf(w * x) else w * x / (1 + w * x) for w in ws), sum(w / (1 + w * x) / (1 + w * x) for w in ws))
        return f

    def expo(ws):
        def f(x):
            if math.isinf(x):
                return float(len(ws)), 0.0
            return (sum(-math.expm1(-w * x) for w in ws), sum(w * math.exp(-min(w * x, 700)) for w in ws))
        return f

    yield "frac1", frac([1.0]), 1, 1.0
    yield "frac3", frac([1e-6, 1.0, 1e6]), 1, 3.0
    yield "frac6", frac([0.1, 0.5, 2.0, 7.0, 40.0, 1e3]), 1, 6.0
    yield "expo1", expo([1.0]), 1, 1.0
    yield "expo3", expo([1e-6, 1.0, 1e6]), 1, 3.0
    yield "expo6", expo([0.1, 0.5, 2.0, 7.0, 40.0, 1e3]), 1, 6.0
    yield "line", lambda x: (3 * x, 3.0 if not math.isinf(x) else 0.0), 1, INF
    yield "cube", lambda x: (x ** 3, 3 * x ** 2 if not math.isinf(x) else 0.0), 1, INF
    yield "step", lambda x: (0.0, 0.0) if x < 1 else ((2.0, 0.0) if x > 2 else (2 * (x - 1), 2.0)), 1, 2.0
    yield "flat", lambda x: (0.5, 0.0), 1, 0.5
    yield "zero", lambda x: (0.0, 0.0), 1, 0.0


def family(ctx):
    x0s = (0.0, 1e-12, 0.3, 1.0, 20.0, 1e6, 1e15, INF)
    for name, f, sign, sup in functions():
        base = sup if not math.isinf(sup) else 8.0
        for fr in (0.0, 1e-9, 0.01, 0.5, 0.99, 1 - 1e-7, 1.0, 1.5):
            target = fr * base if base > 0 else fr
            for x0 in x0s:
                for atol, rtol in ((1e-24, 1e-9), (1e-6, 1e-3), (0.0, 1e-9)):
                    for mi in (0, 1, 3, 100):
                        if not ctx.take(f"{name}.{fr}.{x0}.{atol}.{rtol}.{mi}"):
                            continue
                        with ctx.guard("solver"):
                            if math.isinf(x0) and math.isinf(sup):
                                continue
                            r = solve(ctx, f, target, x0, 0.0, INF, sign, atol, rtol, mi,
                                      f"{name} target={target} x0={x0}")
                            if r is None:
                                continue
                            sol, w = r
                            ctx.state(name, fr, x0, bool(sol.converged), int(sol.n_iter))
                            if sol.converged and target > sup and abs(target - sup) > atol + rtol * target:
                                ctx.fail("converged to an unreachable target", name=name)
                            if mi == 3 and (atol, rtol) == (1e-24, 1e-9):
                                y = monotonic_newton_solver(
                                    np.array([x0]), plainly(f), target, atol=atol, rtol=rtol, max_iter=mi,
                                    x_l=0.0, x_u=INF)
                                if float(np.asarray(y).ravel()[0]) != float(np.asarray(sol.x).ravel()[0]):
                                    ctx.fail("full_return changes the result", name=name)


def plainly(f):
    def g(x):
        v, s = f(float(np.asarray(x).ravel()[0]))
        return np.float64(v), np.float64(s)
    return g


def sigmoid(x, k):
    e = math.exp(-min(abs(k * x), 300.0))
    v = 1 / (1 + e) if k * x > 0 else e / (1 + e)
    return v, k * e / (1 + e) ** 2


def brackets(ctx):
    """finite brackets, decreasing functions, values at the ends given"""
    fs = {
        "lin": (lambda x: (2 * x - 1, 2.0), 1),
        "dec": (lambda x: (5 - 2 * x, -2.0), -1),
        "cub": (lambda x: ((x - 1) ** 3 + x, 3 * (x - 1) ** 2 + 1), 1),
        "sig": (lambda x: sigmoid(x - 1.3, 9.0), 1),
        "dsig": (lambda x: sigmoid(x - 1.3, -9.0), -1),
    }
    for name, (f, sign) in fs.items():
        for lo, hi in ((-4.0, 4.0), (0.0, 3.0), (-INF, INF), (0.0, INF), (-INF, 5.0)):
            for xt in (0.2, 1.25, 2.9):
                target = f(xt)[0]
                if target < 0:
                    continue
                for x0 in (0.0, 0.5, 1.3, 3.0):
                    for ends in (False, True):
                        if not ctx.take(f"{name}.{lo}.{hi}.{xt}.{x0}.{ends}"):
                            continue
                        with ctx.guard("solver"):
                            if not ends and (math.isinf(lo) or math.isinf(hi)) and name not in (
                                    "sig", "dsig", "lin", "dec"):
                                continue
                            kw = {}
                            if ends:
                                if math.isinf(lo) or math.isinf(hi):
                                    continue
                                kw = {"f_l": f(lo)[0] - target, "f_u": f(hi)[0] - target}
                            g = f if not (math.isinf(lo) or math.isinf(hi)) else tame(f)
                            for mi in (2, 60):
                                r = solve(ctx, g, target, x0, lo, hi, sign, 1e-12, 1e-9, mi,
                                          f"{name} [{lo},{hi}] root={xt} x0={x0}", **kw)
                                if r is not None:
                                    ctx.state(name, lo, hi, xt, x0, bool(r[0].converged))


def tame(f):
    def g(x):
        if math.isinf(x):
            try:
                v = f(math.copysign(50.0, x))[0]
            except OverflowError:
                v = 0.0
            return v, 0.0
        if abs(x) > 50:
            return f(math.copysign(50.0, x))[0], 0.0
        return f(x)
    return g


def refused(ctx):
    """a starting point outside the interval is refused"""
    f = lambda x: (np.float64(3 * np.asarray(x).ravel()[0]), np.float64(3.0))
    for lo, hi, x0 in ((0.0, INF, -1.0), (0.0, 2.0, 3.0), (1.0, 2.0, 0.5), (-3.0, -1.0, 0.0)):
        if not ctx.take(f"{lo}.{hi}.{x0}"):
            continue
        with ctx.guard("solver"):
            ctx.run()
            ctx.raises("starting point outside the interval", monotonic_newton_solver,
                       np.array([x0]), f, 1.0, x_l=lo, x_u=hi)


SECTIONS = [
    ("adversary", adversary, ("interp",)),
    ("family", family, ("interp",)),
    ("brackets", brackets, ("interp",)),
    ("refused", refused, ("interp",)),
]
