"""C13 Answers of an ensemble do not depend on what was asked before."""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from mc import modelkit as mk
from mc.checks.c07 import VX, VY, MX, MY
from mc.checks.sampling import read_links
from mc.core import close, dense
from mc.rngctl import Source

P1 = np.array([1.5, -2.0, 4.0])
P2 = np.array([[1.0, 2.0], [3.0, 5.0], [7.0, 11.0]])
A1 = np.array([[0, 1, 0], [1, 0, 0], [1, 1, 0]])
AL = np.array([[0, 1, 0], [0, 1, 0], [1, 1, 0]])  # with a self-loop
S_OUT = np.array([3.0, 0.0, 2.0])
S_IN = np.array([1.0, 4.0, 0.0])

REFUSE = [
    ("expected_av_nn_property", dict(prop=P1, ndir="up", selfloops=True)),
    ("expected_av_nn_property", dict(prop=P1, ndir="up", selfloops=False)),
    ("expected_av_nn_property", dict(prop=np.ones(4), selfloops=True)),
    ("expected_av_nn_property", dict(prop=np.ones(4), selfloops=False)),
    ("expected_av_nn_degree", dict(ndir="up", selfloops=True)),
    ("expected_av_nn_degree", dict(ndir="up", selfloops=False)),
    ("expected_av_nn_degree", dict(ddir="up", selfloops=True)),
    ("expected_av_nn_degree", dict(ddir="up", selfloops=False)),
    ("log_likelihood", dict(g=np.zeros((4, 4)))),
    ("log_likelihood", dict(g="a graph")),
    ("sample", dict(weights="none such")),
]
REFUSE_FIT = [("fit", dict(method="mle")), ("fit", dict(x0=-1.0))]


def menu(kind):
    names = ["expected_num_edges", "expected_degree", "expected_out_degree", "expected_in_degree"]
    if kind in mk.MULTI:
        names += ["expected_num_edges_label", "expected_degree_by_label",
                  "expected_out_degree_by_label", "expected_in_degree_by_label"]
    q = []
    for x in names:
        q.append(("q", x, {}))
        q.append(("q", x, {"recompute": True}))
    if kind == "random":
        q.append(("q", "expected_total_weight", {}))
    for sl in (False, True):
        for nd in ("out", "in", "out-in"):
            q.append(("q", "expected_av_nn_property", dict(prop=P1, ndir=nd, selfloops=sl)))
            for dd in ("out", "in", "out-in"):
                if nd == "out" or dd == "in" or (nd, dd) == ("out-in", "out-in"):
                    q.append(("q", "expected_av_nn_degree", dict(ndir=nd, ddir=dd, selfloops=sl)))
        q.append(("q", "expected_av_nn_property", dict(prop=P2, ndir="in", selfloops=sl,
                                                       deg_recompute=True)))
        q.append(("q", "expected_av_nn_degree", dict(ndir="in", ddir="out", selfloops=sl,
                                                     recompute=True)))
        q.append(("q", "expected_av_nn_degree", dict(ndir="out", ddir="in", selfloops=sl,
                                                     deg_recompute=True)))
    q.append(("q", "expected_av_nn_degree", dict(ndir="out", ddir="out", selfloops=None)))
    q.append(("q", "expected_av_nn_property", dict(prop=P1, ndir="out-in", selfloops=None)))
    for sl in (None, True, False):
        q.append(("q", "log_likelihood", dict(g=AL, selfloops=sl)))
        q.append(("q", "sample", dict(selfloops=sl)))
    q.append(("q", "log_likelihood", dict(g=sp.csr_array(A1))))
    if kind in mk.MULTI:
        q.append(("q", "log_likelihood", dict(g=[sp.csr_array(A1), sp.csr_array(A1.T)])))
    q.append(("q", "sample", dict(weights="cremb", out_strength="S", in_strength="S")))
    for x, k in REFUSE:
        q.append(("r", x, k))
    if kind != "random":
        for x, k in REFUSE_FIT:
            q.append(("r", x, k))
    q.append(("fit", "A", {}))
    q.append(("fit", "B", {}))
    q.append(("set", "A", {}))
    return q


def core_menu(kind, q):
    """a smaller menu for deeper histories: one of each stored result, the
    queries that switch the self-loop option, refusals and fits"""
    want = {"expected_num_edges()", "expected_degree()", "expected_out_degree()",
            "expected_num_edges_label()", "expected_in_degree_by_label()", "expected_degree_by_label()",
            "expected_av_nn_property(ndir=out,prop=P1,selfloops=False)",
            "expected_av_nn_property(ndir=out-in,prop=P1,selfloops=True)",
            "expected_av_nn_degree(ddir=out,ndir=out,selfloops=False)",
            "expected_av_nn_degree(ddir=out,ndir=out,selfloops=True)",
            "expected_av_nn_degree(ndir=up,selfloops=True)", "log_likelihood(g=A2,selfloops=None)",
            "fit A()", "fit B()", "set A()", "expected_in_degree_by_label(recompute=True)",
            "expected_in_degree(recompute=True)", "sample(selfloops=True)"}
    return [i for i, x in enumerate(q) if label(x) in want]


def label(q):
    t, n, k = q
    f = lambda a, b: ("P%d" % b.ndim if a == "prop" else "A%d" % b.ndim if hasattr(b, "ndim")
                      else "list" if isinstance(b, list) else str(b))
    return (t + " " if t in ("fit", "set") else "") + n + "(" + ",".join(
        f"{a}={f(a, b)}" for a, b in sorted(k.items())) + ")"


def spec(kind, loops, per=False):
    if kind == "random":
        return mk.Spec("random", 3, param=0.35, loops=loops, q=0.8)
    if kind in mk.MULTI:
        X = MX[:3, :2] * np.array([[1, 1], [0, 1], [1, 0]])
        Y = MY[:3, :2] * np.array([[0, 1], [1, 1], [1, 1]])
        return mk.Spec(kind, 3, X, Y, [0.4, 1.3], loops, 2)
    return mk.Spec(kind, 3, VX[:3], [0.0, 0.25, 1.1], 0.7, loops)


TARGET = {"A": 1.25, "B": 2.5}


def fresh(back, s, per, param=None):
    kw = s.kwargs()
    if param is not None:
        kw["param"] = np.array(param, float)
    kw["num_edges"] = 1.0
    if s.kind == "random":
        kw["total_weight"] = 5.0
    if s.multi:
        kw["per_label"] = per
        if per:
            kw.pop("num_edges")
            kw["num_edges_label"] = np.array([0.5, 0.5])
    return mk.build(back, s.kind, **kw)


def do_fit(m, s, per, name):
    t = TARGET[name]
    if per:
        m.num_edges_label = np.array([t * 0.4, t * 0.6])
    else:
        m.num_edges = t
    m.fit()


def args(s, kw):
    kw = dict(kw)
    if kw.get("out_strength") is not None:
        if s.multi:
            kw.pop("out_strength"), kw.pop("in_strength")
            kw["out_strength_label"] = sp.csr_array(np.array([S_OUT, S_OUT[::-1]]).T)
            kw["in_strength_label"] = sp.csr_array(np.array([S_IN, S_IN[::-1]]).T)
        else:
            kw["out_strength"], kw["in_strength"] = S_OUT.copy(), S_IN.copy()
    return kw


def ask(ctx, m, s, name, kw):
    ctx.op()
    kw = args(s, kw)
    if name != "sample":
        return getattr(m, name)(**kw)
    if ctx.jit:
        np.random.seed(0)
        m.sample(**kw)
        return 0.0
    n = [0]

    def script(k):
        n[0] += 1
        return (n[0] * n[0] // 3) % k

    with Source(script):
        g = m.sample(**kw)
    b, w = read_links(g, s)
    return np.concatenate([b.ravel().astype(float), w.ravel()])


def snap(m):
    """what identifies the model: everything it was built with"""
    r = {}
    for a in ("num_vertices", "num_labels", "selfloops", "per_label", "num_edges_label",
              "num_edges", "total_weight", "discrete_weights", "param"):
        if hasattr(m, a):
            r[a] = str(np.asarray(getattr(m, a)).tolist())
    for a in ("prop_out", "prop_in"):
        r[a] = str(_plain(getattr(m, a, None)))
    return r


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if hasattr(x, "toarray"):
        return x.toarray().tolist()
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    return type(x).__name__ if not isinstance(x, (int, float)) else x


class Answers:
    """answer of a fresh model with this parameter to each query alone"""

    def __init__(self, ctx, back, s, per, q, param):
        self.args = ctx, back, s, per
        self.q, self.param, self.got = q, param, {}

    def __getitem__(self, i):
        if i not in self.got:
            ctx, back, s, per = self.args
            _, name, kw = self.q[i]
            m = fresh(back, s, per, self.param)
            self.got[i] = np.array(dense(ask(ctx, m, s, name, kw)), float)
        return self.got[i]


class System:
    """one model with its parameters before and after each fit"""

    def __init__(self, ctx, back, s, per, q=None):
        self.q = menu(s.kind) if q is None else q
        self.back, self.s, self.per = back, s, per
        self.par = {0: None}
        for f in TARGET:
            m = fresh(back, s, per)
            do_fit(m, s, per, f)
            self.par[f] = np.array(m.param, float)
        self.alone = {k: Answers(ctx, back, s, per, self.q, p) for k, p in self.par.items()}

    def walk(self, ctx, hist):
        q, s = self.q, self.s
        m = fresh(self.back, s, self.per)
        at = 0
        kept = []
        dirty = False
        names = [label(q[i]) for i in hist]
        ctx.run()
        for i in hist:
            t, name, kw = q[i]
            if t == "set":
                # parameters changed by hand: stored results may be returned
                # unless recomputation is asked for
                m.param = self.par[name].copy()
                at, dirty, kept = name, True, []
                continue
            if t == "fit":
                ctx.op()
                dirty = False
                do_fit(m, s, self.per, name)
                at = name
                if not close(np.asarray(m.param, float), self.par[at], 1e-12):
                    ctx.fail("result of fit depends on history", history=names,
                             got=m.param, want=self.par[at])
                kept = []  # earlier answers were given for other parameters
                continue
            before = snap(m)
            if t == "r":
                ctx.raises(label(q[i]), getattr(m, name), **args(s, kw))
            else:
                r = ask(ctx, m, s, name, kw)
                got = np.array(dense(r), float)
                w = self.alone[at][i]
                if dirty and not now(name, kw):
                    continue
                if got.shape != w.shape or not close(got, w, 1e-9, 1e-12):
                    ctx.fail("answer to %s depends on history" % label(q[i]),
                             history=names, got=got, want=w, spec=s.key())
                kept.append((i, r))
            if snap(m) != before:
                d = {k: (before[k], v) for k, v in snap(m).items() if before[k] != v}
                ctx.fail("%s changed the model" % label(q[i]), history=names, changed=d)
        for i, r in kept:
            if not close(np.array(dense(r), float), self.alone[at][i], 1e-9, 1e-12):
                ctx.fail("answer to %s changed after it was given" % label(q[i]), history=names)
        ctx.state(s.kind, self.back, sorted(k for k in vars(m) if k.startswith(("_exp", "exp"))), at)


def now(name, kw):
    """does this query promise not to use stored results?"""
    if name in ("log_likelihood", "sample", "expected_total_weight"):
        return True
    if name.startswith("expected_av"):
        return kw.get("deg_recompute", False)
    return kw.get("recompute", False)


def systems(ctx):
    for back in mk.BACKS:
        for kind in mk.KINDS:
            for per in (False, True) if kind in mk.MULTI else (False,):
                for loops in (False, True):
                    yield back, kind, per, loops


def histories(ctx):
    for back, kind, per, loops in systems(ctx):
        if ctx.jit and (loops or per):
            continue
        if per and not ctx.thorough and loops:
            continue
        sysm = None
        q = menu(kind)
        core = core_menu(kind, q)
        for i0 in range(len(q)):
            key = f"{back}.{kind}.{int(per)}.{int(loops)}.{label(q[i0])}"
            if not ctx.take(key, group=back + kind):
                continue
            with ctx.guard("history"):
                if sysm is None:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        sysm = System(ctx, back, mk_spec(kind, loops), per)
                if ctx.jit:
                    second = core + [i for i in range(len(q)) if i % 4 == i0 % 4]
                elif ctx.thorough or not per:
                    second = range(len(q))
                else:
                    second = [i for i in range(len(q)) if "label" in label(q[i]) or i in core]
                for i1 in second:
                    sysm.walk(ctx, (i0, i1))


def mk_spec(kind, loops):
    return spec(kind, loops)


def deep(ctx):
    """longer histories over the core menu"""
    depth = 4 if ctx.thorough else 3
    for back, kind, per, loops in systems(ctx):
        if per and not ctx.thorough:
            continue
        sysm = None
        q = menu(kind)
        core = core_menu(kind, q)
        for i0 in core:
            if not ctx.take(f"{back}.{kind}.{int(per)}.{int(loops)}.{label(q[i0])}"):
                continue
            with ctx.guard("history"):
                if sysm is None:
                    sysm = System(ctx, back, spec(kind, loops), per)
                for tail in itertools.product(core, repeat=depth - 1):
                    sysm.walk(ctx, (i0,) + tail)


def fresh_queries(kind):
    """every query that is told not to rely on stored results"""
    q = [x for x in menu(kind) if x[0] == "q" and x[2].get("recompute") and "av_nn" not in x[1]]
    for sl in (False, True, None):
        for nd in ("out", "in", "out-in"):
            q.append(("q", "expected_av_nn_property", dict(prop=P1, ndir=nd, selfloops=sl,
                                                           deg_recompute=True)))
            for dd in ("out", "in", "out-in"):
                q.append(("q", "expected_av_nn_degree", dict(
                    ndir=nd, ddir=dd, selfloops=sl, deg_recompute=True)))
                q.append(("q", "expected_av_nn_degree", dict(
                    ndir=nd, ddir=dd, selfloops=sl, deg_recompute=True, recompute=True)))
    return q


def recompute(ctx):
    """parameters changed by hand after a stored answer: a query that asks to
    recompute gives the value for the new parameters"""
    for back, kind, per, loops in systems(ctx):
        if ctx.jit and (loops or per):
            continue
        base = [x for x in menu(kind) if x[0] == "q" and not x[2].get("recompute")
                and not x[2].get("deg_recompute")]
        again = fresh_queries(kind)
        q = base + again + [("set", "A", {})]
        sysm = None
        for i in range(len(base), len(q) - 1):
            key = f"{back}.{kind}.{int(per)}.{int(loops)}.{label(q[i])}"
            if not ctx.take(key, group=back + kind):
                continue
            with ctx.guard("recompute"):
                if sysm is None:
                    sysm = System(ctx, back, spec(kind, loops), per, q)
                last = len(q) - 1
                sysm.walk(ctx, tuple(range(len(base))) + (last, i))
                sysm.walk(ctx, (i, last, i))
                if ctx.jit or (per and not ctx.thorough):
                    continue
                for j in range(len(base)):
                    if ctx.thorough or q[j][1] == q[i][1] or ("av_nn" not in q[i][1] and "degree" in q[j][1]):
                        sysm.walk(ctx, (j, last, i))


def sharing(ctx):
    """two models never share what they were asked, and models do not change
    the arrays they were built from"""
    for back, kind, per, loops in systems(ctx):
        if not ctx.take(f"{back}.{kind}.{int(per)}.{int(loops)}"):
            continue
        with ctx.guard("sharing"):
            s = spec(kind, loops)
            kw = s.kwargs()
            kept = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
            kw["num_edges"] = 1.0
            if s.multi:
                kw["per_label"] = per
                if per:
                    kw["num_edges_label"] = kept["num_edges_label"] = np.array([0.5, 0.5])
                    kept["num_edges_label"] = kw["num_edges_label"].copy()
            a = mk.build(back, kind, **kw)
            b = mk.build(back, kind, **kw)
            q = menu(kind)
            ref = [None if t != "q" else np.array(dense(ask(ctx, fresh(back, s, per), s, n, k)), float)
                   if "total_weight" not in n else None for t, n, k in q]
            do_fit(a, s, per, "B")
            for i, (t, n, k) in enumerate(q):
                ctx.run()
                if t != "q" or "total_weight" in n:
                    continue
                ask(ctx, a, s, n, k)
                got = np.array(dense(ask(ctx, b, s, n, k)), float)
                if not close(got, ref[i], 1e-9, 1e-12):
                    ctx.fail("a query on one model changed another", query=label(q[i]))
            for k, v in kept.items():
                if not np.array_equal(kw[k], v):
                    ctx.fail("model changed its input", name=k)


SECTIONS = [("histories", histories, ("interp", "jit")), ("recompute", recompute, ("interp", "jit")), ("deep", deep, ("interp",)),
            ("sharing", sharing, ("interp",))]
