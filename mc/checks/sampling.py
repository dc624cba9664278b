"""Exact distribution of what sample() returns, by exploring the random source."""
import numpy as np

from mc import modelkit as mk
from mc.core import Unsupported, explore
from mc.rngctl import Source


def read_links(g, s):
    """(links, weights) of a sampled graph through its public adjacency"""
    if s.multi:
        w = [np.asarray(_d(a), float) for a in g.adjacency_tensor(directed=True, weighted=True)]
        b = [np.asarray(_d(a)) != 0 for a in g.adjacency_tensor(directed=True, weighted=False)]
        return np.array(b).reshape(s.L, s.n, s.n), np.array(w).reshape(s.L, s.n, s.n)
    w = np.asarray(_d(g.adjacency_matrix(directed=True, weighted=True)), float)
    b = np.asarray(_d(g.adjacency_matrix(directed=True, weighted=False))) != 0
    return b[None], w[None]


def _d(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a)


class Rejected(Exception):
    pass


def distribution(ctx, make, s, factor=lambda n: 1.0, visit=None, **kw):
    """dict: link pattern (tuple) -> probability, over every random outcome.

    ``make()`` returns the model; a fresh one is used for every execution so
    that executions are independent.  Returns None after a reported failure.
    """
    dist = {}
    total = 0.0

    def run(ch):
        m = make()
        with Source(ch, factor) as src:
            ctx.op()
            g = m.sample(**kw)
        return g, src

    limit = 300000
    for (g, src), ch in explore(run, limit):
        ctx.run()
        b, w = read_links(g, s)
        key = tuple(b.astype(int).ravel().tolist())
        dist[key] = dist.get(key, 0.0) + src.weight
        total += src.weight
        if visit is not None:
            visit(g, b, w, src)
    if ctx.executions and abs(total - 1) > 1e-9:
        raise Unsupported("random outcomes do not add up to one (%g)" % total)
    return dist


def exact(s, loops=None):
    """dict: link pattern -> probability according to the law"""
    p, q = s.tab()[0], s.tab()[1]
    m = s.allowed(loops)
    cells = list(np.ndindex(s.L, s.n, s.n))
    out = {(): 1.0}
    for c in cells:
        pc, qc = (p[c], q[c]) if m[c[1], c[2]] else (0.0, 1.0)
        nxt = {}
        for k, v in out.items():
            if pc > 0:
                nxt[k + (1,)] = v * pc
            if qc > 0:
                nxt[k + (0,)] = v * qc
        out = nxt
    return out


def compare(ctx, what, got, want, **info):
    """two finite distributions over link patterns"""
    bad = 0.0
    worst = None
    for k in set(got) | set(want):
        d = abs(got.get(k, 0.0) - want.get(k, 0.0))
        if d > bad:
            bad, worst = d, k
    if bad > 1e-9:
        ctx.fail(what, pattern=worst, got=got.get(worst, 0.0), want=want.get(worst, 0.0), **info)
        return False
    extra = [k for k in got if k not in want and (got[k] > 1e-15 or got[k] == 0)]
    if extra:
        ctx.fail("impossible graph sampled", pattern=extra[0], **info)
        return False
    return True


class LogSource(Source):
    """records the logarithm of the probability of the path"""

    logw = 0.0

    def branch(self, p):
        if p <= 0:
            return False
        if p >= 1:
            return True
        c = self.chooser(2)
        self.logw += np.log(p) if c == 0 else np.log1p(-p)
        return c == 0


    def least(self):
        return False


class Deviation:
    """every choice alike, except the one with the given number"""

    def __init__(self, base, flip=None):
        self.base, self.flip, self.count = base, flip, 0

    def __call__(self, n):
        k = self.count
        self.count += 1
        return 1 - self.base if k == self.flip else self.base


def deviations(ctx, make, s, what, factor=lambda n: 1.0, visit=None, most=160, loops=None, **kw):
    """Executions with at most one random outcome differing from all the others.

    A path can only be as likely as the graph it leads to; as the paths that
    split at one draw share the rest of their probability, a draw that is too
    unlikely on one side is too likely on the other.
    """
    for base in (0, 1):
        flips, k = [None], 0
        while k < len(flips):
            ch = Deviation(base, flips[k])
            m = make()
            with LogSource(ch, factor) as src:
                ctx.op()
                g = m.sample(**kw)
            ctx.run()
            if k == 0:
                step = max(1, -(-ch.count // most))
                flips += list(range(0, ch.count, step))
                if ch.count and (ch.count - 1) % step:
                    flips.append(ch.count - 1)
            b, w = read_links(g, s)
            want = s.loglik(b if s.multi else b[0], loops)
            if src.logw > want + 1e-7:
                ctx.fail(what + ": outcome too likely", links=int(b.sum()), got=src.logw,
                         want=want, deviation=(base, flips[k]),
                         odd=np.argwhere(b != (base == 0))[:4].tolist())
                return
            if visit is not None:
                visit(g, b, w, src)
            ctx.state(s.kind, s.n, s.L, s.loops, b.sum(), base)
            k += 1
