"""Exploration core: work sharing, counting, violation recording.

A *section* is a generator-free function ``section(ctx)`` which enumerates a
finite space completely.  Every element of the space is a *case* with a stable
string key.  ``ctx.take(key)`` says whether this worker explores that case
(cases are split between worker processes; the union over the workers is the
whole space).  In replay mode only the case with the recorded key is taken.

Counting convention (used in every evidence file)
  executions   complete runs of the closed system (one input / history /
               schedule / RNG outcome path each)
  transitions  calls into the real code made while exploring
  states       distinct canonical observations (hashed) reached
"""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np


class Unsupported(Exception):
    """The code under test used an environment call the harness lacks."""


class StopExploration(Exception):
    """Enough violations were collected in this worker."""


class Ctx:
    MAX_VIOL = 6

    def __init__(self, check, tier, mode, shard=0, nshards=1, only=None, seed=1):
        self.check = check
        self.tier = tier
        self.mode = mode
        self.shard = shard
        self.nshards = nshards
        self.only = only
        self.seed = seed
        self.section = ""
        self.key = ""
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.cases = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.inconclusive = []
        self.per_section = {}
        self._seen_sig = {}
        self._groups = {}

    # -- enumeration ------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def jit(self):
        return self.mode == "jit"

    def take(self, key, group=None):
        """Does this worker explore the case with this key?"""
        key = str(key)
        if self.only is not None:
            ok = key == self.only
        else:
            if self.jit and group is not None:
                # one worker compiles what a group needs
                ok = self._groups.setdefault(str(group), len(self._groups))
            else:
                ok = zlib.crc32((self.section + "|" + key).encode())
            ok %= self.nshards
            ok = ok == self.shard
        if ok:
            self.key = key
            self.cases += 1
            s = self.per_section.setdefault(self.section, [0, 0])
            s[0] += 1
        return ok

    # -- counting ---------------------------------------------------------
    def run(self, n=1):
        self.executions += n
        self.per_section.setdefault(self.section, [0, 0])[1] += n

    def op(self, n=1):
        self.transitions += n

    def state(self, *obj):
        h = hashlib.blake2b(repr(canon(obj)).encode(), digest_size=8).digest()
        self.states.add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- verdicts ---------------------------------------------------------
    def fail(self, what, **detail):
        """Record a violation. ``what`` is a short stable signature."""
        sig = self.section + ":" + what
        n = self._seen_sig.get(sig, 0)
        self._seen_sig[sig] = n + 1
        if n >= 3:
            return
        self.violations.append(
            {
                "property": self.check,
                "section": self.section,
                "key": self.key,
                "mode": self.mode,
                "tier": self.tier,
                "what": what,
                "detail": jsonable(detail),
            }
        )
        if len(self._seen_sig) > 40:
            raise StopExploration()

    @contextlib.contextmanager
    def guard(self, what="case"):
        """Explore one case; anything unexpected is an observation about the
        code under test, because the harness never raises on the reference
        tree.  Only a limitation of the harness is inconclusive."""
        try:
            yield
        except (StopExploration, KeyboardInterrupt):
            raise
        except Unsupported as err:
            self.inconclusive.append("%s: %s" % (self.section, err))
        except Exception as err:  # noqa: BLE001
            self.fail(
                what + " raised " + type(err).__name__,
                error=str(err)[:300],
                where=tb_tail(err, 4),
            )

    def call(self, what, fn, *a, **k):
        """Call real code which must not raise; returns (ok, value)."""
        self.op()
        try:
            return True, fn(*a, **k)
        except Unsupported:
            raise
        except Exception as err:  # noqa: BLE001 - code under test
            self.fail(
                what + " raised " + type(err).__name__,
                error=str(err)[:300],
                where=tb_tail(err),
            )
            return False, None

    def raises(self, what, fn, *a, **k):
        """Call real code which must reject its input."""
        self.op()
        try:
            r = fn(*a, **k)
        except Unsupported:
            raise
        except Exception:
            return True
        self.fail(what + " was accepted", result=repr(r)[:200])
        return False

    def same(self, what, got, want, rtol=1e-9, atol=1e-12, **detail):
        """Compare a result of the real code with the reference model."""
        try:
            g = dense(got)
        except Exception as err:  # noqa: BLE001
            self.fail(what + " not an array", got=repr(got)[:200], err=str(err))
            return False
        w = dense(want)
        if g.shape != w.shape:
            self.fail(
                what + " shape", got=str(g.shape), want=str(w.shape), **detail
            )
            return False
        if not close(g, w, rtol, atol):
            self.fail(what, got=g.tolist(), want=w.tolist(), **detail)
            return False
        return True

    def dump(self):
        return {
            "executions": self.executions,
            "transitions": self.transitions,
            "states": sorted(x.hex() for x in self.states),
            "cases": self.cases,
            "samples": self.samples,
            "violations": self.violations,
            "notes": self.notes,
            "inconclusive": self.inconclusive,
            "per_section": self.per_section,
            "sigs": self._seen_sig,
        }


def tb_tail(err, n=3):
    fr = traceback.extract_tb(err.__traceback__)[-n:]
    return [f"{os.path.basename(f.filename)}:{f.name}" for f in fr]


def dense(x):
    """Canonical dense ndarray of a result, whatever container it came in.

    A list of matrices (an adjacency tensor) becomes a 3d array.
    """
    if isinstance(x, (list, tuple)):
        if len(x) and (hasattr(x[0], "toarray") or getattr(x[0], "ndim", 0) == 2):
            return np.array([dense(y) for y in x])
        return np.asarray(x)
    if hasattr(x, "toarray"):
        x = x.toarray()
    x = np.asarray(x)
    if x.dtype == bool:
        x = x.astype(np.int64)
    return x


def close(g, w, rtol=1e-9, atol=1e-12):
    g = np.asarray(g, dtype=np.float64)
    w = np.asarray(w, dtype=np.float64)
    if g.shape != w.shape:
        return False
    nan = np.isnan(g) | np.isnan(w)
    if nan.any() and not (np.isnan(g) == np.isnan(w)).all():
        return False
    inf = np.isinf(g) | np.isinf(w)
    m = ~(nan | inf)
    if not (g[inf] == w[inf]).all():
        return False
    return bool(np.all(np.abs(g[m] - w[m]) <= atol + rtol * np.abs(w[m])))


def canon(o):
    if isinstance(o, (list, tuple)):
        return tuple(canon(x) for x in o)
    if isinstance(o, dict):
        return tuple(sorted((repr(k), canon(v)) for k, v in o.items()))
    if hasattr(o, "toarray"):
        o = o.toarray()
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "f":
            return (o.shape, tuple(float("%.9g" % x) for x in o.ravel()))
        return (o.shape, tuple(o.ravel().tolist()))
    if isinstance(o, np.generic):
        o = o.item()
    if isinstance(o, float):
        return float("%.9g" % o)
    return o


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in o]
    if hasattr(o, "toarray"):
        return jsonable(o.toarray())
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return repr(o)
        return o
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:300]


def explore(run, max_exec=None):
    """Stateless depth-first exploration of every choice sequence.

    ``run(chooser)`` is executed once per complete choice sequence;
    ``chooser(n, info)`` returns an integer in range(n).  Yields
    (result, trace) for each complete execution.  Divergence while replaying a
    prefix is a hard error.
    """
    prefix = []
    count = 0
    while True:
        ch = Chooser(prefix)
        res = run(ch)
        count += 1
        yield res, ch
        if max_exec is not None and count >= max_exec:
            return
        tr = ch.trace
        arity = ch.arity
        k = len(tr) - 1
        while k >= 0 and tr[k] + 1 >= arity[k]:
            k -= 1
        if k < 0:
            return
        prefix = [(tr[i], arity[i]) for i in range(k)] + [(tr[k] + 1, arity[k])]


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.arity = []

    def __call__(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            c, a = self.prefix[i]
            if a != n:
                raise RuntimeError(
                    "nondeterminism: replay diverged at choice %d (%d vs %d)"
                    % (i, a, n)
                )
        else:
            c = 0
        self.trace.append(c)
        self.arity.append(n)
        return c
