"""The random source under the control of the explorer.

``install()`` replaces the entry points of numpy.random (and random) by
dispatchers, before the package is imported.  Outside a controlled run they
call the originals.  Inside one (``with Source(chooser) as src``) a uniform
variate is a *lazy* value: an interval of [0,1) that is split only when the
code under test compares it, each comparison being a choice of the explorer
whose probability is the length of the chosen part.  Exploring every choice
sequence therefore gives the exact distribution of whatever the code computes
from comparisons of uniforms, with no sampling.

Weights (exponential, geometric, ...) are numbers: the n-th draw returns
scale * factor(n) and is recorded, so that the value put on a link identifies
the draw and its scale.

Anything else raises Unsupported, which is not a verdict on the code.
"""
import functools
import math
import numbers
import random as _pyrandom

import numpy as np
import numpy.random as nr

from mc.core import Unsupported

_ORIG = {}
_CUR = []

NAMES = [
    "random", "rand", "random_sample", "ranf", "sample", "uniform", "binomial",
    "exponential", "standard_exponential", "geometric", "choice", "randint",
    "default_rng", "gamma", "standard_gamma", "poisson", "normal",
    "standard_normal", "randn", "beta", "lognormal", "negative_binomial",
    "permutation", "shuffle", "multinomial", "pareto", "weibull", "power",
    "logistic", "laplace", "gumbel", "triangular", "integers", "bytes",
    "seed", "RandomState", "Generator", "multivariate_normal", "random_integers",
]


def install():
    for name in NAMES:
        if hasattr(nr, name) and name not in _ORIG:
            _ORIG[name] = getattr(nr, name)
            setattr(nr, name, _dispatch(name, _ORIG[name]))
    for name in ("random", "uniform", "expovariate", "randint", "choice", "randrange",
                 "getrandbits", "sample", "shuffle", "gauss"):
        k = "py." + name
        _ORIG[k] = getattr(_pyrandom, name)
        setattr(_pyrandom, name, _dispatch(k, _ORIG[k]))


def _dispatch(name, orig):
    if isinstance(orig, type):
        # stays a class for isinstance checks of other libraries
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, orig)

            def __subclasscheck__(cls, x):
                return issubclass(x, orig)

            def __call__(cls, *a, **k):
                return Gen(_CUR[-1]) if _CUR else orig(*a, **k)

        return Meta(orig.__name__, (), {})

    @functools.wraps(orig)
    def f(*a, **k):
        if not _CUR:
            return orig(*a, **k)
        return _CUR[-1].draw(name, a, k)

    return f


class Source:
    def __init__(self, chooser, factor=lambda n: 1.0):
        self.chooser = chooser
        self.weight = 1.0
        self.draws = []  # (kind, scale, value)
        self.factor = factor
        self.uniforms = 0

    def __enter__(self):
        if not _ORIG:
            raise Unsupported("random source not installed")
        _CUR.append(self)
        return self

    def __exit__(self, *a):
        _CUR.pop()

    # -- draws -----------------------------------------------------------
    def uniform(self):
        self.uniforms += 1
        return U(self, Cell(), 1.0, 0.0)

    def branch(self, p):
        """True with probability p"""
        if p <= 0:
            return False
        if p >= 1:
            return True
        c = self.chooser(2)
        self.weight *= p if c == 0 else 1 - p
        return c == 0

    def least(self):
        """does the generator return exactly zero?  Possible, of no weight"""
        if self.chooser(2) == 0:
            return False
        self.weight = 0.0
        return True

    def weight_draw(self, kind, scale, size=None):
        if size is not None:
            return _fill(size, lambda idx: self.weight_draw(
                kind, np.broadcast_to(scale, size if isinstance(size, tuple) else (size,))[idx]))
        if np.ndim(scale):
            return _fill(np.shape(scale), lambda idx: self.weight_draw(kind, np.asarray(scale)[idx]))
        scale = float(scale)
        n = len(self.draws)
        if kind == "geometric":
            v = int(round(self.factor(n) * 1000)) + 1
        else:
            if math.isnan(scale) or scale < 0:
                raise ValueError("scale < 0")
            v = scale * self.factor(n)
        self.draws.append((kind, scale, v))
        return v

    def draw(self, name, a, k):
        if name.startswith("py."):
            name = name[3:]
            if name == "expovariate":
                return self.weight_draw("exponential", 1 / float(a[0]))
        if name in ("random", "random_sample", "ranf", "sample"):
            size = k.get("size", a[0] if a else None)
            return self.many(size)
        if name == "rand":
            return self.many(tuple(a) if a else None)
        if name == "uniform":
            lo = k.get("low", a[0] if a else 0.0)
            hi = k.get("high", a[1] if len(a) > 1 else 1.0)
            size = k.get("size", a[2] if len(a) > 2 else None)
            return self.many(size) * (hi - lo) + lo
        if name == "binomial":
            n = k.get("n", a[0] if a else 1)
            p = k.get("p", a[1] if len(a) > 1 else None)
            size = k.get("size", a[2] if len(a) > 2 else None)
            if size is None and np.ndim(p) == 0 and np.ndim(n) == 0:
                return sum(self.branch(float(p)) for _ in range(int(n)))
            sh = size if size is not None else np.broadcast(n, p).shape
            sh = sh if isinstance(sh, tuple) else (int(sh),)
            pp, nn = np.broadcast_to(p, sh), np.broadcast_to(n, sh)
            out = np.zeros(sh, dtype=int)
            for idx in np.ndindex(*sh):
                out[idx] = sum(self.branch(float(pp[idx])) for _ in range(int(nn[idx])))
            return out
        if name == "exponential":
            return self.weight_draw("exponential", k.get("scale", a[0] if a else 1.0),
                                    k.get("size", a[1] if len(a) > 1 else None))
        if name == "standard_exponential":
            return self.weight_draw("exponential", 1.0, k.get("size", a[0] if a else None))
        if name == "gamma":
            sh = k.get("shape", a[0] if a else None)
            if sh != 1:
                raise Unsupported("random.gamma with shape other than 1")
            return self.weight_draw("exponential", k.get("scale", a[1] if len(a) > 1 else 1.0),
                                    k.get("size", a[2] if len(a) > 2 else None))
        if name == "geometric":
            return self.weight_draw("geometric", k.get("p", a[0] if a else None),
                                    k.get("size", a[1] if len(a) > 1 else None))
        if name in ("default_rng", "RandomState", "Generator"):
            return Gen(self)
        if name == "seed":
            return None
        raise Unsupported("random." + name)

    def many(self, size):
        if size is None:
            return self.uniform()
        return _fill(size, lambda idx: self.uniform(), object)


def _fill(size, f, dtype=float):
    sh = size if isinstance(size, tuple) else (int(size),)
    out = np.empty(sh, dtype=dtype)
    for idx in np.ndindex(*sh):
        out[idx] = f(idx)
    return out


class Gen:
    """a numpy Generator / RandomState served by the source"""

    def __init__(self, src):
        self._src = src

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "random":
            return lambda size=None, **k: self._src.many(size)
        return lambda *a, **k: self._src.draw(name, a, k)


class Cell:
    def __init__(self):
        self.lo, self.hi = 0.0, 1.0


class U:
    """a*u + b with u uniform on a lazily split interval"""

    __array_priority__ = 1000

    def __init__(self, src, cell, a, b):
        self.src, self.cell, self.a, self.b = src, cell, a, b

    def _point(self, v):
        if isinstance(v, U):
            raise Unsupported("comparison of two random variates")
        return (float(v) - self.b) / self.a

    def _below(self, v, closed=False):
        """is a*u + b < v (closed: <= v) ?"""
        t = self._point(v)
        if self.a < 0:
            return not self._split(self.cell, t, not closed)
        return self._split(self.cell, t, closed)

    def _split(self, c, v, closed):
        """is u < v (closed: u <= v) ?"""
        if math.isnan(v):
            return False
        if closed and v == c.lo == 0.0:
            # the least value of the generator: possible, with no weight
            if self.src.least():
                c.hi = c.lo
                return True
            return False
        if v <= c.lo:
            return False
        if v >= c.hi:
            return True
        r = self.src.branch((v - c.lo) / (c.hi - c.lo))
        if r:
            c.hi = v
        else:
            c.lo = v
        return r

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return _fill(o.shape, lambda i: f(o[i]), bool)
        return f(o)

    def __lt__(self, o):
        return self._cmp(o, lambda v: v == v and self._below(v))

    def __le__(self, o):
        return self._cmp(o, lambda v: v == v and self._below(v, True))

    def __gt__(self, o):
        return self._cmp(o, lambda v: v == v and not self._below(v, True))

    def __ge__(self, o):
        return self._cmp(o, lambda v: v == v and not self._below(v))

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = object.__hash__

    def _num(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if not isinstance(o, numbers.Real):
            raise Unsupported("arithmetic on a random variate")
        return float(o)

    def __add__(self, o):
        return U(self.src, self.cell, self.a, self.b + self._num(o))

    __radd__ = __add__

    def __sub__(self, o):
        return U(self.src, self.cell, self.a, self.b - self._num(o))

    def __rsub__(self, o):
        return U(self.src, self.cell, -self.a, self._num(o) - self.b)

    def __neg__(self):
        return U(self.src, self.cell, -self.a, -self.b)

    def __mul__(self, o):
        o = self._num(o)
        if o == 0:
            return 0.0
        return U(self.src, self.cell, self.a * o, self.b * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / self._num(o))

    def __float__(self):
        raise Unsupported("value of a random variate")

    __int__ = __index__ = __bool__ = __float__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("random variate ." + name)
