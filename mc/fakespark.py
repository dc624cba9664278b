"""An in-process SparkContext whose schedule is controlled by the checker.

It runs the real model code: the functions given to map/fold/collect are the
repository's own closures.  What it replaces is the cluster: partition layout,
the order in which partition results reach the driver, how they are grouped
into partial folds, and task re-execution are decided by a policy object.

Semantics follow pyspark's RDD (python/pyspark/rdd.py): parallelize slices a
list into numSlices contiguous partitions; fold folds each partition starting
from its own copy of the zero value and then folds the partial results on the
driver; collect returns partition results in partition order.  Anything the
stand-in does not implement raises Unsupported, which is never a violation.
"""
import copy
import functools

from pyspark import RDD, SparkContext

from mc.core import Unsupported


class Policy:
    """Default: deterministic, partitions in order, each task once."""

    isolate = False  # ship tasks through cloudpickle

    def partitions(self, n_items, n_slices):
        return max(1, n_slices)

    def order(self, n):
        return range(n)

    def attempts(self, part):
        return 1


class _Broadcast:
    def __init__(self, v):
        self.value = v

    def unpersist(self, blocking=False):
        pass

    def destroy(self, blocking=False):
        pass


def _ship(obj):
    import pyspark.cloudpickle as cp
    import pickle

    return pickle.loads(cp.dumps(obj))


class FakeContext(SparkContext):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, policy=None):
        self.policy = policy or Policy()
        self.tasks = 0
        self.jobs = 0

    defaultParallelism = 4
    defaultMinPartitions = 2

    def parallelize(self, c, numSlices=None):
        c = list(c)
        n = self.policy.partitions(len(c), int(numSlices or self.defaultParallelism))
        parts = []
        for k in range(n):
            a, b = (k * len(c)) // n, ((k + 1) * len(c)) // n
            parts.append(c[a:b])
        return FakeRDD(self, parts, [])

    def broadcast(self, v):
        return _Broadcast(v)

    def range(self, *a, numSlices=None):
        return self.parallelize(range(*a), numSlices)

    def stop(self):
        pass

    def setLogLevel(self, lvl):
        pass

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(SparkContext, name):
            raise AttributeError("'SparkContext' object has no attribute %r" % name)
        raise Unsupported("SparkContext." + name)

    def __getnewargs__(self):
        raise RuntimeError("SparkContext can only be used on the driver")

    def __reduce__(self):
        raise RuntimeError("SparkContext can only be used on the driver")

    def __deepcopy__(self, memo):
        return self


class FakeRDD:
    def __init__(self, ctx, parts, stages):
        self.ctx = ctx
        self.context = ctx
        self._parts = parts
        self._stages = stages

    # -- lazy transformations
    def _then(self, f):
        return FakeRDD(self.ctx, self._parts, self._stages + [f])

    def cache(self):
        return self

    def persist(self, *a, **k):
        return self

    def unpersist(self, *a, **k):
        return self

    def checkpoint(self):
        return None

    def setName(self, n):
        return self

    def map(self, f, preservesPartitioning=False):
        return self._then(lambda k, it: [f(x) for x in it])

    def flatMap(self, f, preservesPartitioning=False):
        return self._then(lambda k, it: [y for x in it for y in f(x)])

    def filter(self, f):
        return self._then(lambda k, it: [x for x in it if f(x)])

    def mapPartitions(self, f, preservesPartitioning=False):
        return self._then(lambda k, it: list(f(iter(it))))

    def mapPartitionsWithIndex(self, f, preservesPartitioning=False):
        return self._then(lambda k, it: list(f(k, iter(it))))

    def mapValues(self, f):
        return self._then(lambda k, it: [(a, f(b)) for a, b in it])

    def keys(self):
        return self._then(lambda k, it: [x[0] for x in it])

    def values(self):
        return self._then(lambda k, it: [x[1] for x in it])

    def glom(self):
        return self._then(lambda k, it: [list(it)])

    def zipWithIndex(self):
        items = self.collect()
        return self.ctx.parallelize(
            [(x, i) for i, x in enumerate(items)], len(self._parts))

    def repartition(self, n):
        return self.ctx.parallelize(self.collect(), n)

    def coalesce(self, n, shuffle=False):
        return self.ctx.parallelize(self.collect(), min(n, len(self._parts)))

    def getNumPartitions(self):
        return len(self._parts)

    def union(self, other):
        return FakeRDD(self.ctx, self._run_all() + other._run_all(), [])

    # -- execution
    def _task(self, k, post=None):
        """One task: the whole pipeline on partition k, shipped if isolated."""
        pol = self.ctx.policy
        out = None
        for _ in range(pol.attempts(k)):
            stages, data = self._stages, self._parts[k]
            fin = post
            if pol.isolate:
                stages, data, fin = _ship((stages, data, fin))
            for st in stages:
                data = st(k, data)
            data = list(data)
            if fin is not None:
                data = fin(data)
            out = _ship(data) if pol.isolate else data
            self.ctx.tasks += 1
        return out

    def _run_all(self, post=None):
        self.ctx.jobs += 1
        n = len(self._parts)
        res = [None] * n
        for k in self.ctx.policy.order(n):
            res[k] = self._task(k, post)
        return res

    def collect(self):
        return [x for p in self._run_all() for x in p]

    def toLocalIterator(self, prefetchPartitions=False):
        return iter(self.collect())

    def count(self):
        return len(self.collect())

    def first(self):
        return self.collect()[0]

    def take(self, n):
        return self.collect()[:n]

    def foreach(self, f):
        self.map(f).collect()

    def collectAsMap(self):
        return dict(self.collect())

    def fold(self, zeroValue, op):
        def part(items):
            acc = copy.deepcopy(zeroValue)
            for x in items:
                acc = op(acc, x)
            return acc

        vals = self._run_all(part)
        vals = self._merge_order(vals)
        return functools.reduce(op, vals, zeroValue)

    def _merge_order(self, vals):
        pol = self.ctx.policy
        mo = getattr(pol, "merge_order", None)
        return [vals[i] for i in mo(len(vals))] if mo else vals

    def reduce(self, op):
        def part(items):
            return [functools.reduce(op, items)] if items else []

        vals = self._merge_order(self._run_all(part))
        vals = [v for p in vals for v in p]
        if not vals:
            raise ValueError("Can not reduce() empty RDD")
        return functools.reduce(op, vals)

    def aggregate(self, zeroValue, seqOp, combOp):
        def part(items):
            acc = copy.deepcopy(zeroValue)
            for x in items:
                acc = seqOp(acc, x)
            return acc

        vals = self._merge_order(self._run_all(part))
        return functools.reduce(combOp, vals, zeroValue)

    def treeReduce(self, op, depth=2):
        return self.reduce(op)

    def treeAggregate(self, zeroValue, seqOp, combOp, depth=2):
        return self.aggregate(zeroValue, seqOp, combOp)

    def sum(self):
        return sum(self.collect())

    def max(self, key=None):
        return max(self.collect(), key=key)

    def min(self, key=None):
        return min(self.collect(), key=key)

    def reduceByKey(self, f, numPartitions=None, partitionFunc=None):
        d = {}
        for a, b in self.collect():
            d[a] = f(d[a], b) if a in d else b
        return self.ctx.parallelize(list(d.items()), numPartitions or len(self._parts))

    def sortBy(self, keyfunc, ascending=True, numPartitions=None):
        return self.ctx.parallelize(
            sorted(self.collect(), key=keyfunc, reverse=not ascending),
            numPartitions or len(self._parts))

    def sortByKey(self, ascending=True, numPartitions=None, keyfunc=lambda x: x):
        return self.sortBy(lambda x: keyfunc(x[0]), ascending, numPartitions)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(RDD, name):
            raise AttributeError("'RDD' object has no attribute %r" % name)
        raise Unsupported("RDD." + name)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError("an RDD cannot be shipped to a task")
