"""C25: a histogram's statistics describe the values it got."""
import math
from fractions import Fraction

import hypothesis.strategies as st

import gen
import model
from core import Part, ensure

MODULES = ["scn_stats"]
RULE = """A case is a histogram over one of its samples, and a history of
values, waits, clearing and readings; non-trivial when at least three
different values are read, or values are read after clearing."""
ASSUMPTIONS = [
    "Standard deviations are judged with the error bound of Welford's method.",
    "A value within rounding error of the edge of a bin may be in either.",
]

values = st.one_of(
    st.lists(gen.ints, min_size=1, max_size=12),
    st.lists(gen.floats, min_size=1, max_size=12),
    st.lists(st.integers(-3, 3), min_size=1, max_size=12),
    st.tuples(st.sampled_from([1e9, -1e9, 1e6, 12345678.5]), st.lists(
        st.integers(0, 8).map(lambda n: n / 4.0), min_size=2,
        max_size=12)).map(lambda t: [t[0] + v for v in t[1]]))


def strategy(tier):
    top = 300 if tier == "quick" else 3000
    read = st.tuples(st.just("read"), st.lists(st.one_of(
        st.sampled_from([0.5, 0.75, 0.95, 0.98, 0.99, 0.999, 0.0, 1.0]),
        st.floats(0, 1)), max_size=6))
    op = st.one_of(
        st.tuples(st.just("add"), values), st.tuples(st.just("add"), values),
        st.tuples(st.just("run"), st.integers(-50, 50), st.sampled_from(
            [1, 0, -1, 0.5, 3]), st.integers(1, top)),
        read, read, st.tuples(st.just("t"), st.sampled_from([1, 60, 700])),
        st.sampled_from([("clear",), ("t", 1)]))
    return st.builds(
        lambda sample, ops: {"sample": sample, "ops": [
            list(o) for o in ops] + [["read", [0.5, 0.99]]]},
        st.sampled_from(["uniform", "uniform", "decaying", 5, 20, 100]),
        st.lists(op, min_size=1, max_size=8))


def exact(values):
    values = [Fraction(v) for v in values]
    mean = sum(values) / len(values)
    if len(values) == 1:
        return mean, 0.0
    variance = sum((v - mean) ** 2 for v in values) / (len(values) - 1)
    return mean, math.sqrt(variance)


def walk(case):
    stream = []
    for op in case["ops"]:
        if op[0] == "add":
            stream.extend(op[1])
        elif op[0] == "run":
            stream.extend(op[1] + op[2] * i for i in range(op[3]))
        elif op[0] == "clear":
            stream = []
        elif op[0] == "read":
            yield stream, op[1]


def check(case, obs):
    size = case["sample"] if isinstance(case["sample"], int) else 1028
    for (stream, asked), got in zip(walk(case), obs["steps"]):
        n = len(stream)
        where = "of %d values" % n
        ensure(got["count"] == n, "count %s is %r", where, got["count"])
        if n == 0:
            for name in ("min", "max", "mean", "std_dev"):
                ensure(got[name] == 0, "%s of nothing is %r", name, got[name])
            ensure(got["percentiles"] == [0] * len(asked),
                   "percentiles of nothing are %r", got["percentiles"])
            ensure(sum(got["histogram"]) == 0, "histogram of nothing is %r",
                   got["histogram"])
            ensure(got["values"] == [], "values of nothing are %r",
                   got["values"])
            continue
        top = max(abs(v) for v in stream)
        eps = 2.3e-16
        ensure(got["min"] == min(stream), "min %s is %r, expected %r", where,
               got["min"], min(stream))
        ensure(got["max"] == max(stream), "max %s is %r, expected %r", where,
               got["max"], max(stream))
        mean, deviation = exact(stream)
        ensure(model.close(got["mean"], float(mean), 1e-12,
                           4 * n * eps * top), "mean %s is %r, expected %r",
               where, got["mean"], float(mean))
        ensure(model.close(got["std_dev"], deviation, 1e-9,
                           16 * n * eps * top + 1e-300),
               "standard deviation %s is %r, expected %r", where,
               got["std_dev"], deviation)
        values = got["values"]
        left = list(stream)
        ensure(len(values) == min(n, size), "%s, %d are held", where,
               len(values))
        left = {}
        for value in stream:
            left[value] = left.get(value, 0) + 1
        for value in values:
            left[value] = left.get(value, 0) - 1
            ensure(left[value] >= 0, "%s, %r is held too often", where, value)
        for p, value in zip(asked, got["percentiles"]):
            want = model.percentile(values, p)
            ensure(model.close(value, want, 1e-9, 1e-9 * top),
                   "percentile %r of %r is %r, expected %r", p,
                   brief(values), value, want)
        ensure(len(got["percentiles"]) == len(asked), "%d percentiles, asked "
               "for %d", len(got["percentiles"]), len(asked))
        check_bins(n, values, got["histogram"])


def brief(values):
    return sorted(values)[:20]


def check_bins(n, values, bins):
    # Sturges: 1 + log2(n), rounded up.
    want = 1 + (n - 1).bit_length()
    allowed = [want, want + 1] if n & (n - 1) == 0 else [want]
    ensure(len(bins) in allowed, "%d values in %d bins, expected %d", n,
           len(bins), want)
    ensure(all(b == int(b) and b >= 0 for b in bins), "bins are %r", bins)
    ensure(sum(bins) == len(values), "bins of %d values add up to %r",
           len(values), sum(bins))
    low, high = Fraction(min(values)), Fraction(max(values))
    if low == high:
        return
    # A value may be in the bins its position allows, give or take rounding:
    # no more than all that may, no less than all that must.
    slack = Fraction(1, 10 ** 6)
    may, must = [0] * len(bins), [0] * len(bins)
    for value in values:
        at = (Fraction(value) - low) / (high - low) * len(bins)
        places = set(min(len(bins) - 1, max(0, math.floor(at + d)))
                     for d in (-slack, 0, slack))
        for place in places:
            may[place] += 1
        if len(places) == 1:
            must[places.pop()] += 1
    for index, b in enumerate(bins):
        ensure(must[index] <= b <= may[index], "bin %d of %r holds %r, "
               "expected %d to %d", index, brief(values), b, must[index],
               may[index])


def classify(case, obs):
    labels = set()
    nontrivial = cleared = False
    for op in case["ops"]:
        if op[0] == "clear":
            cleared = True
    for stream, _ in walk(case):
        if len(set(stream)) >= 3:
            nontrivial = True
            if cleared:
                labels.add("cleared before")
        if not stream:
            labels.add("nothing")
        elif len(set(stream)) == 1:
            labels.add("all equal")
        size = case["sample"] if isinstance(case["sample"], int) else 1028
        if len(stream) > size:
            labels.add("more than the sample holds")
    labels.add("sample %s" % case["sample"])
    return nontrivial, sorted(labels)


PARTS = [Part("statistics", "histogram", strategy, check, classify,
              quick=1500, thorough=25000)]
