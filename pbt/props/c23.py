"""C23: the uniform sample holds each of the stream with equal chance."""
import math

import hypothesis.strategies as st

from core import Part, ensure

MODULES = ["scn_stats"]
RULE = """A case is a capacity and a history of updates and clearing; non-trivial
when more values came than fit. In the second part one stream is sampled
thousands of times; non-trivial when it is longer than the capacity."""
ASSUMPTIONS = [
    "Odds are judged with a bound that a fair sample exceeds less than once in "
    "10^10 comparisons.",
]


def strategy(tier):
    op = st.one_of(
        st.tuples(st.just("add"), st.one_of(
            st.integers(0, 12), st.integers(0, 12), st.integers(13, 300))),
        st.tuples(st.just("add"), st.integers(0, 12)),
        st.tuples(st.just("clear")))
    return st.builds(
        lambda size, ops: {"size": size, "ops": [list(o) for o in ops]},
        st.one_of(st.integers(1, 12), st.integers(1, 12), st.just(100),
                  st.just(1028)),
        st.lists(op, min_size=1, max_size=12))


def check(case, obs):
    capacity = case["size"]
    stream, number, previous = [], 0, []
    for op, (size, values) in zip(case["ops"], obs["steps"]):
        added = 0
        if op[0] == "add":
            stream.extend(range(number, number + op[1]))
            number += op[1]
            added = op[1]
        else:
            stream, previous = [], []
        want = min(capacity, len(stream))
        ensure(size == want, "after %r size() is %r, expected %d", op, size,
               want)
        ensure(len(values) == want, "after %r there are %d values, expected "
               "%d", op, len(values), want)
        ensure(len(set(values)) == len(values), "after %r a value is held "
               "twice: %r", op, sorted(values)[:50])
        ensure(set(values) <= set(stream), "after %r it holds %r which was "
               "not in the stream since it was cleared", op,
               sorted(set(values) - set(stream))[:5])
        fresh = set(stream[-added:] if added else [])
        ensure(set(values) - fresh <= set(previous), "after %r a value "
               "returned that was dropped before", op)
        if len(stream) <= capacity:
            ensure(sorted(values) == stream, "after %r it holds %r of %r",
                   op, values[:20], stream[:20])
        previous = values


def classify(case, obs):
    count, over = 0, False
    labels = set()
    for op in case["ops"]:
        if op[0] == "add":
            count += op[1]
        else:
            if count:
                labels.add("cleared")
            count = 0
        over = over or count > case["size"]
    labels.add("more than fits" if over else "all fits")
    return over, sorted(labels)


def odds_strategy(tier):
    work = 60000 if tier == "quick" else 400000
    return st.builds(
        lambda size, more, cleared: {
            "size": size, "count": size + more, "cleared": cleared,
            "trials": min(work // 3, work // (size + more + cleared + size))},
        st.integers(1, 12), st.one_of(st.integers(1, 4), st.integers(1, 40)),
        st.sampled_from([0, 0, 0, 5, 30]))


def surprise(share, p):
    """Of one trial: how unlikely it is to be this far off (Chernoff)."""
    result = 0.0
    if share > 0:
        result += share * math.log(share / p)
    if share < 1:
        result += (1 - share) * math.log((1 - share) / (1 - p))
    return result


def odds_check(case, obs):
    trials, count, size = case["trials"], case["count"], case["size"]
    kept = obs["kept"]
    p = size / float(count)
    ensure(sum(kept) == trials * size, "%d values in %d samples of %d",
           sum(kept), trials, size)
    for index, k in enumerate(kept):
        ensure(trials * surprise(k / float(trials), p) < 25,
               "value %d of %d was held by %d of %d samples of %d, expected "
               "about %.1f", index, count, k, trials, size, trials * p)
    for parts in (2, 4):
        for part in range(parts):
            low, high = part * count // parts, (part + 1) * count // parts
            if high > low:
                share = sum(kept[low:high]) / float(trials * size)
                q = (high - low) / float(count)
                ensure(trials * size * surprise(share, q) < 25,
                       "values %d to %d of %d make up %.4f of the samples, "
                       "expected about %.4f", low, high, count, share, q)


def odds_classify(case, obs):
    return True, ["barely full" if case["count"] <= case["size"] + 4
                  else "long stream"]


PARTS = [
    Part("contents", "uniform", strategy, check, classify,
         quick=1500, thorough=30000),
    Part("odds", "uniform_odds", odds_strategy, odds_check, odds_classify,
         quick=200, thorough=1500),
]
