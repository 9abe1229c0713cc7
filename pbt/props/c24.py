"""C24: the decaying sample prefers newer values, exponentially."""
import math
import random

import hypothesis.strategies as st

from core import Part, case_seed, ensure

MODULES = ["scn_stats"]
RULE = """A case is a capacity, a decay factor and a history of updates (some
with an older time of their own), waits and clearing; non-trivial when more
came than fit and time passed between. In the second part one stream of
groups is sampled many times and the shares of the groups are compared with
an independent simulation; non-trivial when the groups are minutes apart."""
ASSUMPTIONS = [
    "A value must not outlive one that is e^45 times as heavy.",
    "Decay factors up to 1; weights beyond e^600 are not told apart.",
    "Shares are judged by six standard errors and half a percent.",
]


def strategy(tier):
    def build(size, alpha, now, huge, ops):
        result = []
        for op in ops:
            op = list(op)
            if op[0] == "t":
                op[1] = op[1] / alpha
            elif op[0] == "late":
                op[2] = op[2] / alpha
            result.append(op)
        if huge:
            result.insert(len(result) // 2, ["t", huge])
        return {"size": size, "alpha": alpha, "now": now, "ops": result}
    add = st.tuples(st.just("add"), st.integers(1, 12))
    op = st.one_of(
        add, add,
        st.tuples(st.just("late"), st.integers(1, 5),
                  st.sampled_from([1.0, 9.0, 30.0, 60.0, 100.0])),
        st.tuples(st.just("t"), st.sampled_from(
            [0.0, 0.5, 5.0, 9.0, 50.0, 60.0, 50.0, 60.0])),
        st.sampled_from([("add", 3), ("add", 3), ("add", 3), ("clear",)]))
    return st.builds(
        build, st.one_of(st.integers(1, 8), st.integers(1, 30),
                         st.just(100)),
        st.sampled_from([0.015, 0.015, 0.05, 0.1, 0.3, 0.99]),
        st.sampled_from([1000000.0, 1400000000.0]),
        st.sampled_from([None] * 6 + [1e4, 1e5, 1e6]),
        st.lists(op, min_size=2, max_size=10 if tier == "quick" else 20))


def check(case, obs):
    capacity, alpha, now = case["size"], case["alpha"], case["now"]
    when = {}
    number = 0
    previous = []
    for op, (size, values) in zip(case["ops"], obs["steps"]):
        fresh = []
        if op[0] in ("add", "late"):
            fresh = range(number, number + op[1])
            for i in fresh:
                when[i] = now - (op[2] if op[0] == "late" else 0)
            number += op[1]
        elif op[0] == "t":
            now += op[1]
        else:
            when, previous = {}, []
        want = min(capacity, len(when))
        ensure(size == want, "after %r size() is %r, expected %d", op, size,
               want)
        ensure(len(values) == want, "after %r there are %d values, expected "
               "%d", op, len(values), want)
        ensure(len(set(values)) == len(values), "after %r a value is held "
               "twice: %r", op, values)
        ensure(set(values) <= set(when), "after %r it holds %r which did not "
               "come since it was cleared", op, set(values) - set(when))
        ensure(set(values) <= set(previous) | set(fresh), "after %r a value "
               "returned that was dropped before", op)
        held = set(values)
        oldest = min([when[v] for v in held] or [now])
        for value, time in when.items():
            if value not in held and alpha * (now - time) <= 600:
                ensure(alpha * (time - oldest) <= 45, "after %r a value %.1f "
                       "seconds old is held but one only %.1f seconds old "
                       "is not (decay %r)", op, now - oldest, now - time,
                       alpha)
        previous = values


def classify(case, obs):
    labels = set()
    count, waited, over = 0, False, False
    for op in case["ops"]:
        if op[0] in ("add", "late"):
            count += op[1]
            if op[0] == "late":
                labels.add("older times")
        elif op[0] == "clear":
            labels.add("cleared")
            count, waited = 0, False
        else:
            waited = waited or op[1] > 0
            if op[1] >= 600:
                labels.add("ten minutes passed at once")
        if count > case["size"] and waited:
            over = True
    return over, sorted(labels)


# -- Shares -----------------------------------------------------------------

def odds_strategy(tier):
    trials = 150 if tier == "quick" else 800
    weight = st.sampled_from([0.1, 0.5, 1.0, 1.5, 2.0, 3.0])

    def build(size, alpha, groups):
        groups = [[w / alpha, count] for w, count in groups]
        return {"size": size, "alpha": alpha, "now": 1000000.0,
                "groups": groups, "trials": trials}
    return st.builds(
        build, st.integers(2, 25),
        st.sampled_from([0.002, 0.005, 0.015, 0.1]),
        st.lists(st.tuples(weight, st.integers(5, 30)),
                 min_size=2, max_size=5))


def simulate(case, runs):
    """The share of each group in a forward-decaying sample."""
    rng = random.Random(case_seed(case))
    weights, now = [], 0.0
    for index, (wait, count) in enumerate(case["groups"]):
        now += wait
        weights.extend([(case["alpha"] * now, index)] * count)
    kept = [0] * len(case["groups"])
    size = case["size"]
    log, draw = math.log, rng.random
    for run in range(runs):
        order = sorted([(w - log(1.0 - draw()), index)
                        for w, index in weights], reverse=True)
        for _, index in order[:size]:
            kept[index] += 1
    return kept


def odds_check(case, obs):
    total = sum(count for _, count in case["groups"])
    held = min(case["size"], total)
    trials, runs = case["trials"], 400
    ensure(sum(obs["kept"]) == trials * held, "%d values in %d samples of %d",
           sum(obs["kept"]), trials, held)
    if held == total:
        return
    want = simulate(case, runs)
    for index, (got, expected) in enumerate(zip(obs["kept"], want)):
        share, ref = got / (trials * held), expected / (runs * held)
        mid = (got + expected + 1.0) / ((trials + runs) * held + 2.0)
        error = math.sqrt(mid * (1 - mid) * (
            1.0 / (trials * held) + 1.0 / (runs * held)))
        ensure(abs(share - ref) <= 6 * error + 0.005,
               "group %d (of %r) makes up %.3f of the samples, expected %.3f",
               index, case["groups"], share, ref)


def odds_classify(case, obs):
    span = sum(wait for wait, _ in case["groups"][1:])
    total = sum(count for _, count in case["groups"])
    return span > 60 and total > case["size"], [
        "landmark moved" if span > 600 else "one landmark"]


PARTS = [
    Part("contents", "decaying", strategy, check, classify,
         quick=1500, thorough=30000),
    Part("odds", "decaying_odds", odds_strategy, odds_check, odds_classify,
         quick=300, thorough=3000),
]
