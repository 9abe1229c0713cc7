"""C26: moving averages decay as load averages do."""
import math

import hypothesis.strategies as st

import gen
import model
from core import Part, ensure

MODULES = ["scn_stats"]
RULE = """A case is one of the averages and a history of updates and ticks;
non-trivial when updates come both before and after the first tick."""


def strategy(tier):
    counts = st.one_of(st.integers(0, 50), st.integers(0, 10 ** 9),
                       st.integers(-20, 800).map(lambda n: n / 8.0))
    op = st.one_of(
        st.tuples(st.just("update"), counts),
        st.tuples(st.just("update"), counts),
        st.tuples(st.just("tick"), st.one_of(
            st.just(1), st.integers(1, 3), st.integers(1, 200))))
    return st.builds(
        lambda kind, ops: {"kind": kind, "ops": [list(o) for o in ops]},
        st.one_of(st.sampled_from([1, 5, 15]), st.tuples(
            st.floats(0.001, 0.999), st.integers(1, 60)).map(list)),
        st.lists(op, min_size=2, max_size=16 if tier == "quick" else 50))


def check(case, obs):
    kind = case["kind"]
    if isinstance(kind, list):
        alpha, interval = kind
    else:
        alpha, interval = 1 - math.exp(-5.0 / 60 / kind), 5
    rate, pending, top = None, 0, 0.0
    rates = iter(obs["rates"])
    for op in case["ops"]:
        if op[0] == "update":
            pending += op[1]
            continue
        for i in range(op[1]):
            instant = pending / float(interval)
            top = max(top, abs(instant))
            pending = 0
            rate = instant if rate is None else (
                (1 - alpha) * rate + alpha * instant)
        got = next(rates)
        ensure(model.close(got, rate, 1e-9, 1e-11 * top), "after %r the "
               "rate is %r, expected %r", op, got, rate)


def classify(case, obs):
    kinds = [op[0] for op in case["ops"]]
    ticks = kinds.index("tick") if "tick" in kinds else len(kinds)
    late = "update" in kinds[ticks:] and "tick" in kinds[
        ticks + kinds[ticks:].index("update"):]
    labels = []
    if kinds[0] == "update":
        labels.append("updated before the first tick")
    if late:
        labels.append("updated later")
    return kinds[0] == "update" and late, labels


PARTS = [Part("rates", "ewma", strategy, check, classify,
              quick=2000, thorough=40000)]
