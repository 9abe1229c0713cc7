"""C05: a gauge is its latest value, once in every flush."""
import hypothesis.strategies as st

import gen
import histories
from core import Part

MODULES = ["scn_proc"]
RULE = """A case is a history of gauge readings, clock steps and flushes in
any mode; it is non-trivial when some gauge is set again with another value
after a flush published it. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""


def strategy(tier):
    return histories.history(
        tier, ("g",), values=st.one_of(
            gen.number_texts, st.integers(0, 3).map(str)))


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    published, current, again = {}, {}, False
    for op in case["ops"]:
        if op[0] == "m":
            key, _, value = op[1].partition(":")
            if key in published and published[key] != value:
                again = True
            current[key] = value
        elif op[0] == "f":
            published.update(current)
    if again:
        labels.append("set again")
    return again, labels


PARTS = [
    Part("gauges", "proc", strategy,
         lambda case, obs: histories.follow(case, obs), classify,
         quick=2400, thorough=50000),
    histories.volume_part(("g",)),
]
