"""C06: meters count every event once and report the rate since the last."""
import hypothesis.strategies as st

import gen
import histories
from core import Part

MODULES = ["scn_proc"]
RULE = """A case is a history of meter marks, clock steps (also within one
second) and flushes in any mode; it is non-trivial when one meter is marked in
at least two flush intervals. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""


def strategy(tier):
    return histories.history(
        tier, ("m",), values=st.one_of(
            st.integers(0, 100).flatmap(gen.spell), gen.number_texts),
        extra_ops=[st.tuples(st.just("t"), st.sampled_from(
            [0.1, 0.25, 0.5, 0.75, 1, 1.5]))])


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    rounds, seen = {}, set()
    for op in case["ops"]:
        if op[0] == "m":
            seen.add(op[1].split(":")[0])
        elif op[0] == "f":
            for key in seen:
                rounds[key] = rounds.get(key, 0) + 1
            seen = set()
    several = any(n > 1 for n in rounds.values())
    return several, labels


PARTS = [
    Part("meters", "proc", strategy,
         lambda case, obs: histories.follow(case, obs), classify,
         quick=2400, thorough=50000),
    histories.volume_part(("m",)),
]
