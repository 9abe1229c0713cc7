"""C03: counters of the compliant mode lose and invent nothing."""
import hypothesis.strategies as st

import gen
import histories
from core import Part

MODULES = ["scn_proc"]
RULE = """A case is a history of counter messages (sampled and not), clock
steps and flushes of any interval; it is non-trivial when counter messages
arrive in at least two flush intervals, at least one of them sampled. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""


def strategy(tier):
    return histories.history(
        tier, ("c",), keys=gen.few_keys, modes=st.just("compliant"),
        extra_ops=[st.tuples(st.just("burst"), st.lists(
            gen.message(gen.few_keys, ("c",)), max_size=20))],
        flush=st.tuples(st.just("f"), st.one_of(
            gen.intervals, st.integers(1, 120000)), gen.percents))


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    sampled = any("|@" in m for m in messages)
    if sampled:
        labels.append("sampled")
    return between > 1 and sampled, labels


PARTS = [
    Part("counters", "proc", strategy,
         lambda case, obs: histories.follow(case, obs), classify,
         quick=2400, thorough=60000),
    histories.volume_part(("c",), st.just("compliant")),
]
