"""C04: timer statistics of the compliant mode."""
import hypothesis.strategies as st

import gen
import histories
from core import Part

MODULES = ["scn_proc"]
RULE = """A case is a history of timings, clock steps and flushes at any
percentile threshold; it is non-trivial when some flush covers at least three
timings of one key. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""
ASSUMPTIONS = ["When the number of timings above the threshold is exactly "
               "halfway between two whole numbers, either is accepted."]


def values():
    return st.one_of(
        st.integers(0, 10), st.integers(-50, 5000),
        st.integers(0, 80000).map(lambda n: n / 8.0),
        st.floats(-1e9, 1e9)).flatmap(gen.spell)


def strategy(tier):
    msg = gen.message(gen.few_keys, ("ms",), values())
    size = 40 if tier == "quick" else 300
    return histories.history(
        tier, ("ms",), keys=gen.few_keys, values=values(), size=14,
        modes=st.just("compliant"),
        extra_ops=[st.tuples(st.just("burst"), st.lists(
            gen.message(st.just("a"), ("ms",), values()), max_size=size)),
            st.tuples(st.just("burst"), st.lists(msg, max_size=10))],
        flush=st.tuples(st.just("f"), gen.intervals, st.one_of(
            gen.percents, st.integers(0, 100))))


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    best = 0
    pending = {}
    for op in case["ops"]:
        if op[0] == "m":
            key = op[1].split(":")[0]
            pending[key] = pending.get(key, 0) + 1
        elif op[0] == "f":
            best = max([best] + list(pending.values()))
            pending = {}
    labels.append("most timings in a flush: %s" % (
        "0-2" if best < 3 else "3-9" if best < 10 else "10+"))
    return best >= 3, labels


PARTS = [
    Part("timers", "proc", strategy,
         lambda case, obs: histories.follow(case, obs), classify,
         quick=1500, thorough=30000),
    histories.volume_part(("ms",), st.just("compliant")),
]
