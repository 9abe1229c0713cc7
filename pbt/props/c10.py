"""C10: counters and timers of the configurable mode."""
import hypothesis.strategies as st

import gen
import histories
from core import Part

MODULES = ["scn_proc"]
RULE = """A case is a history of counter readings and timings on the
configurable (or logging) processor, with bulk arrivals beyond the sample
size; it is non-trivial when some key gets at least three timings in one
interval or a counter is read again after a flush. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""
ASSUMPTIONS = [
    "math.trunc() of this Jython saturates at 32 bits; a counter beyond that "
    "may be published as the saturated value.",
    "Beyond 1028 timings in an interval the percentiles come from a random "
    "sample; they need only lie within the range of the timings.",
]


def values():
    return st.one_of(
        st.integers(0, 10), st.integers(-50, 5000),
        st.integers(0, 80000).map(lambda n: n / 8.0),
        st.floats(-1e6, 1e6)).flatmap(gen.spell)


def strategy(tier):
    bulk = st.tuples(
        st.just("bulk"), st.just("t.b"), st.just("ms"),
        st.integers(0, 50), st.sampled_from([0, 1, 0.5, 3]),
        st.sampled_from([2, 100, 101, 1027, 1028, 1029, 1500]))
    return histories.history(
        tier, ("c", "ms"), keys=st.sampled_from(["a", "b"]), values=values(),
        modes=st.sampled_from(["config", "config", "logging"]), size=18,
        extra_ops=[
            st.tuples(st.just("burst"), st.lists(
                gen.message(st.just("a"), ("ms",), values()), max_size=30)),
            bulk])


def select(name):
    return True


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    best, pending = 0, {}
    for op in case["ops"]:
        if op[0] == "m" and op[1].endswith("|ms"):
            key = op[1].split(":")[0]
            pending[key] = pending.get(key, 0) + 1
        elif op[0] == "bulk":
            pending[op[1]] = pending.get(op[1], 0) + op[5]
        elif op[0] == "f":
            best = max([best] + list(pending.values()))
            pending = {}
    labels.append("most timings in a flush: %s" % (
        "0-2" if best < 3 else "3-1028" if best < 1029 else "1029+"))
    return best >= 3 or between > 1, labels


PARTS = [
    Part("configurable", "proc", strategy,
         lambda case, obs: histories.follow(case, obs), classify,
         quick=1300, thorough=25000),
    histories.volume_part(("c", "ms"), st.sampled_from(["config", "logging"])),
]
