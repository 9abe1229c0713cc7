"""C11: which series are published, where, and by which processor."""
import hypothesis.strategies as st

import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_proc"]
RULE = """Names: a history of messages of all types under a generated
prefix, every published name, value and timestamp compared with the reference;
non-trivial when at least three types are published. Isolation: two or three
processors of different modes and prefixes in one process, their histories
interleaved, each compared with a reference of its own; non-trivial when two
of them receive messages. Stamps: the datapoints of a flush are taken slowly,
all carry the second the flush began in; non-trivial when three types are
published."""


def strategy(tier):
    prefixes = st.one_of(
        st.sampled_from([None, "", "pfx", "a.b", "statsd", "stats"]),
        st.text(alphabet=gen.WORD, min_size=1, max_size=8).map(
            lambda p: p.rstrip(".")))
    # Keys that look like names that are published.
    alike = st.builds(
        "{0}{1}{2}".format,
        st.sampled_from(["", "", "stats.", "stats.gauges.", "stats.timers.",
                         "stats_counts.", "pfx.", "pfx", "gauge.",
                         "statsd."]),
        st.sampled_from(["a", "a", "b"]),
        st.sampled_from([".count", ".value", ".rate", ".mean", ".upper",
                         ".upper_90", ".lower", ".999percentile", ".5min_rate",
                         ".count.count", ""]))
    return histories.history(
        tier, ("c", "ms", "g", "m", "sli", "pd"),
        keys=st.one_of(gen.plain_keys, gen.plain_keys, alike),
        prefixes=prefixes, junk=False)


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    types = {m.split("|")[1] for m in messages}
    labels.append("%d types" % len(types))
    if case.get("prefix"):
        labels.append("with a prefix")
    if case.get("iprefix"):
        labels.append("with an internal prefix")
    return len(types) > 2, labels


def many(tier):
    one = histories.history(tier, ("c", "ms", "g", "m", "sli", "pd"), size=14)

    def build(cases, order):
        systems = [{k: v for k, v in c.items() if k != "ops"} for c in cases]
        left = [list(c["ops"]) for c in cases]
        ops = []
        for n in order:
            i = n % len(left)
            if left[i]:
                ops.append([i, left[i].pop(0)])
        for i, rest in enumerate(left):
            ops.extend([i, o] for o in rest)
        return {"systems": systems, "ops": ops}
    return st.builds(build, st.lists(one, min_size=2, max_size=3),
                     st.lists(st.integers(0, 5), max_size=60))


def many_check(case, obs):
    for i, config in enumerate(case["systems"]):
        ops = [o for j, o in case["ops"] if j == i]
        steps = [s for (j, o), s in zip(case["ops"], obs["steps"]) if j == i]
        histories.follow(dict(config, ops=ops), {"steps": steps},
                         select="all")


def many_classify(case, obs):
    busy = {i for i, o in case["ops"] if o[0] == "m"}
    return len(busy) > 1, ["%d processors" % len(case["systems"])]


def slow(tier):
    """Whoever takes the datapoints takes his time over each."""
    waits = st.lists(st.one_of(st.just(0), st.integers(0, 64).map(
        lambda n: n / 8.0)), min_size=1, max_size=9)
    return histories.history(
        tier, ("c", "ms", "g", "m", "sli", "pd"), size=14, flush=st.builds(
            lambda interval, percent, waits: [
                "slow", interval, percent, waits],
            gen.intervals, gen.percents, waits)).map(
                lambda case: dict(case, ops=[
                    ["slow", o[1], o[2], [0.5, 0, 0.25, 1]] if o[0] == "f"
                    else o for o in case["ops"]]))


def slow_check(case, obs):
    now = case["now"]
    for index, (op, step) in enumerate(zip(case["ops"], obs["steps"])):
        if op[0] == "t":
            now += op[1]
        elif op[0] == "slow":
            ensure(step["exc"] is None, "flush raised %r", step["exc"])
            for name, _, stamp in step["items"]:
                ensure(stamp == int(now), "flush at step %d: it began at %r, "
                       "%s is stamped %r", index, now, name, stamp)
            now += sum(op[3][i % len(op[3])]
                       for i in range(len(step["items"])))


def slow_classify(case, obs):
    types = {o[1].split("|")[1] for o in case["ops"] if o[0] == "m" and
             "|" in o[1]}
    return len(types) > 2, ["%d types" % len(types)]


PARTS = [
    Part("names", "proc", strategy,
         lambda case, obs: histories.follow(case, obs, select="all"),
         classify, quick=1500, thorough=30000),
    Part("isolation", "proc_many", many, many_check, many_classify,
         quick=500, thorough=10000),
    Part("stamps", "proc", slow, slow_check, slow_classify, quick=500,
         thorough=10000),
]
