"""C09: the daemon's own series count what it did."""
import hypothesis.strategies as st

import gen
import histories
from core import Part, ensure

MODULES = ["scn_proc"]
RULE = """A case is a history of messages of several types and flushes; it
is non-trivial when messages of at least two types arrive and a second flush
follows the first. The second part adds a plugin whose work takes known time;
non-trivial when it worked in two intervals. In the third part whoever takes
the datapoints of a flush takes known time over each; non-trivial when two
categories take time."""
ASSUMPTIONS = [
    "A discarded message of a known type may or may not count as received.",
    "A meter asked twice within a second may or may not count as flushed.",
    "Time that passes while the datapoints of a category are handed on counts "
    "as spent on that category.",
]


def strategy(tier):
    return histories.history(tier, ("c", "ms", "g", "m", "sli", "pd"))


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    types = {m.split("|")[1] for m in messages if m.count("|") > 0}
    labels.append("%d types" % len(types))
    return len(types) > 1, labels


def slow_strategy(tier):
    costs = st.integers(0, 64).map(lambda n: n / 8.0)
    op = st.one_of(
        st.builds(lambda k, a, b: ["m", "%s:%r|slow|%r" % (k, a, b)],
                  gen.few_keys, costs, costs),
        st.builds(lambda n: ["t", n], st.integers(0, 20)),
        st.just(["f", 10000, 90]))
    return st.builds(
        lambda mode, ops: dict(mode=mode, slow=True, now=1000000,
                               ops=ops + [["f", 10000, 90]]),
        gen.modes, st.lists(op, min_size=1, max_size=20))


def slow_check(case, obs):
    spent, count, cost, total = 0.0, 0, {}, 0
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m":
            ensure("exc" not in step and not step["fails"],
                   "message %r: %r", op[1], step)
            key, rest = op[1].split(":")
            fields = rest.split("|")
            spent += float(fields[0])
            count += 1
            cost[key] = float(fields[2])
        elif op[0] == "f":
            ensure("exc" not in step, "flush raised %r", step.get("exc"))
            got = {}
            for name, value, _ in step["items"]:
                ensure(name not in got, "%s published twice", name)
                got[name] = value
            want = {"statsd.numStats": len(cost),
                    "statsd.flush.plugin.count": len(cost),
                    "statsd.flush.plugin.duration":
                        sum(cost.values()) * 1000}
            for kind in ("counter", "timer", "gauge", "meter"):
                want["statsd.flush.%s.count" % kind] = 0
                want["statsd.flush.%s.duration" % kind] = 0
            if count:
                want["statsd.receive.slow.count"] = count
                want["statsd.receive.slow.duration"] = spent * 1000
            ensure(set(got) == set(want), "published %r, expected %r",
                   sorted(got), sorted(want))
            for name, value in want.items():
                ensure(abs(got[name] - value) < 1e-3, "%s is %r, expected %r",
                       name, got[name], value)
            spent, count = 0.0, 0


def slow_classify(case, obs):
    busy, dirty = 0, False
    for op in case["ops"]:
        if op[0] == "m":
            dirty = True
        elif op[0] == "f":
            busy += dirty
            dirty = False
    return busy > 1, [case["mode"], "busy intervals: %s" % min(busy, 3)]


# -- Taken slowly -----------------------------------------------------------

LETTERS = {"c": "counter", "t": "timer", "g": "gauge", "m": "meter",
           "p": "plugin"}


def taken_strategy(tier):
    def message(letter, number, value):
        kind = {"t": "ms", "p": "pd"}.get(letter, letter)
        return ["m", "%s%d:%d|%s" % (letter, number, value, kind)]
    op = st.one_of(
        st.builds(message, st.sampled_from("ctgmp"), st.integers(0, 3),
                  st.integers(0, 99)),
        st.builds(message, st.sampled_from("ctgmp"), st.integers(0, 3),
                  st.integers(0, 99)),
        st.builds(lambda n: ["t", n], st.integers(0, 20)),
        st.builds(lambda waits: ["slow", 10000, 90, waits],
                  st.lists(st.integers(0, 64).map(lambda n: n / 8.0),
                           min_size=1, max_size=9)))
    return st.builds(
        lambda mode, ops: {"mode": mode, "now": 1000000, "ops": ops + [
            ["t", 5], ["slow", 10000, 90, [0.5, 0.25, 3]]]},
        gen.modes, st.lists(op, min_size=1, max_size=25))


def taken_durations(op, items):
    """category -> seconds that passed as its datapoints were taken."""
    result = dict((name, 0.0) for name in LETTERS.values())
    for index, (name, _, _) in enumerate(items):
        letters = [part[0] for part in name.split(".")
                   if len(part) == 2 and part[0] in LETTERS and
                   part[1].isdigit()]
        if letters:
            result[LETTERS[letters[0]]] += op[3][index % len(op[3])]
    return result


def taken_check(case, obs):
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] != "slow":
            continue
        ensure(step["exc"] is None, "flush raised %r", step["exc"])
        got = dict((name, value) for name, value, _ in step["items"])
        for name, seconds in taken_durations(op, step["items"]).items():
            value = got.get("statsd.flush.%s.duration" % name)
            ensure(value is not None and abs(value - seconds * 1000) < 1e-3,
                   "the datapoints of the category %s were handed on in %r "
                   "seconds, its duration is %r", name, seconds, value)


def taken_classify(case, obs):
    most = max(sum(1 for s in taken_durations(op, step["items"]).values() if s)
               for op, step in zip(case["ops"], obs["steps"])
               if op[0] == "slow")
    return most > 1, [case["mode"], "%d categories take time" % most]


PARTS = [
    Part("counts", "proc", strategy,
         lambda case, obs: histories.follow(case, obs, select="self"),
         classify, quick=1500, thorough=30000),
    Part("durations", "proc", slow_strategy, slow_check, slow_classify,
         quick=700, thorough=15000),
    Part("taken", "proc", taken_strategy, taken_check, taken_classify,
         quick=500, thorough=10000),
]
