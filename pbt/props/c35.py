"""C35: counters are reported as differences between readings."""
import hypothesis.strategies as st

from core import Part, ensure

MODULES = ["scn_report"]
RULE = """A case is a history of readings of counters, that may appear, vanish,
jump back, or fail to be read; non-trivial when a counter appears later than
another or a reading fails, and differences are reported afterwards."""


def strategy(tier):
    reading = st.dictionaries(
        st.sampled_from(["a", "b", "net.eth0", "cpu"]),
        st.one_of(st.integers(0, 1000), st.integers(0, 2 ** 62),
                  st.integers(0, 4000).map(lambda n: n / 8.0)), max_size=4)
    return st.builds(
        lambda readings, shared, args, kwargs: {
            "readings": readings, "shared": shared, "args": args,
            "kwargs": kwargs},
        st.lists(st.one_of(reading, reading, reading, st.none()),
                 min_size=1, max_size=10 if tier == "quick" else 40),
        st.booleans(), st.lists(st.integers(), max_size=2),
        st.sampled_from([{}, {"prefix": "x"}]))


def walk(case):
    last = {}
    for reading in case["readings"]:
        if reading is None:
            yield None
        else:
            yield dict((k, v - last[k]) for k, v in reading.items()
                       if k in last)
            last = reading


def check(case, obs):
    for index, (want, (got, exc)) in enumerate(zip(walk(case),
                                                   obs["steps"])):
        if want is None:
            ensure(exc is not None and exc["type"] == "ValueError",
                   "reading %d failed, the report said %r, %r", index, got,
                   exc)
        else:
            ensure(exc is None, "report %d raised %r", index, exc)
            ensure(got == want, "report %d is %r, expected %r (readings %r)",
                   index, got, want, case["readings"][:index + 1])
    for args, kwargs in obs["given"]:
        ensure(args == case["args"] and kwargs == case["kwargs"],
               "the function was called with %r %r", args, kwargs)
    ensure(len(obs["given"]) == len(case["readings"]), "%d calls for %d "
           "reports", len(obs["given"]), len(case["readings"]))


def classify(case, obs):
    labels = set()
    hard = False
    reported = [w for w in walk(case)]
    seen = set()
    for index, reading in enumerate(case["readings"]):
        if reading is None:
            labels.add("a reading failed")
            hard = hard or any(reported[index + 1:])
        else:
            if seen and set(reading) - seen:
                labels.add("a counter appeared later")
                hard = hard or any(reported[index:])
            if seen - set(reading):
                labels.add("a counter vanished")
            seen |= set(reading)
    if any(v < 0 for w in reported if w for v in w.values()):
        labels.add("a counter jumped back")
    return hard, sorted(labels)


PARTS = [Part("differences", "counters", strategy, check, classify,
              quick=2000, thorough=40000)]
