"""C36: statistics of the carbon connections are reported once, and reset."""
import hypothesis.strategies as st

from core import Part, ensure

MODULES = ["scn_report"]
RULE = """A case is a history of events counted by carbon's client and of
reports; non-trivial when events of destinations and others are counted
between reports, and at least two reports come."""


def strategy(tier):
    name = st.sampled_from([
        "destinations.10_0_0_1:2004:a.sent",
        "destinations.10_0_0_1:2004:None.sent",
        "destinations.10_0_0_2:2004:b.attemptedRelays",
        "destinations.x.queuedUntilReady", "metricsReceived", "cacheQueries",
        "my.destinations", "destinationsX", "a:b"])
    op = st.one_of(
        st.tuples(st.just("increment"), name, st.integers(1, 50)),
        st.tuples(st.just("increment"), name, st.integers(1, 50)),
        st.tuples(st.just("max"), name, st.integers(0, 20)),
        st.tuples(st.just("report")))
    return st.lists(op, min_size=2, max_size=15 if tier == "quick" else 60
                    ).map(lambda ops: {"ops": [list(o) for o in ops] + [
                        ["report"]]})


def check(case, obs):
    known = {}
    reports = iter(obs["steps"])
    for op in case["ops"]:
        if op[0] == "increment":
            known[op[1]] = known.get(op[1], 0) + op[2]
        elif op[0] == "max":
            known[op[1]] = max(known.get(op[1], 0), op[2])
        else:
            result, exc, after = next(reports)
            ensure(exc is None, "a report raised %r", exc)
            want = dict((name.replace(":", "_"), value)
                        for name, value in known.items()
                        if name.startswith("destinations"))
            ensure(result == want, "reported %r, expected %r", result, want)
            ensure(all(v == 0 for v in after.values()), "left %r after a "
                   "report", after)
            known = dict.fromkeys(known, 0)


def classify(case, obs):
    kinds, both, reports = set(), False, 0
    for op in case["ops"]:
        if op[0] == "report":
            both = both or len(kinds) > 1
            kinds = set()
            reports += 1
        else:
            kinds.add(op[1].startswith("destinations"))
    return both and reports > 1, ["%d reports" % min(reports, 4)]


PARTS = [Part("statistics", "manager_stats", strategy, check, classify,
              quick=1500, thorough=20000)]
