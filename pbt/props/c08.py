"""C08: whatever was accepted before, a flush always completes."""
import hypothesis.strategies as st

import gen
import model
from core import Part, ensure

MODULES = ["scn_proc"]
RULE = """A case is a history with extreme values, rates, intervals,
percentiles and clock steps (also backwards) on any processor; it is
non-trivial when a value that is extreme or not finite was sent, or two in
succession that lie close together, and two flushes follow."""
ASSUMPTIONS = ["Which values are refused is left to C01; here only what a "
               "flush does afterwards counts."]

EXTREME = ["nan", "inf", "-inf", "1e400", "-1e400", "1.7e308", "-1.7e308",
           "5e-324", "1e-300", "1e300", "-0.0", "9007199254740993", "-1",
           "1e18", "-1e18", "2147483648", "0"]


def strategy(tier):
    keys = st.sampled_from(["a", "b"])
    values = st.one_of(st.sampled_from(EXTREME), gen.wild.map(repr),
                       st.integers(-3, 3).map(str))
    rate = st.one_of(gen.rates, st.sampled_from(
        ["1e-300", "1e-320", "5e-324", "0", "1e300", "0.0", "1e-400",
         "1e400"]))
    op = st.one_of(
        st.tuples(st.just("m"), gen.message(keys, values=values, rate=rate)),
        st.tuples(st.just("m"), gen.message(keys, values=values, rate=rate)),
        st.tuples(st.just("m"), gen.message(keys, values=values, rate=rate)),
        st.tuples(st.just("m"), gen.malformed),
        st.tuples(st.just("t"), st.sampled_from(
            [0.1, 0.5, 1, 10, 100000, -1, -0.75, -100, 1e9])),
        st.tuples(st.just("f"),
                  st.one_of(gen.intervals, st.integers(1, 5000)),
                  st.one_of(gen.percents, st.integers(0, 100))))
    # Values that lie close together, far from zero.
    crowd = st.builds(
        lambda key, kind, base, step, picks: [
            ["m", "%s:%r|%s" % (key, base + step * i, kind)] for i in picks],
        keys, st.sampled_from(["ms", "ms", "ms", "c", "g", "m"]),
        st.one_of(st.sampled_from([1e6, 123456789.1, 1e9, 1e12, 1e15, 1e150,
                                   1e300, 0.1, 1e-160, 1e-320]),
                  st.floats(1.0, 1e18)),
        st.sampled_from([0.0, 1e-5, 0.1, 1.0, 1e3]),
        st.lists(st.integers(0, 3), min_size=2, max_size=12))
    some = st.one_of(*[op.map(lambda o: [list(o)])] * 5 + [crowd])
    return st.builds(
        lambda mode, ops: dict(mode=mode, now=1000000.5, ops=[
            o for part in ops for o in part] + [
                ["f", 10000, 90], ["t", 10], ["f", 10000, 90], ["names"]]),
        gen.modes, st.lists(some, min_size=1,
                            max_size=25 if tier == "quick" else 60))


def check(case, obs):
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "f":
            ensure("exc" not in step, "flush raised %r", step.get("exc"))
        elif op[0] == "m":
            ensure("exc" not in step, "message %r raised %r", op[1],
                   step.get("exc"))
        elif op[0] == "names":
            ensure(step["exc"] is None, "listing names raised %r",
                   step["exc"])
    # The last flush, with nothing new in it, still covers the rest.
    last = [s for o, s in zip(case["ops"], obs["steps"]) if o[0] == "f"][-1]
    names = [i[0] for i in last["items"]]
    ensure("statsd.numStats" in names, "the flush ended before its summary")
    prefix = {"c": "stats_counts.", "g": "stats.gauge."} \
        if case["mode"] == "compliant" else {"c": "", "g": "", "ms": ""}
    suffix = {"c": "" if case["mode"] == "compliant" else ".count",
              "g": ".value", "ms": ".count"}
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m" and not step["fails"]:
            p = model.parse(op[1], case["mode"])
            if p.kind in prefix and p.verdict == model.ACCEPT:
                name = prefix[p.kind] + p.key + suffix[p.kind]
                ensure(name in names, "%s is no longer published", name)


def classify(case, obs):
    extreme = any(op[0] == "m" and any(
        ":%s|" % e in op[1] or op[1].endswith("@" + e) for e in EXTREME[:12])
        for op in case["ops"])
    starts = [op[1][:9] for op in case["ops"] if op[0] == "m"]
    crowded = any(a == b and len(a) == 9 for a, b in zip(starts, starts[1:]))
    back = any(op[0] == "t" and op[1] < 0 for op in case["ops"])
    labels = [case["mode"]]
    if extreme:
        labels.append("extreme value")
    if back:
        labels.append("clock goes back")
    if crowded:
        labels.append("values close together")
    return extreme or crowded, labels


PARTS = [Part("extremes", "proc", strategy, check, classify,
              quick=2100, thorough=50000)]
