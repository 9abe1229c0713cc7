"""Histories on the message processors, and their comparison to the model."""
import hypothesis.strategies as st

import gen
import model
from core import Part, Violation, ensure

# Internal series have no place in the checks of the metrics themselves.
SELF_WORDS = ("numStats", "flush.", "receive.")


def is_self(case):
    mode = case["mode"]
    internal = model.Ref(mode, case.get("prefix", ""),
                         case.get("iprefix", "")).internal

    def test(name):
        return name.startswith(internal) and \
            name[len(internal):].startswith(SELF_WORDS)
    return test


def clocks(tier):
    return st.sampled_from([1000000, 1400000000, 1400000000.75, 999999.5])


def history(tier, kinds, keys=gen.few_keys, values=gen.number_texts,
            modes=gen.modes, junk=True, extra_ops=(), size=None,
            prefixes=None, router=False, flush=None):
    size = size or (30 if tier == "quick" else 80)
    well_formed = st.tuples(st.just("m"), gen.message(keys, kinds, values))
    if flush is None:
        flush = st.tuples(st.just("f"), gen.intervals, gen.percents)
    options = [well_formed] * 5 + [
        st.tuples(st.just("m"), gen.padded(gen.message(keys, kinds, values))),
        st.tuples(st.just("t"), gen.steps), flush]
    if junk:
        options.append(st.tuples(st.just("m"), st.builds(
            lambda key, value, kind: "%s%s:%s|%s" % (
                key, {"sli": ".s", "pd": ".p"}.get(kind, ""), value, kind),
            keys, gen.junk_values, st.sampled_from(list(kinds)))))
    options.extend(extra_ops)
    # Rarely, many flushes with nothing in between.
    idle = st.tuples(
        st.just("idle"), st.sampled_from([2, 4, 7, 11, 26, 61, 110]),
        st.sampled_from([1, 10, 60]), gen.intervals, gen.percents)
    options = [st.one_of(options)] * 24 + [idle]

    def build(mode, prefix, iprefix, routed, now, ops):
        flat = []
        for o in ops:
            if o[0] == "burst":
                flat.extend(["m", m] for m in o[1])
            elif o[0] == "idle":
                for _ in range(o[1]):
                    flat.extend([["t", o[2]], ["f", o[3], o[4]]])
            else:
                flat.append(o)
        ops = flat
        case = {"mode": mode, "now": now,
                "ops": [list(o) for o in ops] + [
                    ["t", 3], ["f", 10000, 90], ["t", 10], ["f", 10000, 90]]}
        if mode != "compliant" and prefix is not None:
            case["prefix"] = prefix
            if iprefix is not None:
                case["iprefix"] = iprefix
        if routed:
            case["router"] = routed if isinstance(routed, str) else ""
        return case
    prefix = prefixes if prefixes is not None else st.sampled_from([None, "", "pfx", "a.b"])
    return st.builds(
        build, modes, prefix,
        st.sampled_from([None, "", "int.", "pfx.host."]),
        router if router is not False else st.sampled_from(
            [None, None, True]),
        clocks(tier), st.lists(st.one_of(options), min_size=3, max_size=size))


def follow(case, obs, select=None, expected_select=None):
    """Compare every flush with the model; only series that select picks."""
    own = is_self(case)

    def on_flush(index, op, items, step, stamp):
        if select == "self":
            wanted = [i for i in items if i.category == "self"]
            actual = [i for i in step["items"] if own(i[0])]
        elif select == "all":
            wanted, actual = items, step["items"]
        else:
            wanted = [i for i in items if i.category != "self"]
            actual = [i for i in step["items"] if not own(i[0])]
        problem = model.compare(wanted, actual, stamp)
        ensure(problem is None, "flush at step %d: %s", index, problem)
    return model.run_ref(case, obs["steps"], on_flush)


def shape(case):
    """Labels, and counts of messages before the last flush with data."""
    labels = [case["mode"]]
    if "router" in case:
        labels.append("behind router")
    flushes = sum(1 for o in case["ops"] if o[0] == "f")
    messages = [o[1] for o in case["ops"] if o[0] == "m"]
    between = 0
    dirty = False
    for o in case["ops"]:
        if o[0] == "m":
            dirty = True
        elif o[0] == "f":
            between += dirty
            dirty = False
    if between > 1:
        labels.append("several busy intervals")
    return labels, messages, between


# -- Many names and many messages -------------------------------------------

def volume(tier, kinds, modes=gen.modes):
    """Few steps, of which some bring many messages."""
    many = st.sampled_from([101, 130, 257, 520, 1001, 1030, 2100])
    kind = st.sampled_from(list(kinds))
    start, delta = st.integers(-20, 50), st.sampled_from([0, 1, 0.5, 3])
    suffix = {"sli": ".s", "pd": ".p"}

    def wide(base, kind, start, count):
        return ["wide", base, suffix.get(kind, ""), kind, start, count]

    def bulk(key, kind, start, delta, count):
        return ["bulk", key + suffix.get(kind, ""), kind, start, delta, count]
    op = st.one_of(
        st.builds(wide, st.sampled_from(["k", "n."]), kind, start, many),
        st.builds(bulk, st.sampled_from(["k1", "b"]), kind, start, delta,
                  many),
        st.builds(lambda t: ["t", t], gen.steps),
        st.builds(lambda i, p: ["f", i, p], gen.intervals, gen.percents))

    def build(mode, now, ops):
        return {"mode": mode, "now": now, "ops": ops + [
            ["t", 3], ["f", 10000, 90], ["t", 10], ["f", 10000, 90]]}
    return st.builds(build, modes, clocks(tier), st.lists(
        op, min_size=2, max_size=6 if tier == "quick" else 12))


def volume_classify(case, obs):
    wide = max([o[5] for o in case["ops"] if o[0] == "wide"] or [0])
    bulk = max([o[5] for o in case["ops"] if o[0] == "bulk"] or [0])
    return wide > 500 or bulk > 500, [case["mode"]] + [
        "over 500 %s" % name for name, n in (
            ("names", wide), ("messages of a name", bulk)) if n > 500]


def volume_part(kinds, modes=gen.modes, quick=60, thorough=1200):
    """A part that compares such histories with the model."""
    return Part("volume", "proc", lambda tier: volume(tier, kinds, modes),
                lambda case, obs: follow(case, obs), volume_classify,
                quick=quick, thorough=thorough)
