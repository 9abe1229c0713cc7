"""C07: messages arriving during a flush are neither lost nor counted twice."""
import math

import hypothesis.strategies as st

import gen
import model
from core import Part, Violation, ensure

MODULES = ["scn_proc"]
RULE = """A case is a schedule: messages, clock steps, flushes started, and
turns in which every flush under way publishes one datapoint, as the
cooperator of the service does; all flushes are run to their end, followed by
a last one. It is non-trivial when a message arrives between two datapoints of
one flush."""
ASSUMPTIONS = [
    "Flushes under way take turns in the order they were started.",
    "A key first seen while a flush is under way may or may not be in it.",
]

LAST = 1000000


def strategy(tier):
    keys = st.sampled_from(["a", "b", "c", "d", "e"])
    kinds = ("c", "ms", "g", "m", "sli")
    values = st.integers(1, 64).map(lambda n: repr(n / 4.0))
    msg = st.tuples(st.just("m"), gen.message(
        keys, kinds, values, st.sampled_from(["0.5", "0.25", "0.125"])))
    op = st.one_of(
        msg, msg, msg, msg, st.tuples(st.just("rr"), st.integers(1, 4)),
        st.tuples(st.just("rr"), st.integers(1, 12)),
        st.tuples(st.just("open")),
        st.tuples(st.just("t"), st.sampled_from([0.25, 1, 5, 10])))

    def build(mode, now, ops):
        number = 0
        flat = []
        for o in ops:
            if o[0] == "open":
                flat.append(["open", str(number), 10000, 100])
                number += 1
            else:
                flat.append(list(o))
        flat += [["rr", -1], ["t", 10], ["open", str(LAST), 10000, 100],
                 ["rr", -1]]
        return {"mode": mode, "now": now, "ops": flat}
    return st.builds(build, gen.modes, st.sampled_from([1000000, 1e6 + 0.5]),
                     st.lists(op, min_size=4,
                              max_size=40 if tier == "quick" else 110))


class Flush(object):
    def __init__(self, before):
        self.before = before     # kind -> keys known when it started
        self.values = {}         # name -> [(value, stamp)]
        self.stamp = None
        self.done = False
        self.gauges = {}


def walk(case, obs):
    """Sort the published datapoints by flush; keep what was received."""
    kinds = {}
    received = []      # (kind, key, value)
    flushes = {}
    order = []         # (flush id, name, value, stamp)
    created = {}
    young = set()      # first seen while a flush was under way
    gauge = {}
    now = case["now"]
    open_ids = []
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m":
            ensure("exc" not in step, "message %r raised %r", op[1],
                   step.get("exc"))
            ensure(not step["fails"], "message %r was discarded", op[1])
            p = model.parse(op[1], case["mode"])
            value = p.value
            if p.kind == "c" and case["mode"] == "compliant":
                value = p.value / p.rate
            received.append((p.kind, p.key, value))
            kinds.setdefault(p.kind, set()).add(p.key)
            if (p.kind, p.key) not in created and any(
                    key in flushes for key in open_ids):
                young.add((p.kind, p.key))
            created.setdefault((p.kind, p.key), now)
            if p.kind == "g":
                gauge[p.key] = value
                for key in open_ids:
                    if key in flushes:
                        flushes[key].gauges.setdefault(
                            p.key, set()).add(value)
        elif op[0] == "t":
            now += op[1]
        elif op[0] == "open":
            open_ids.append(op[1])
        elif op[0] == "rr":
            ensure(step["exc"] is None, "a flush under way raised %r",
                   step["exc"])
            for key in open_ids:
                if key not in flushes:
                    flushes[key] = Flush(
                        {k: set(v) for k, v in kinds.items()})
                    flushes[key].stamp = int(now)
                    flushes[key].gauges = {
                        k: {v} for k, v in gauge.items()}
            for key, name, value, stamp in step["items"]:
                flush = flushes[key]
                if name is None:
                    flush.done = True
                    open_ids.remove(key)
                    continue
                ensure(stamp == flush.stamp, "%s is stamped %r, its flush "
                       "is at %r", name, stamp, flush.stamp)
                ensure(name not in flush.values,
                       "one flush published %s twice", name)
                flush.values[name] = value
                order.append((key, name, value, stamp))
    for key, flush in flushes.items():
        ensure(flush.done, "a flush did not come to its end")
    return received, flushes, order, created, young


def check(case, obs):
    received, flushes, order, created, young = walk(case, obs)
    compliant = case["mode"] == "compliant"

    def published(name):
        return [(value, stamp) for _, n, value, stamp in order if n == name]

    def every(name, before_kind, key):
        for flush in flushes.values():
            if key in flush.before.get(before_kind, ()):
                ensure(name in flush.values, "%s missing from a flush that "
                       "started after %s was received", name, key)

    totals = {}
    for kind, key, value in received:
        totals.setdefault((kind, key), []).append(value)
    for (kind, key), values in totals.items():
        if kind == "c" and compliant:
            name = "stats_counts." + key
            got = math.fsum(v for v, _ in published(name))
            ensure(model.close(got, math.fsum(values)),
                   "%s adds up to %r over all flushes, received %r", name,
                   got, math.fsum(values))
            every(name, "c", key)
            for flush in flushes.values():
                if name in flush.values:
                    ensure(model.close(flush.values["stats." + key],
                                       flush.values[name] / 10.0),
                           "rate of %s is not its count per second", key)
        elif kind == "c":
            name = key + ".count"
            # Other kinds publish this name too only for other keys.
            every(name, "c", key)
        elif kind == "ms" and compliant:
            base = "stats.timers." + key
            counts = published(base + ".count")
            ensure(sum(v for v, _ in counts) == len(values),
                   "%s: %r timings published, %d received", key,
                   [v for v, _ in counts], len(values))
            total = math.fsum(
                count * mean for (count, _), (mean, _) in
                zip(counts, published(base + ".mean")))
            ensure(model.close(total, math.fsum(values)),
                   "%s: timings published add up to %r, received %r", key,
                   total, math.fsum(values))
            ensure(min(v for v, _ in published(base + ".lower"))
                   == min(values), "%s: lowest timing lost", key)
            ensure(max(v for v, _ in published(base + ".upper"))
                   == max(values), "%s: highest timing lost", key)
        elif kind == "ms":
            base = key + ".t"
            ensure(published(base + ".count")[-1][0] == len(values),
                   "%s: count %r, received %d", key,
                   published(base + ".count")[-1][0], len(values))
            every(base + ".count", "ms", key)
            highs = [v for v, _ in published(base + ".max")]
            lows = [v for v, _ in published(base + ".min") if v]
            ensure(max(highs) == max(values),
                   "%s: highest timing lost: %r of %r", key, highs, values)
            ensure(min(lows) == min(values),
                   "%s: lowest timing lost: %r of %r", key, lows, values)
            total = 0.0
            since = created[(kind, key)]
            lost = False
            for rate, stamp in published(base + ".rate"):
                lost |= stamp <= since
                total += rate * max(0, stamp - since)
                since = stamp
            if not lost:
                ensure(abs(total - len(values)) < 1e-3,
                       "%s: rates add up to %r timings, received %d", key,
                       total, len(values))
        elif kind == "g":
            name = ("stats.gauge.%s.value" if compliant else "%s.value") % key
            every(name, "g", key)
            for flush in flushes.values():
                if name in flush.values:
                    ensure(flush.values[name] in flush.gauges.get(key, ()),
                           "%s published %r, it was %r while the flush was "
                           "under way", name, flush.values[name],
                           sorted(flush.gauges.get(key, ())))
            ensure(published(name)[-1][0] == values[-1],
                   "%s ends as %r, set to %r", name, published(name)[-1][0],
                   values[-1])
        elif kind == "m":
            base = ("stats.meter." if compliant else "") + \
                key + ("" if compliant else ".m")
            counts = published(base + ".count")
            ensure(counts and model.close(counts[-1][0], math.fsum(values),
                                          abs_=1e-5),
                   "%s: meter ends at %r, received %r", key, counts[-1:],
                   math.fsum(values))
            total, since = 0.0, int(created[(kind, key)])
            for rate, stamp in published(base + ".rate"):
                ensure(rate >= 0, "%s: negative rate", key)
                total += rate * (stamp - since)
                since = stamp
            ensure((kind, key) in young or
                   abs(total - math.fsum(values)) < 1e-3,
                   "%s: rates add up to %r, received %r", key, total,
                   math.fsum(values))
        elif kind == "sli":
            base = ("stats.SLI." if compliant else "") + key
            ensure(sum(v for v, _ in published(base + ".count"))
                   == len(values), "%s: count lost", key)
            ensure(sum(v for v, _ in published(base + ".error"))
                   == values.count("error"), "%s: error lost", key)
            every(base + ".count", "sli", key)
    internal = "statsd."
    by_kind = {}
    for kind, key, value in received:
        by_kind[kind] = by_kind.get(kind, 0) + 1
    for kind, count in by_kind.items():
        got = [v for v, _ in published(internal + "receive.%s.count" % kind)]
        ensure(sum(got) == count, "receive.%s.count adds up to %r, received "
               "%d", kind, got, count)
    for flush in flushes.values():
        ensure(internal + "numStats" in flush.values, "numStats missing")


def apart(strategy):
    """Keep the kinds apart by key, so that names do not collide."""
    def rename(case):
        for op in case["ops"]:
            if op[0] == "m":
                key, rest = op[1].split(":", 1)
                kind = rest.split("|")[1]
                if kind in ("ms", "m") and case["mode"] != "compliant":
                    op[1] = "%s.%s:%s" % (key, kind[-1] if kind == "m"
                                          else "t", rest)
        return case
    return strategy.map(rename)


def checked(case, obs):
    # Inside the oracle, keys go without the suffix given by apart().
    if case["mode"] == "compliant":
        return check(case, obs)
    plain = dict(case, ops=[list(op) for op in case["ops"]])
    for op in plain["ops"]:
        if op[0] == "m":
            key, rest = op[1].split(":", 1)
            if rest.split("|")[1] in ("ms", "m"):
                op[1] = key[:-2] + ":" + rest
    return check(plain, obs)


def classify(case, obs):
    labels = [case["mode"]]
    under_way, started, during = set(), set(), 0
    overlap = False
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "open":
            under_way.add(op[1])
        elif op[0] == "rr":
            started |= under_way
            for key, name, _, _ in step["items"]:
                if name is None:
                    under_way.discard(key)
            started &= under_way
            overlap |= len(started) > 1
        elif op[0] == "m" and started:
            during += 1
    if during:
        labels.append("message during a flush")
    if overlap:
        labels.append("overlapping flushes")
    return bool(during), labels


PARTS = [Part("schedules", "proc", lambda tier: apart(strategy(tier)),
              checked, classify, quick=2400, thorough=60000)]
