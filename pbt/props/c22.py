"""C22: distinct counts estimate how many different items were seen."""
import math

import hypothesis.strategies as st

import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_stats", "scn_proc"]
RULE = """A case is a history of runs of items (some seen before), waits from
seconds to days, and flushes; non-trivial when at a flush two windows hold
different sets of items and some items were seen more than once. The second
part sends items to a processor; non-trivial when items repeat."""
ASSUMPTIONS = [
    "The estimate may be off by a factor of %s (its standard error is about "
    "14 percent for many items), and by more below a few items.",
    "An item last seen exactly at the start of a window may count or not.",
    "The clock is past the first day of 1970 and does not run backwards.",
]
FACTOR = 2.5
SLACK = 3.0
ASSUMPTIONS[0] %= FACTOR
WINDOWS = [("count", None), ("count_1min", 60), ("count_1hour", 3600),
           ("count_1day", 86400)]

def strategy(tier):
    top = 1200 if tier == "quick" else 20000
    marks = st.tuples(
        st.just("marks"), st.sampled_from(["x", "x", "y"]),
        st.sampled_from([0, 0, 10, 100, 500]),
        st.sampled_from(range(8)).flatmap(
            lambda n: st.integers(1, 40) if n < 5 else
            st.integers(50, 400) if n < 7 else st.integers(400, top)))
    wait = st.tuples(st.just("t"), st.sampled_from(
        [0, 1, 30, 59, 60, 61, 61, 1800, 3540, 3599, 3600, 3601, 40000, 86399,
         86400, 86401, 86401, 200000, 0.5]))
    flush = st.tuples(st.just("f"), st.just(10000))
    return st.builds(
        lambda prefix, name, now, ops: {
            "prefix": prefix, "name": name, "now": now,
            "ops": [list(o) for o in ops] + [["f", 10000], ["f", 10000]]},
        st.sampled_from(["", "pfx", "a.b"]), gen.few_keys,
        st.sampled_from([1000000, 1400000000, 1400000000.25]),
        st.lists(st.one_of(marks, marks, wait, wait, flush),
                 min_size=1, max_size=10 if tier == "quick" else 20))


def windows(seen, now):
    """name -> fewest and most items the window may hold."""
    result = {}
    for name, length in WINDOWS:
        if length is None:
            result[name] = (len(seen), len(seen))
        else:
            start = now - length
            result[name] = (sum(1 for t in seen.values() if t > start),
                            sum(1 for t in seen.values() if t >= start))
    return result


def judge(sizes, values, where):
    for name, (low, high) in sizes.items():
        value = values[name]
        ensure(isinstance(value, (int, float)) and value >= 0,
               "%s: %s is %r", where, name, value)
        ensure(value >= low / FACTOR - SLACK, "%s: %s is %r, for %d items",
               where, name, value, low)
        ensure(value <= high * FACTOR + SLACK, "%s: %s is %r, for %d items",
               where, name, value, high)
        if high == 0:
            ensure(value <= 1, "%s: %s is %r with nothing seen", where, name,
                   value)
    for inner, outer in (("count_1min", "count_1hour"),
                         ("count_1hour", "count_1day"),
                         ("count_1day", "count")):
        ensure(values[inner] <= values[outer], "%s: %s is %r, %s only %r",
               where, inner, values[inner], outer, values[outer])
        if sizes[inner][0] == sizes[outer][0] == sizes[outer][1]:
            ensure(values[inner] == values[outer], "%s: the same items lie in "
                   "%s and %s, which say %r and %r", where, inner, outer,
                   values[inner], values[outer])


def walk(case):
    """Yield at every flush: last time each item was seen, now, change."""
    now = case["now"]
    seen = {}
    repeats = False
    before = None
    for op in case["ops"]:
        if op[0] == "marks":
            for i in range(op[2], op[2] + op[3]):
                repeats = repeats or (op[1], i) in seen
                seen[op[1], i] = now
        elif op[0] == "t":
            now += op[1]
        else:
            yield seen, now, before == len(seen), repeats
            before = len(seen)


def check(case, obs):
    base = (case["prefix"] + "." if case["prefix"] else "") + case["name"]
    last = None
    for (seen, now, unchanged, _), flush in zip(walk(case), obs["flushes"]):
        names = sorted(i[0] for i in flush)
        want = sorted(base + "." + name for name, _ in WINDOWS)
        ensure(names == want, "published %r, expected %r", names, want)
        for item in flush:
            ensure(item[2] == int(now), "%r is stamped %r, the flush is at "
                   "%r", item[0], item[2], int(now))
        values = dict((i[0][len(base) + 1:], i[1]) for i in flush)
        judge(windows(seen, now), values, "flush at %r" % now)
        if unchanged and last is not None:
            ensure(values["count"] == last, "count went from %r to %r though "
                   "only items seen before came", last, values["count"])
        last = values["count"]


def classify(case, obs):
    labels = set()
    nontrivial = False
    for seen, now, unchanged, repeats in walk(case):
        sizes = set(low for low, _ in windows(seen, now).values())
        labels.add("%d different windows" % len(sizes))
        if repeats:
            labels.add("repeats")
        if len(seen) >= 500:
            labels.add("500 items and more")
        if repeats and len(sizes) > 1:
            nontrivial = True
    return nontrivial, sorted(labels)


# -- Accuracy ---------------------------------------------------------------

def many_strategy(tier):
    return st.builds(
        lambda tag, count, now: {"tag": tag, "count": count, "now": now,
                                 "trials": 10 if tier == "quick" else 30},
        st.text(alphabet="abcdef", min_size=1, max_size=6),
        st.integers(100, 400 if tier == "quick" else 2000),
        st.sampled_from([1000000, 1400000000]))


def many_check(case, obs):
    for name, _ in WINDOWS:
        mean = math.exp(sum(math.log(s[name] + 1) for s in obs["said"])
                        / len(obs["said"]))
        # Six standard errors of ten counters.
        ensure(case["count"] / 1.32 <= mean <= case["count"] * 1.32,
               "%d counters of %d items say %r on average in %s",
               case["trials"], case["count"], mean, name)


def many_classify(case, obs):
    return True, ["%d hundred items" % (case["count"] // 100)]


# -- Items that look alike --------------------------------------------------

ALIKE = ["aAbBcCdD", "xXyYzZkK", " \tab.-_,", "\xe1\xe9\xc1\xc9aei ",
         "01234567", "+-. 0159", "/\\.?&=a1"]
ALIKE_FACTOR = 2.7


def alike_strategy(tier):
    pad = st.sampled_from(["", "", "x", "user-", "http://example.com/",
                           "p" * 16, "p" * 40])
    return st.builds(
        lambda tag, letters, lengths, count, head, tail, now: {
            "tag": tag, "letters": letters, "lengths": lengths,
            "count": count, "head": head, "tail": tail, "now": now,
            "trials": 4},
        st.text(alphabet="abcdef", min_size=1, max_size=6),
        st.sampled_from(ALIKE), st.sampled_from([[3, 4], [4]]),
        st.sampled_from([1500, 2000, 2500]), pad, pad,
        st.sampled_from([1000000, 1400000000]))


def alike_check(case, obs):
    ensure(obs["words"] == case["count"], "only %d words", obs["words"])
    for name, _ in WINDOWS:
        mean = math.exp(sum(math.log(s[name] + 1) for s in obs["said"])
                        / len(obs["said"]))
        ensure(case["count"] / ALIKE_FACTOR <= mean
               <= case["count"] * ALIKE_FACTOR,
               "%d counters of %d different words over %r say %r on average "
               "in %s", case["trials"], case["count"], case["letters"], mean,
               name)


def alike_classify(case, obs):
    return True, ["over %r" % case["letters"]] + [
        "long common part" for _ in case["head"] + case["tail"]
        if len(case["head"] + case["tail"]) >= 16][:1]


# -- Through a processor ----------------------------------------------------

def proc_strategy(tier):
    item = st.one_of(
        st.integers(0, 30).map(lambda n: "user%d" % n),
        st.text(alphabet=[c for c in gen.RAW if c not in "|\n\r"],
                min_size=1, max_size=8))
    return histories.history(
        tier, ("g",), junk=False, flush=st.tuples(
            st.just("f"), st.just(10000), st.just(90)),
        extra_ops=[st.tuples(st.just("burst"), st.lists(st.builds(
            "{0}.p:{1}|pd".format, st.sampled_from(["a", "b"]), item),
            min_size=1, max_size=40))] * 4 + [st.tuples(
                st.just("t"), st.sampled_from([30, 61, 3601, 86401]))])


def proc_walk(case):
    now = case["now"]
    seen = {}
    for index, op in enumerate(case["ops"]):
        if op[0] == "m":
            p = model.parse(op[1], case["mode"])
            if p.kind == "pd":
                seen.setdefault(p.key, {})[p.value] = now
        elif op[0] == "t":
            now += op[1]
        elif op[0] == "f":
            yield index, now, seen


def proc_check(case, obs):
    histories.follow(case, obs)
    start = "stats.pdistinct." if case["mode"] == "compliant" else (
        case["prefix"] + "." if case.get("prefix") else "")
    for index, now, seen in proc_walk(case):
        for key, items in seen.items():
            base = start + key + "."
            values = dict((i[0][len(base):], i[1])
                          for i in obs["steps"][index]["items"]
                          if i[0].startswith(base))
            judge(windows(items, now), values, "%s at step %d" % (key, index))


def proc_classify(case, obs):
    labels, messages, between = histories.shape(case)
    repeats = len(messages) != len(set(messages))
    return repeats and between > 1, labels


PARTS = [
    Part("accuracy", "distinct_many", many_strategy, many_check,
         many_classify, quick=24, thorough=150),
    Part("alike", "distinct_alike", alike_strategy, alike_check,
         alike_classify, quick=16, thorough=100),
    Part("windows", "distinct", strategy, check, classify,
         quick=500, thorough=6000),
    Part("processor", "proc", proc_strategy, proc_check, proc_classify,
         quick=300, thorough=4000),
]
