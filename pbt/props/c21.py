"""C21: SLI conditions count what they say."""
import re

import hypothesis.strategies as st

import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_proc", "scn_stats"]
RULE = """A case is a set of SLI rules, a mode, and a history of SLI readings
(some with a size, some errors) with flushes; non-trivial when a condition
holds for one reading and fails for another in one interval, and a later
interval counts anew. The second part configures readable and unreadable rules;
every case with both a readable and an unreadable line is non-trivial. In the volume part hundreds
of names or messages come at once; non-trivial with over 500."""
ASSUMPTIONS = [
    "When two patterns that match one series define the same label, either "
    "definition may win.",
    "Readings and limits are multiples of 1/8, so that sums are exact.",
]

eighths = st.one_of(st.integers(-6, 6).map(float),
                    st.integers(-40, 40).map(lambda n: n / 8.0))
patterns = st.sampled_from([
    "*", "*a.s", "stats.SLI.a.s", "a.s", "pfx.*", "?.s", "*c.d.s", "*e-f*",
    "stats.*.b.s", "pfx.b.s", "b.s", "*.?.s", "a?s", "*.s", "stats.SLI.*",
    "a.b.*", "A.s", "s"])
labels = st.sampled_from(["red", "green", "yellow", "x_1", "count", "error"])


def spelled(value):
    return repr(int(value)) if value == int(value) else repr(value)


conditions = st.one_of(
    st.tuples(st.sampled_from(["above", "below"]), eighths),
    st.tuples(st.sampled_from(["above", "below"]), eighths, eighths),
    st.tuples(st.just("between"), eighths, eighths).map(
        lambda c: (c[0], min(c[1:]), max(c[1:]))))
rules = st.lists(st.tuples(patterns, labels, conditions).map(
    lambda r: [r[0], r[1], list(r[2])]), min_size=1, max_size=6)


def text_of(rule):
    pattern, label, condition = rule
    return "%s => %s IF %s %s" % (pattern, label, condition[0], " ".join(
        spelled(v) for v in condition[1:]))


def strategy(tier):
    def build(case, rules, around):
        case["rules"] = rules
        case["sli_rules"] = around[0] + "\n".join(
            map(text_of, rules)) + around[1]
        return case
    return st.builds(
        build, histories.history(
            tier, ("sli",), values=eighths.map(spelled),
            keys=st.sampled_from(["a", "a", "b", "c.d", "e-f"]), junk=True,
            flush=st.tuples(st.just("f"), st.just(10000), st.just(90))),
        rules, st.sampled_from([("", ""), ("\n", ""), ("\n", "\n")]))


def fits(pattern, path):
    return re.match("".join(
        ".*" if c == "*" else "." if c == "?" else re.escape(c)
        for c in pattern) + r"\Z", path, re.S) is not None


def holds(condition, value, size):
    if condition[0] == "between":
        return condition[1] < value < condition[2]
    limit = condition[1]
    if len(condition) > 2:
        limit += condition[2] * size
    return value > limit if condition[0] == "above" else value < limit


def definitions(case, path):
    """label -> the conditions it may stand for."""
    byhead = {}
    for pattern, label, condition in case["rules"]:
        if fits(pattern, path):
            byhead[pattern, label] = condition
    result = {}
    for (_, label), condition in byhead.items():
        result.setdefault(label, []).append(condition)
    return result


def base(case):
    if case["mode"] == "compliant":
        return "stats.SLI."
    prefix = case.get("prefix", "")
    return prefix + "." if prefix else ""


def as_float(text):
    """Also those that may be accepted or not: 1e999, inf, nan."""
    return float(text.strip(model.SPACE))


def tallies(case, obs):
    """Per flush: series -> label -> a count per condition it may be."""
    start = base(case)
    current, result = {}, {}
    for index, (op, step) in enumerate(zip(case["ops"], obs["steps"])):
        if op[0] == "m" and not step["fails"]:
            p = model.parse(op[1], case["mode"])
            path = start + p.key
            if path not in current:
                current[path] = dict(
                    (label, [[c, 0] for c in conditions])
                    for label, conditions in definitions(case, path).items())
            if p.value != "error":
                size = 1 if p.extra is None else as_float(p.extra)
                for alternatives in current[path].values():
                    for alternative in alternatives:
                        alternative[1] += holds(
                            alternative[0], as_float(
                                op[1].split(":", 1)[1].split("|")[0]), size)
        elif op[0] == "f":
            result[index] = current
            current = dict((path, dict(
                (label, [[c, 0] for c, _ in alternatives])
                for label, alternatives in labels.items()))
                for path, labels in current.items())
    return result


def check(case, obs):
    own = histories.is_self(case)
    counted = tallies(case, obs)

    def on_flush(index, op, items, step, stamp):
        wanted = [i for i in items if i.category != "self"]
        for path, labels in counted[index].items():
            for label, alternatives in labels.items():
                wanted.append(model.Item(
                    "plugin", path + ".count_" + label,
                    [n for _, n in alternatives]))
        actual = [i for i in step["items"] if not own(i[0])]
        problem = model.compare(wanted, actual, stamp)
        ensure(problem is None, "flush at step %d: %s", index, problem)
    model.run_ref(case, obs["steps"], on_flush)


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    some = False
    previous = None
    for index, series in sorted(tallies(case, obs).items()):
        for path, named in series.items():
            for label, alternatives in named.items():
                labels.append("condition " + alternatives[0][0][0])
                if len(alternatives) > 1:
                    labels.append("label defined twice")
                if alternatives[0][1]:
                    labels.append("condition held")
                    some = True
        if any("|sli|" in m for m in messages):
            labels.append("with size")
    return some and between > 1, sorted(set(labels))


# -- Unreadable rules -------------------------------------------------------

bad_lines = st.sampled_from([
    "a => red", "a => red IF", "a = red IF above 5", "a => red if above 5",
    "a red IF above 5", "=> red IF above 5", "a => IF above 5",
    "a => red IF", "a => red IF over 5", "a => red IF above",
    "a => red IF between 5", "a => red IF above x",
    "a => red IF between 1 2 3", "a => red IF above 1 2 3", "nonsense",
    "a b => red IF above 5", "a => red IF between 1 x", "a=>red IF above 5"])
lines = st.one_of(rules.map(lambda r: [text_of(r[0]), True]),
                  rules.map(lambda r: [text_of(r[0]), True]),
                  bad_lines.map(lambda l: [l, False]))


def configure_strategy(tier):
    def build(lines):
        return {"lines": lines,
                "rules": "\n".join(l for l, _ in lines) if lines else None}
    return st.builds(build, st.lists(lines, max_size=5))


def configure_check(case, obs):
    good = all(fine for _, fine in case["lines"])
    if good:
        ensure(obs["exc"] is None, "rules %r raised %r", case["rules"],
               obs["exc"])
    else:
        ensure(obs["exc"] is not None, "rules %r were taken", case["rules"])
        ensure(obs["exc"]["type"] in ("TypeError", "ValueError"),
               "rules %r raised %r", case["rules"], obs["exc"])


def configure_classify(case, obs):
    kinds = set(fine for _, fine in case["lines"])
    return len(kinds) == 2, ["taken" if obs["exc"] is None else "refused"]


PARTS = [
    Part("conditions", "proc", strategy, check, classify,
         quick=2400, thorough=50000),
    Part("configure", "sli_configure", configure_strategy, configure_check,
         configure_classify, quick=600, thorough=5000),
    histories.volume_part(("sli",)),
]
