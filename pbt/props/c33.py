"""C33: dump mode logs all that comes and goes, and changes nothing."""
import hypothesis.strategies as st

import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_proc"]
RULE = """A case is a history of messages, clock steps, whole flushes, and
flushes pulled in pieces with messages between, run on the logging processor
and on the configurable one, at times with
a plugin and as a subclass that publish what their flushes are told; non-trivial when messages come before and after a
flush."""
ASSUMPTIONS = [
    "A message discarded for its value or type may be logged or not.",
    "Values are logged to at least ten digits.",
]


def strategy(tier):
    keys = st.one_of(gen.few_keys, gen.few_keys, gen.raw_keys,
                     st.sampled_from(["100%", "%s", "a %d b", "x\ny"]))
    junk = st.tuples(st.just("m"), gen.malformed)
    told = st.tuples(st.just("m"), st.builds(
        "{0}:1|told".format, gen.few_keys))
    intervals = st.one_of(gen.intervals, st.none())
    percents = st.one_of(gen.percents, st.none())
    pull = st.builds(
        lambda count, between, rest, i, p: [["open", "0", i, p],
                                      ["pull", "0", count]] + between
        + [["pull", "0", rest], ["pull", "0", None]],
        st.integers(0, 6), st.lists(st.tuples(
            st.just("m"), gen.message(keys)).map(list), max_size=3),
        st.integers(0, 9), intervals, percents).map(lambda ops: ("ops", ops))
    base = histories.history(
        tier, ("c", "ms", "g", "m", "sli", "pd"), keys=keys,
        modes=st.just("logging"), junk=True, extra_ops=[junk, pull, told],
        flush=st.tuples(st.just("f"), intervals, percents))

    def flat(case, tick, told):
        ops = []
        for op in case["ops"]:
            ops.extend(op[1] if op[0] == "ops" else [op])
        case["ops"] = ops
        case["tick"] = tick
        case["told"] = told
        return case
    return st.builds(flat, base, st.sampled_from([0, 0, 0, 0.001, 1.5]),
                     st.booleans())


def check(case, obs):
    for index, (op, a, b) in enumerate(zip(case["ops"], obs["logging"],
                                           obs["config"])):
        ensure(a == b, "step %d, %r: %r with logging, %r without", index, op,
               a, b)
    ensure(all(exc for exc in obs["bad"]), "took a logger that cannot log")
    came, went = [], []
    last = 0
    for op, step, mark in zip(case["ops"], obs["logging"], obs["marks"]):
        lines = obs["log"][last:mark]
        last = mark
        ensure(not (step and "exc" in step and step["exc"]),
               "%r raised %r", op, step and step.get("exc"))
        for line in lines:
            ensure(line.startswith("In: " if op[0] == "m" else "Out: "),
                   "%r logged %r", op, line)
        if op[0] == "m":
            ensure(len(lines) <= 1, "%r is logged %d times", op, len(lines))
            if not step["fails"]:
                ensure(len(lines) == 1, "%r is not logged", op)
            if lines:
                text = lines[0][4:]
                if "router" in case:
                    name, data = op[1].strip(model.SPACE).split(":", 1)
                    ensure(text == model.normalize(name) + ":" + data,
                           "%r is logged as %r", op, text)
                else:
                    ensure(text == op[1], "%r is logged as %r", op, text)
        elif op[0] in ("f", "pull"):
            came.extend(lines)
            went.extend(step["items"])
            ensure(len(came) >= len(went), "%d datapoints were handed on, "
                   "%d logged", len(went), len(came))
            if op[0] == "f" or op[2] is None:
                compare(came, went)
                came, went = [], []


def compare(lines, items):
    ensure(len(lines) == len(items), "%d lines for %d datapoints",
           len(lines), len(items))
    for line, (name, value, timestamp) in zip(lines, items):
        rest = line[len("Out: "):]
        ensure(rest.startswith(name + " "), "%r logged for %r", line, name)
        words = rest[len(name) + 1:].split(" ")
        ensure(len(words) == 2, "%r logged for %r", line, name)
        ensure(model.close(float(words[0]), value, 1e-9, 1e-9),
               "%r logged for the value %r", line, value)
        ensure(words[1] == str(timestamp), "%r logged for the time %r", line,
               timestamp)


def classify(case, obs):
    labels = []
    if "router" in case:
        labels.append("behind router")
    if any(op[0] == "pull" for op in case["ops"]):
        labels.append("flushed in pieces")
    _, _, between = histories.shape(case)
    if any(op[0] == "m" and step["fails"] for op, step in zip(
            case["ops"], obs["logging"])):
        labels.append("some discarded")
    return between >= 2, labels


PARTS = [Part("transparent", "proc_logged", strategy, check, classify,
              quick=800, thorough=12000)]
