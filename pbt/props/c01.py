"""C01: malformed input is discarded, and only that."""
import hypothesis.strategies as st

import gen
import model
from core import Part, Violation, ensure

MODULES = ["scn_proc"]
RULE = """A case is a history of well-formed and malformed messages, clock
steps and flushes for one processor (both modes, alone or behind the router);
it is non-trivial when at least one message is discarded, at least one is
accepted, and a flush follows both."""
ASSUMPTIONS = [
    "What the grammar leaves open (a sample rate followed by other text, "
    "non-finite service level values) may be accepted or discarded, but a "
    "discarded message still has no effect.",
    "Message counts per received type (receive.*) are left to C09.",
]


def strategy(tier):
    size = 25 if tier == "quick" else 60
    op = st.one_of(
        st.tuples(st.just("m"), gen.malformed),
        st.tuples(st.just("m"), gen.malformed),
        st.tuples(st.just("m"), gen.message(gen.few_keys)),
        st.tuples(st.just("m"), gen.message(gen.raw_keys)),
        st.tuples(st.just("m"), gen.padded(gen.message(gen.few_keys))),
        st.tuples(st.just("t"), gen.steps),
        st.tuples(st.just("f"), gen.intervals, gen.percents))
    return st.builds(
        lambda mode, router, plugins, now, ops: dict(
            mode=mode, plugins=plugins, now=now,
            ops=[list(o) for o in ops] + [["t", 7], ["f", 10000, 90]],
            **({"router": ""} if router else {})),
        gen.modes, st.booleans(), st.sampled_from([True, True, False]),
        st.sampled_from([1000000, 1400000000.75]),
        st.lists(op, min_size=1, max_size=size))


def plugin_types(case):
    return ("sli", "pd") if case["plugins"] else ()


def check(case, obs):
    mode = "compliant" if case["mode"] == "compliant" else "config"
    owner = {}
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m":
            if "exc" in step:
                raise Violation("message %r raised %r" % (op[1], step["exc"]))
            fails = step["fails"]
            # The router passes on a message it has put together again.
            ensure(not fails or fails == [op[1]] or
                   (len(fails) == 1 and "router" in case),
                   "message %r was reported as malformed like this: %r",
                   op[1], fails)
            parsed = model.parse(op[1], mode, plugin_types(case))
            verdict = parsed.verdict
            if parsed.kind in plugin_types(case):
                # Which plugin reads a key two plugins share is left open.
                if owner.get(parsed.key, parsed.kind) != parsed.kind:
                    verdict = model.EITHER
                if not fails:
                    owner.setdefault(parsed.key, parsed.kind)
            if verdict == model.ACCEPT:
                ensure(not fails, "well-formed message %r was discarded",
                       op[1])
            elif verdict == model.REJECT:
                ensure(fails, "malformed message %r was not discarded", op[1])
        elif op[0] == "f":
            ensure("exc" not in step, "flush raised %r", step.get("exc"))
    flushes = [s for o, s in zip(case["ops"], obs["steps"]) if o[0] == "f"]
    ensure(len(flushes) == len(obs["again"]), "flush missing")
    for one, two in zip(flushes, obs["again"]):
        a, b = visible(one["items"]), visible(two["items"])
        ensure(a == b, "discarded messages changed what is flushed: "
               "%r, without them %r", a, b)


def visible(items):
    return sorted(repr(i) for i in items
                  if ".receive." not in i[0]
                  and not i[0].startswith("receive."))


def classify(case, obs):
    discarded = accepted = 0
    labels = [case["mode"]]
    if "router" in case:
        labels.append("behind router")
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m":
            if step["fails"]:
                discarded += 1
            else:
                accepted += 1
    if discarded:
        labels.append("some discarded")
    if accepted:
        labels.append("some accepted")
    return bool(discarded and accepted), labels


PARTS = [Part("grammar", "proc_pair", strategy, check, classify,
              quick=2400, thorough=60000)]
