"""C12: routing rules form a pipeline."""
import hypothesis.strategies as st

import gen
import histories
import model
import routes
from core import Part, Violation, ensure

MODULES = ["scn_router", "scn_proc"]
RULE = """A case is a list of rules, written with varying blanks, and messages
put through the router; non-trivial when a rule changes, copies or drops one
message and another gets through unchanged. In the second part a real
processor sits behind the router and its flushes are compared with the
model; non-trivial when a rule applied to an accepted message. In the third
lines that are no rules are among them; non-trivial when others are, too."""
ASSUMPTIONS = [
    "Rewrite patterns that match the empty text are left out.",
    "Rewriting with dup keeps the original when the pattern matches at the "
    "start of the key.",
]

messages = st.one_of(
    st.builds("{0}:{1}|{2}".format, routes.keys, gen.number_texts,
              routes.types),
    st.builds("{0}:{1}|{2}".format, routes.keys, gen.number_texts,
              routes.types),
    st.builds("{0}:{1}|c|@{2}".format, routes.keys, gen.number_texts,
              gen.rates),
    st.builds("{0}:{1}|{2}|{3}".format, gen.raw_keys, gen.number_texts,
              st.sampled_from(["d", "x", "", "c"]), gen.junk_values.filter(
                  lambda v: "|" not in v)),
    gen.malformed)
targets = st.one_of(
    routes.targets(st.one_of(routes.types, st.sampled_from(["d", "x"]))),
    st.sampled_from([["redirect_udp", "192.0.2.9", "8125"],
                     ["redirect_tcp", "192.0.2.9", "8125"]]))


def strategy(tier):
    return st.builds(
        lambda written, messages, interval: dict(
            structure=written[0], rules=written[1], messages=messages,
            interval=interval),
        routes.written(targets, min_size=1),
        st.lists(messages, min_size=2, max_size=12),
        gen.intervals)


def split(message):
    """Key, type and fields, or None: malformed."""
    if ":" not in message:
        return None
    name, data = message.strip(model.SPACE).split(":", 1)
    fields = data.split("|")
    if not 2 <= len(fields) <= 3:
        return None
    return fields[1], model.normalize(name), fields


def check(case, obs):
    for message, got in zip(case["messages"], obs["messages"]):
        ensure(got["exc"] is None, "message %r raised %r", message,
               got["exc"])
        parts = split(message)
        if parts is None:
            ensure(got["fails"] == [message] and not got["out"],
                   "malformed %r: %r", message, got)
            continue
        ensure(not got["fails"], "%r was discarded", message)
        want = [[key + ":" + "|".join(fields), kind, key, fields]
                for kind, key, fields in routes.route(case["structure"],
                                                      *parts)]
        have = got["out"]
        if parts == routes.route([], *parts)[0] and len(want) == 1 and \
                len(have) == 1 and want[0][1:] == have[0][1:]:
            # The text handed on may be the original or put together again.
            ensure(have[0][0] in (want[0][0], message),
                   "%r was handed on as %r", message, have[0])
            continue
        ensure(have == want, "%r came out as %r, expected %r", message, have,
               want)
    ensure(obs["flush"] == [["x", 1, 2]], "flush of the router gave %r",
           obs["flush"])
    ensure(obs["flush_args"] == [{"interval": case["interval"]}],
           "flush was passed %r", obs["flush_args"])


def classify(case, obs):
    through = changed = 0
    labels = set()
    for message, got in zip(case["messages"], obs["messages"]):
        parts = split(message)
        if parts is None:
            labels.add("malformed")
            continue
        out = [tuple(m[1:]) for m in got["out"]]
        same = [(k, y, f) for k, y, f in out if (k, y, f) == parts]
        if len(out) == 1 and same:
            through += 1
        else:
            changed += 1
            if not out:
                labels.add("dropped")
            elif len(out) > 1:
                labels.add("copied")
            else:
                labels.add("changed")
    if len(case["structure"]) > 1:
        labels.add("several rules")
    return bool(through and changed), sorted(labels)


def flushed_strategy(tier):
    size = 20 if tier == "quick" else 50
    message = st.one_of(
        st.builds("{0}:{1}|{2}".format, routes.keys, gen.number_texts,
                  routes.types),
        st.builds("{0}:{1}|c|@{2}".format, routes.keys, gen.number_texts,
                  gen.rates),
        st.builds("{0}:x|{1}".format, routes.keys, routes.types))
    op = st.one_of(
        st.tuples(st.just("m"), message), st.tuples(st.just("m"), message),
        st.tuples(st.just("m"), message),
        st.tuples(st.just("t"), st.integers(1, 100)),
        st.tuples(st.just("f"), gen.intervals, gen.percents))
    return st.builds(
        lambda written, mode, ops: dict(
            structure=written[0], router=written[1], mode=mode, now=1000000,
            ops=[list(o) for o in ops] + [["t", 3], ["f", 10000, 90]]),
        routes.written(routes.targets(), min_size=1), gen.modes,
        st.lists(op, min_size=2, max_size=size))


def flushed_check(case, obs):
    mode = case["mode"]
    ref = model.Ref(mode, now=case["now"])
    own = histories.is_self(case)
    for index, (op, step) in enumerate(zip(case["ops"], obs["steps"])):
        if op[0] == "t":
            ref.now += op[1]
        elif op[0] == "m":
            ensure("exc" not in step, "%r raised %r", op[1], step.get("exc"))
            rejected = 0
            for kind, key, fields in routes.route(case["structure"],
                                                  *split(op[1])):
                p = model.parse(key + ":" + "|".join(fields), mode)
                if p.verdict == model.ACCEPT:
                    ref.process(p)
                else:
                    ensure(p.verdict == model.REJECT, "unclear %r", op)
                    rejected += 1
            ensure(len(step["fails"]) == rejected,
                   "%r: %d discarded, expected %d", op[1],
                   len(step["fails"]), rejected)
        else:
            ensure("exc" not in step, "flush raised %r", step.get("exc"))
            items = [i for i in ref.flush(op[1], op[2])
                     if i.category != "self"]
            problem = model.compare(
                items, [i for i in step["items"] if not own(i[0])],
                int(ref.now))
            ensure(problem is None, "flush at step %d: %s", index, problem)


def flushed_classify(case, obs):
    applied = 0
    for op in case["ops"]:
        if op[0] == "m":
            kind, key, fields = split(op[1])
            if any(routes.holds(c, kind, key) for c, _ in case["structure"]):
                applied += 1
    return bool(applied), [case["mode"],
                           "rules applied" if applied else "none applied"]


# -- Unreadable rules -------------------------------------------------------

bad_lines = st.sampled_from([
    "any", "drop", "any drop", "any = drop", "any -> drop", "=> drop",
    "any =>", "any => ", "any => => drop", "any => nothing", "all => drop",
    "any x => drop", "any => drop x", "path_like => drop",
    "path_like a b => drop", "not => drop", "not all => drop",
    "not not all => drop", "not path_like => drop", "any => rewrite",
    "any => rewrite a", "any => rewrite a b dup x", "any => rewrite ( b",
    "any => rewrite *a b", "any => set_metric_type",
    "any => set_metric_type c dup x", "any => redirect_udp",
    "any => redirect_udp 192.0.2.9", "any => redirect_tcp 192.0.2.9",
    "any => redirect_udp 192.0.2.9 8125 x", "any => Drop", "ANY => drop",
    "any => drop => drop", "any => rules", "any => rewrite a => b",
    "any => set_metric_type => c", "metric_type c => g => drop",
    "any => rewrite a b =>", "path_like => => drop"])


@st.composite
def unreadable_strategy(draw, tier="quick"):
    structure, text = draw(routes.written(targets, max_size=4))
    lines = text.split("\n")
    bad = draw(st.sampled_from([0, 1, 1, 1, 2]))
    for i in range(bad):
        lines.insert(draw(st.integers(0, len(lines))), draw(bad_lines))
    return {"rules": "\n".join(lines), "bad": bad}


def unreadable_check(case, obs):
    if case["bad"]:
        ensure(obs["exc"] is not None, "rules %r were taken", case["rules"])
    else:
        ensure(obs["exc"] is None, "rules %r raised %r", case["rules"],
               obs["exc"])


def unreadable_classify(case, obs):
    return bool(case["bad"]) and "\n" in case["rules"].strip(), [
        "refused" if case["bad"] else "taken"]


PARTS = [
    Part("rules", "route", strategy, check, classify,
         quick=2400, thorough=60000),
    Part("flushed", "proc", flushed_strategy, flushed_check,
         flushed_classify, quick=600, thorough=15000),
    Part("unreadable", "configure_router", lambda tier:
         unreadable_strategy(tier), unreadable_check, unreadable_classify,
         quick=600, thorough=8000),
]
