"""Routing rules: how they are written, and what they mean."""
import fnmatch
import re

import hypothesis.strategies as st

KEYS = ["gorets", "a", "a.b", "b.a.c", "web1.req", "x_y-z", "gorets.gorets",
        "a.gorets", "A", "stats.a"]
keys = st.one_of(
    st.sampled_from(KEYS),
    st.text(alphabet="ab.c1_-", min_size=1, max_size=6))

GLOB = st.lists(st.sampled_from(
    ["*", "?", "a", "b", ".", "gor", "ets", "[ab]", "[!ab]", "[a-c]", "_",
     "web", "1", "-", "A"]), min_size=1, max_size=4).map("".join)

# Patterns that cannot match the empty text: old and new Python agree on them.
ATOMS = ["a", "b", "gorets", ".", "[a-c]", "[a-z]+", r"\.", r"\w", r"\d+",
         "(a|b)c?", "gor", "[^.]+", "x_y", "(?:ab)+"]
REPL = st.lists(st.sampled_from(
    ["x", "y.", "new", "-", "_", "1x", r"\g<0>", "a"]),
    min_size=1, max_size=3).map("".join)


@st.composite
def rewrites(draw):
    parts = draw(st.lists(st.sampled_from(ATOMS), min_size=1, max_size=3))
    repl = draw(REPL)
    if draw(st.booleans()):
        parts[0] = "(?P<n>" + parts[0] + ")"
        repl += draw(st.sampled_from([r"\g<n>", r".\1", r"\g<n>\g<n>"]))
    text = "".join(parts)
    if draw(st.integers(0, 4)) == 0:
        text = "^" + text
    if draw(st.integers(0, 4)) == 0:
        text = text + "$"
    return text, repl


types = st.sampled_from(["c", "ms", "g", "m"])
dup = st.sampled_from([None, "dup", "no-dup"])


def conditions(extra_types=()):
    kind = st.one_of(types, types, st.sampled_from(["d", "x"]))
    base = st.one_of(
        st.just(["any"]),
        st.builds(lambda p: ["path_like", p], GLOB),
        st.builds(lambda t: ["metric_type"] + t,
                  st.lists(kind, min_size=1, max_size=3)))
    return st.recursive(base, lambda c: c.map(lambda r: ["not"] + r),
                        max_leaves=3)


def targets(new_types=types):
    def rewrite(pattern, flag):
        return ["rewrite"] + list(pattern) + ([flag] if flag else [])

    def retype(kind, flag):
        return ["set_metric_type", kind] + ([flag] if flag else [])
    return st.one_of(
        st.just(["drop"]),
        st.builds(rewrite, rewrites(), dup), st.builds(rewrite, rewrites(), dup),
        st.builds(retype, new_types, dup))


def rules(target, max_size=5, min_size=0, condition=None):
    if condition is None:
        condition = conditions()
    return st.lists(st.tuples(condition, target),
                    min_size=min_size, max_size=max_size)


@st.composite
def written(draw, target, max_size=5, min_size=0, condition=None):
    """Rules, and one way of writing them down."""
    chosen = draw(rules(target, max_size, min_size, condition))
    lines = []
    for condition, goal in chosen:
        gap = draw(st.sampled_from([" ", " ", "  "]))
        lines.append(draw(st.sampled_from(["", "", " "])) +
                     gap.join(condition) +
                     draw(st.sampled_from([" => ", " => ", "=>", "  =>  "]))
                     + gap.join(goal) + draw(st.sampled_from(["", "", " "])))
        if draw(st.integers(0, 9)) == 0:
            lines.append(draw(st.sampled_from(["", "  "])))
    text = "\n".join(lines)
    if lines and draw(st.booleans()):
        text += "\n"
    return [[c, g] for c, g in chosen], text


def holds(condition, kind, key):
    name, args = condition[0], condition[1:]
    if name == "any":
        return True
    if name == "not":
        return not holds(args, kind, key)
    if name == "metric_type":
        return kind in args
    return fnmatch.fnmatchcase(key, args[0])


def apply(target, kind, key, fields, redirected=None):
    """What becomes of a message that meets the condition of a rule."""
    name, args = target[0], target[1:]
    if name == "drop":
        return []
    if name == "rewrite":
        out = []
        if args[2:] == ["dup"] and re.match(args[0], key):
            out.append((kind, key, fields))
        return out + [(kind, re.sub(args[0], args[1], key), fields)]
    if name == "set_metric_type":
        out = [(kind, key, fields)] if args[1:] == ["dup"] else []
        return out + [(args[0], key, [fields[0], args[0]] + fields[2:])]
    if redirected is not None:
        redirected.append((target, key + ":" + "|".join(fields)))
    return [(kind, key, fields)]


def route(rules, kind, key, fields, redirected=None):
    """The messages that come out, in order."""
    flow = [(kind, key, fields)]
    for condition, target in rules:
        out = []
        for message in flow:
            if holds(condition, message[0], message[1]):
                out.extend(apply(target, *message, redirected=redirected))
            else:
                out.append(message)
        flow = out
    return flow
