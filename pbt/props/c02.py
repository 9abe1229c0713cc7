"""C02: keys are normalised for graphite, and equal keys are one series."""
import hypothesis.strategies as st

import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_proc"]
RULE = """A case is a history of messages with raw keys (spaces, slashes,
control and non-ASCII characters) for one processor; it is non-trivial when
some accepted key is changed by normalisation and is published."""


def strategy(tier):
    variants = st.sampled_from([
        "a b", "a  b", "a\tb", "a_b", "a/b", "a//b", "a-b", "a \n b", "a/ b",
        "a%b", "ab", "a\xe9b", "a(b)", "a .b", "a/.b", " ab", "ab ", "/ab",
        "a\x00b", "a\x85b", "a@b", "a|b"[:1] + "b"])
    return histories.history(
        tier, ("c", "ms", "g", "m", "sli", "pd"),
        keys=st.one_of(gen.raw_keys, variants), junk=False)


def check(case, obs):
    histories.follow(case, obs)
    own = histories.is_self(case)
    prefix = case.get("prefix", "")
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "f":
            for name, value, stamp in step["items"]:
                ensure(name == model.normalize(name) or own(name),
                       "published name %r is not fit for graphite", name)


def classify(case, obs):
    labels, messages, between = histories.shape(case)
    raw = [m.strip(model.SPACE).split(":")[0] for m in messages]
    changed = [k for k in raw if model.normalize(k) != k]
    if changed:
        labels.append("key changed")
    normal = {}
    for key in raw:
        normal.setdefault(model.normalize(key), set()).add(key)
    if any(len(v) > 1 for v in normal.values()):
        labels.append("keys merged")
    return bool(changed), labels


PARTS = [Part("keys", "proc", strategy, check, classify,
              quick=1800, thorough=40000)]
