"""C16: what the client is told is what the server publishes."""
import hypothesis.strategies as st

import calls
import gen
import histories
import model
from core import Part, ensure

MODULES = ["scn_client"]
RULE = """A case is a history of client calls, flushes and clock steps, carried
from client to server directly, or over UDP with an address or a name that is
resolved at some point; non-trivial when at least three calls of two kinds
happen and a flush lies between calls."""
ASSUMPTIONS = [
    "The network neither loses nor reorders datagrams here.",
    "The basic client speaks to a compliant server, the extended client to a "
    "configurable one, as documented.",
    "Values survive with the 12 digits Python 2 writes.",
]


def strategy(tier):
    size = 25 if tier == "quick" else 70
    names = st.sampled_from(["a", "b", "x y/z", "c.d", "a", "b", "c.d", "ns.A",
                             "a.b.x"])
    wait = st.tuples(st.just("t"), st.integers(1, 400).map(
        lambda n: n / 4.0)).map(list)
    op = st.one_of(calls.call(names), calls.call(names), calls.call(names),
                   wait)
    interval = st.tuples(
        st.lists(op, min_size=1, max_size=size // 3),
        st.tuples(st.just("f"), gen.intervals, gen.percents).map(list),
        st.lists(wait, max_size=1)).map(lambda t: t[0] + [t[1]] + t[2])

    def build(api, transport, namespace, prefix, router, ops, at):
        case = {"api": api, "transport": transport, "now": 1000000.0,
                "mode": "compliant" if api == "basic" else "config",
                "namespace": namespace}
        ops = ops + [["t", 3], ["f", 10000, 90], ["t", 10], ["f", 10000, 90]]
        if transport == "name":
            ops = ops[:at] + [["resolve"]] + ops[at:]
        if api == "extended":
            case["prefix"] = prefix
        if router:
            case["router"] = ""
        case["ops"] = ops
        return case
    return st.builds(
        build, st.sampled_from(["basic", "extended"]),
        st.sampled_from(["internal", "udp", "name"]),
        st.sampled_from(["", "ns", "a.b"]), st.sampled_from(["", "pfx"]),
        st.booleans(), st.lists(interval, min_size=1, max_size=size // 6).map(
            lambda l: sum(l, [])),
        st.integers(0, 6))


def check(case, obs):
    ensure(not obs["fails"], "the server discarded %r", obs["fails"])
    ensure(not obs["errors"], "errors were logged: %r", obs["errors"])
    meaning = calls.Meaning(case, case["now"])
    ref = model.Ref(case["mode"], case.get("prefix", ""), now=case["now"])
    own = histories.is_self(case)
    queue = []
    resolved = case["transport"] != "name"
    for index, (op, step) in enumerate(zip(case["ops"], obs["steps"])):
        if op[0] == "f":
            ensure("exc" not in step, "flush raised %r", step.get("exc"))
            items = [i for i in ref.flush(op[1], op[2])
                     if i.category != "self"]
            for item in items:
                item.rel = 2e-11 if item.category == "gauge" else 1e-8
            problem = model.compare(
                items, [i for i in step["items"] if not own(i[0])],
                int(ref.now))
            ensure(problem is None, "flush at step %d: %s", index, problem)
            continue
        if op[0] == "resolve":
            resolved = True
        elif op[0] == "t":
            meaning.of(op)
            ref.now += op[1]
            continue
        else:
            queue.extend(meaning.of(op))
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        if resolved:
            for key, kind, value, extra in queue:
                p = model.Parsed()
                p.kind, p.key, p.rate = kind, model.normalize(key), 1.0
                p.value = value
                ref.process(p)
            queue = []


def classify(case, obs):
    labels = {case["api"], case["transport"]}
    kinds, number, busy, dirty = set(), 0, 0, False
    for op in case["ops"]:
        if op[0] == "f":
            busy += dirty
            dirty = False
        elif op[0] not in ("t", "resolve", "reset_timing"):
            kinds.add(op[0])
            number += 1
            dirty = True
    if busy > 1:
        labels.add("several busy intervals")
    return number > 2 and len(kinds) > 1 and busy > 1, sorted(labels)


PARTS = [Part("round trip", "end_to_end", strategy, check, classify,
              quick=1500, thorough=30000)]
