"""C20: the plain UDP client never fails, never blocks."""
import hypothesis.strategies as st

import gen
from core import Part, ensure

MODULES = ["scn_net"]
RULE = """A case is an address, what its lookup gives, and a history of writes,
connects and disconnects while sending fails in different ways;
non-trivial when writes happen both while sending works and while it fails or
is not connected."""


def strategy(tier):
    size = 20 if tier == "quick" else 50
    op = st.one_of(
        st.tuples(st.just("write"), gen.message(gen.few_keys)),
        st.tuples(st.just("write"), gen.message(gen.few_keys)),
        st.tuples(st.just("write"), st.text(
            alphabet=st.characters(max_codepoint=255), max_size=10)),
        st.tuples(st.just("write"), st.sampled_from(
            [255, 256, 508, 512, 513, 1432, 1472, 1500, 8192, 65507]).map(
                lambda n: "k" * (n - 4) + ":1|c")),
        st.tuples(st.sampled_from(["connect", "connect", "disconnect"])),
        st.tuples(st.just("fail"), st.sampled_from(
            ["", "", "", "again", "refused", "size", "unreachable", "gai"])))
    return st.builds(
        lambda host, port, lookup, ops: dict(
            host=host, port=port, lookup=lookup, 
            ops=[["connect"]] * (len(ops) % 3 > 0) + [list(o) for o in ops]),
        st.sampled_from(["stats.test", "192.0.2.50", "192.0.2.50"] * 3 + [None]),
        st.sampled_from([8125, 1, 65535, 8125] * 2 + [None]),
        st.sampled_from(["ok"] * 12 + ["fails", "error", "none"]),
        st.lists(op, min_size=5, max_size=size))


def check(case, obs):
    known = case["host"] is not None and case["port"] is not None
    if known and case["lookup"] != "ok":
        ensure(obs["made"] is not None and obs["made"]["type"] ==
               "ValueError", "an address that cannot be resolved gave %r",
               obs["made"])
        return
    ensure(obs["made"] is None, "making the client raised %r", obs["made"])
    connected = False
    failing = ""
    expected = []
    sockets = 0
    for op, step in zip(case["ops"], obs["steps"]):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        if op[0] == "connect":
            connected = True
        elif op[0] == "disconnect":
            connected = False
            ensure(all(closed for _, closed in step["sockets"][-1:]),
                   "the socket is open after disconnect")
        elif op[0] == "fail":
            failing = op[1]
        elif op[0] == "write":
            sends = known and connected and not failing
            if sends:
                expected.append([op[1], ["192.0.2.50", case["port"]], False])
            ensure(step["result"] == (len(op[1]) if sends else None),
                   "%r returned %r", op, step["result"])
        got = sum([sent for sent, _ in step["sockets"]], [])
        ensure(got == expected, "after %r sent %r (data, address, blocking), "
               "expected %r", op, got, expected)


def classify(case, obs):
    good = bad = False
    labels = set()
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "write":
            if step["result"] is None:
                bad = True
            else:
                good = True
    if obs["made"] is not None:
        labels.add("address refused")
    if good:
        labels.add("sent")
    if bad:
        labels.add("not sent")
    return good and bad, sorted(labels)


PARTS = [Part("socket", "plain_udp", strategy, check, classify,
              quick=3000, thorough=50000)]
