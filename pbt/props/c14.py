"""C14: every datagram and every line reaches the processor, in order."""
import hypothesis.strategies as st

import gen
from core import Part, ensure

MODULES = ["scn_server"]
RULE = """A case is a traffic of datagrams, TCP connections and arbitrarily
cut TCP chunks, some of it being the monitor's message, with turns of the
reactor in between; non-trivial when at least two messages and one monitor
message arrive, or when a line arrives in several chunks."""
ASSUMPTIONS = [
    "Lines longer than the 16384 bytes Twisted's LineReceiver allows are left "
    "out.",
    "Messages of one connection keep their order; those of different "
    "connections keep the order in which the server received them.",
]


def strategy(tier):
    size = 20 if tier == "quick" else 60
    addresses = st.sampled_from([["192.0.2.7", 4000], ["192.0.2.8", 4001],
                                 ["192.0.2.7", 65535]])
    data = st.one_of(
        gen.message(gen.few_keys), gen.message(gen.few_keys), gen.malformed,
        st.just("MONITOR"), st.just("MONITOR"),
        st.sampled_from(["MONITOR ", " MONITOR", "MONITORx", "monitor"]),
        st.sampled_from([513, 1500, 4097, 8000]).map(
            lambda n: "a:%s|pd" % ("x" * (n - 5))))
    chunk = st.one_of(
        st.text(alphabet="a:1|c\r\n", min_size=1, max_size=12),
        st.lists(data, min_size=1, max_size=4).flatmap(
            lambda lines: st.tuples(
                st.lists(st.sampled_from(["\r\n", "\r\n", "\n", "\r"]),
                         min_size=len(lines), max_size=len(lines)),
                st.integers(0, 60), st.integers(0, 8)).map(
                    lambda how: "".join(
                        l + e for l, e in zip(lines, how[0]))[
                            how[2] if how[2] < 3 else 0:] if how[1] > 30
                    else "".join(l + e for l, e in zip(lines, how[0]))
                    [:how[1] + 1])),
        st.sampled_from(["\r", "\n", "\r\n", "MONITOR\r\n", "MONI", "TOR\r",
                         "TOR\r\n"])).filter(bool)
    op = st.one_of(
        st.tuples(st.just("udp"), data, addresses),
        st.tuples(st.just("udp"), data, addresses),
        st.tuples(st.just("tcp"), st.integers(0, 2), chunk),
        st.tuples(st.just("tcp"), st.integers(0, 2), chunk),
        st.tuples(st.just("connect")),
        st.tuples(st.just("close"), st.integers(0, 2)),
        st.tuples(st.just("turn")),
        st.tuples(st.just("idle"), st.sampled_from([1, 61, 3700, 90000])))
    monitor = st.sampled_from([["ping", "pong"], ["txstatsd ping", "ok\r\n"],
                               ["a:1|c", "yes"], None])

    def build(monitor, poison, ops):
        word = monitor[0] if monitor else "ping"

        def fill(value):
            if isinstance(value, str):
                return value.replace("MONITOR", word)
            return value
        kept, lines = [["connect"]], [""]
        for o in ops:
            o = [fill(v) for v in o]
            if o[0] == "connect":
                lines.append("")
            elif o[0] == "tcp":
                index = o[1] % len(lines)
                parts = (lines[index] + o[2]).split("\r\n")
                if max(len(line) for line in parts) > 16000:
                    continue
                lines[index] = parts[-1]
            kept.append(o)
        case = {"monitor": monitor, "ops": kept}
        if poison:
            case["poison"] = poison
        return case
    return st.builds(build, monitor, st.sampled_from([None, None, "g", "1"]),
                     st.lists(op, min_size=2, max_size=size))


def check(case, obs):
    monitor = case["monitor"]
    expected, replies = [], []
    connections = []
    for op, step in zip(case["ops"], obs["steps"]):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        if op[0] == "udp":
            if monitor and op[1] == monitor[0]:
                replies.append([monitor[1], op[2]])
            else:
                expected.append(op[1])
        elif op[0] == "connect":
            connections.append(["", "", True])
        elif op[0] == "tcp" and connections:
            connection = connections[op[1] % len(connections)]
            if connection[2]:
                connection[0] += op[2]
                while "\r\n" in connection[0]:
                    line, connection[0] = connection[0].split("\r\n", 1)
                    if monitor and line == monitor[0]:
                        connection[1] += monitor[1]
                    else:
                        expected.append(line)
        elif op[0] == "close" and connections:
            connections[op[1] % len(connections)][2] = False
    ensure(obs["messages"] == expected, "the processor got %r, expected %r",
           obs["messages"], expected)
    ensure(obs["udp"] == replies, "UDP answers %r, expected %r", obs["udp"],
           replies)
    for index, ((_, reply, alive), (value, connected)) in enumerate(
            zip(connections, obs["tcp"])):
        ensure(value == reply, "connection %d was sent %r, expected %r",
               index, value, reply)
        ensure(connected == alive, "connection %d: open %r, expected %r",
               index, connected, alive)


def classify(case, obs):
    labels = set()
    pinged = sum(len(v) for v, _ in obs["tcp"]) + len(obs["udp"])
    if pinged:
        labels.add("monitor answered")
    if obs["errors"]:
        labels.add("a message failed")
    chunks = [o[2] for o in case["ops"] if o[0] == "tcp"]
    split = any(not c.endswith("\r\n") for c in chunks) and any(
        "\r\n" in c for c in chunks)
    if split:
        labels.add("split lines")
    return bool((len(obs["messages"]) > 1 and pinged) or split), \
        sorted(labels)


PARTS = [Part("traffic", "listen", strategy, check, classify,
              quick=3000, thorough=60000)]
