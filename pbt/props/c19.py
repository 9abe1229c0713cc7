"""C19: the Twisted client queues until it can send, then sends in order."""
import hypothesis.strategies as st

import gen
from core import Part, ensure

MODULES = ["scn_net"]
RULE = """A case is a history of writes, the name being resolved (or not), the
port opening and closing and sending failing; non-trivial when messages were
queued and sent later, and others sent at once."""
ASSUMPTIONS = [
    "The reactor has turned before the port is closed.",
]
LIMIT = 1000


def strategy(tier):
    size = 25 if tier == "quick" else 60
    data = st.one_of(gen.message(gen.few_keys),
                     st.text(alphabet="ab:1|c", max_size=8))
    # Most bursts are small: a queue of a thousand takes a while to fill.
    many = st.sampled_from([2] * 16 + [5, 7, 30, 400, 600, 999, 1000, 1001,
                                       1500])
    write = st.tuples(st.just("write"), data, st.booleans())
    op = st.sampled_from(range(20)).flatmap(
        lambda n: write if n < 9 else
        st.tuples(st.just("many"), many) if n < 10 else
        st.tuples(st.sampled_from(["resolve", "resolve", "open", "open",
                                   "open", "turn", "turn", "close"]))
        if n < 18 else
        st.tuples(st.just("refuse"), st.sampled_from(
            ["socket", "gai", "type", "overflow", "", "", "", ""])))

    def build(host, errback, lazy, bad, opening, before, ops, making):
        if opening:
            # Most histories get to a working client.
            ops = before + [(opening[0],)] + ops[:1] + [(opening[1],)] + \
                ops[1:]
        ops = [list(o) for o in ops]
        if bad:
            ops = [["unresolved"] if o == ["resolve"] else o for o in ops]
        callbacks, reactor, direct, port = making
        return {"host": host, "port": port, "errback": errback, "lazy": lazy, "ops": ops,
                "callbacks": callbacks, "reactor": reactor,
                "direct": direct and not bad}
    return st.builds(
        build, st.sampled_from(["192.0.2.50", "stats.test", "stats.test"]),
        st.booleans(), st.booleans(),
        st.sampled_from([False] * 7 + [True]),
        st.sampled_from([None, ("resolve", "open"), ("open", "resolve"),
                         ("open", "resolve")]),
        st.lists(op, min_size=1, max_size=4),
        st.lists(op, min_size=4, max_size=size),
        st.tuples(st.sampled_from([["connect", "disconnect"], ["connect"],
                                   ["disconnect"], []]),
                  st.booleans(), st.sampled_from([False, False, True]),
                  st.sampled_from([8125, 9125, 1, 65535])))


def check(case, obs):
    resolved = case["host"] == "192.0.2.50"
    lookup_over = resolved
    failed = False
    opened = False
    refusing = ""
    queue = []
    dropped = 0
    pending = []        # handed to the reactor: number, data
    sent, results = [], {}
    events = ["connect"] if resolved else []
    callbacks = {}
    number = 0

    def send(item):
        n, data = item
        pending.append(item)

    def run():
        for n, data in pending:
            if refusing:
                if callbacks.get(n):
                    results[n] = None
            else:
                sent.append([data, ["192.0.2.50", case["port"]]])
                if callbacks.get(n):
                    results[n] = len(data)
        del pending[:]

    def write(item):
        if resolved and opened:
            send(item)
        elif len(queue) < LIMIT:
            queue.append(item)

    for op, step in zip(case["ops"], obs["steps"]):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        if op[0] == "write":
            callbacks[number] = op[2]
            write((number, op[1]))
            number += 1
        elif op[0] == "many":
            for i in range(op[1]):
                write((number, "n%d:1|c" % number))
                number += 1
        elif op[0] == "resolve" and not lookup_over:
            resolved = lookup_over = True
            events.append("connect")
        elif op[0] == "unresolved" and not lookup_over:
            lookup_over = failed = True
        elif op[0] == "open" and not opened:
            opened = True
            refusing = ""
        elif op[0] == "close" and opened:
            run()
            opened = False
            events.append("disconnect")
        elif op[0] == "refuse" and opened:
            # Takes effect for what the reactor sends from now on.
            refusing = op[1]
        if resolved and opened:
            for item in queue:
                send(item)
            del queue[:]
        if not case["lazy"] or op[0] == "turn":
            run()
        ensure(step["sent"] == len(sent), "after %r %d datagrams were sent, "
               "expected %d", op, step["sent"], len(sent))
    run()
    ensure(obs["sent"] == sent, "sent %r, expected %r",
           brief(obs["sent"], sent), brief(sent, obs["sent"]))
    got = {}
    for n, value in obs["results"]:
        ensure(n not in got, "the callback of write %d was called twice", n)
        got[n] = value
    ensure(got == results, "callbacks got %r, expected %r", got, results)
    events = [e for e in events if e in case["callbacks"]]
    ensure(obs["events"] == events, "connection callbacks %r, expected %r",
           obs["events"], events)
    if case["errback"]:
        ensure(len(obs["failures"]) == failed, "errback got %r",
               obs["failures"])
        ensure(not obs["errors"], "errors were logged: %r", obs["errors"])
    else:
        ensure(len(obs["errors"]) == failed, "logged %r", obs["errors"])


def brief(a, b):
    """From the first difference on."""
    for index in range(max(len(a), len(b))):
        if a[index:index + 1] != b[index:index + 1]:
            return "... [%d:] %r" % (index, a[index:index + 5])
    return a[:5]


def classify(case, obs):
    labels = set()
    late = at_once = False
    before = 0
    for op, step in zip(case["ops"], obs["steps"]):
        if step["sent"] > before:
            if op[0] in ("write", "many"):
                at_once = True
            else:
                late = True
        if op[0] == "many" and op[1] > 999 and step["sent"] == before:
            labels.add("queue full")
        before = step["sent"]
    if late:
        labels.add("sent late")
    if at_once:
        labels.add("sent at once")
    if case["direct"]:
        labels.add("resolved by the caller")
    labels.add("lazy reactor" if case["lazy"] else "eager reactor")
    return late and at_once, sorted(labels)


PARTS = [Part("queue", "queue", strategy, check, classify,
              quick=2000, thorough=40000)]
