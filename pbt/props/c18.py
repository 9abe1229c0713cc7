"""C18: consistent hashing."""
import bisect
import hashlib

import hypothesis.strategies as st

import gen
import model
from core import Part, ensure

MODULES = ["scn_net"]
RULE = """A case is a ring, nodes added and removed, and keys looked up after
every change; non-trivial when a change moves some keys and leaves others,
among at least two nodes. The second part sends metrics through the hashing
client; non-trivial when two servers get messages."""
ASSUMPTIONS = [
    "Two nodes whose replicas share a place on the ring (32 bits) may come in "
    "either order there.",
]


def position(key):
    return int(hashlib.md5(key.encode("latin-1")).hexdigest()[:8], 16)


_REPLICAS = {}


def replicas(node, count):
    if (node, count) not in _REPLICAS:
        _REPLICAS[node, count] = [
            position("%s:%d" % (node, i)) for i in range(count)]
    return _REPLICAS[node, count]


class Ring(object):
    def __init__(self, nodes, count):
        self.nodes = set(nodes)
        places = {}
        for node in self.nodes:
            for place in replicas(node, count):
                places.setdefault(place, set()).add(node)
        self.places = sorted(places.items())

    def order(self, key):
        """The sets of nodes at the places from the key on."""
        start = bisect.bisect_left(self.places, (position(key),))
        n = len(self.places)
        return [self.places[(start + i) % n][1] for i in range(n)]


nodes = st.one_of(
    st.sampled_from(["a", "b", "c", "127.0.0.1:8125", "127.0.0.1:8126",
                     "stats.test:10"]),
    st.text(alphabet="abc:1.", min_size=1, max_size=6))
KEYS = st.one_of(
    st.text(alphabet=gen.WORD, max_size=8),
    st.text(alphabet=st.characters(max_codepoint=255), max_size=6),
    st.integers(0, 10 ** 9).map(lambda n: "key%d" % n),
    # Names that begin, or end, alike.
    st.builds(lambda n, k: ("servers.web.production.requests." * n)[:k],
              st.sampled_from([2, 4, 9]), st.integers(1, 288)),
    st.integers(0, 99).map(
        lambda n: "servers.web.production.requests.%d.count" % n))


def strategy(tier):
    op = st.tuples(st.sampled_from(["add", "add", "remove"]), nodes)
    return st.builds(
        lambda start, ops, keys, count: dict(
            start=start, ops=[list(o) for o in ops], keys=keys,
            replicas=count),
        st.lists(nodes, min_size=1, max_size=4, unique=True),
        st.lists(op, min_size=1, max_size=5),
        st.lists(KEYS, min_size=5, max_size=30),
        st.sampled_from([1, 2, 8, 8, 64, 64, None]))


def check(case, obs):
    members = set(case["start"])
    count = case["replicas"] or 1024
    before = None
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "add":
            members.add(op[1])
        else:
            members.discard(op[1])
        ensure(step["nodes"] == sorted(members), "after %r the nodes are %r",
               op, step["nodes"])
        if not members:
            before = None
            continue
        ring = Ring(members, count)
        for key, got, everyone in zip(case["keys"], step["get"], step["all"]):
            ensure(got in members, "%r went to %r, not one of the nodes", key,
                   got)
            order = ring.order(key)
            ensure(got in order[0], "%r went to %r, expected %r", key, got,
                   sorted(order[0]))
            ensure(sorted(everyone) == sorted(members),
                   "get_nodes(%r) gave %r of %r", key, everyone,
                   sorted(members))
            ensure(everyone[0] == got, "get_nodes(%r) begins with %r, "
                   "get_node gave %r", key, everyone[0], got)
            seen, left = [], list(everyone)
            for at in order:
                new = [n for n in at if n not in seen]
                while new:
                    ensure(left[0] in new, "get_nodes(%r) gave %r, next on "
                           "the ring is %r", key, everyone, sorted(new))
                    new.remove(left[0])
                    seen.append(left.pop(0))
        if before is not None:
            for key, old, new in zip(case["keys"], before, step["get"]):
                if old != new:
                    ensure(op[1] in (old, new), "%r moved from %r to %r on "
                           "%r", key, old, new, op)
        before = step["get"]


def classify(case, obs):
    labels = set()
    nontrivial = False
    before = None
    for op, step in zip(case["ops"], obs["steps"]):
        now = step.get("get")
        if now and before:
            moved = sum(a != b for a, b in zip(now, before))
            if moved:
                labels.add(op[0] + " moved keys")
            if 0 < moved < len(now):
                nontrivial = True
        before = now
    return nontrivial, sorted(labels)


def client_strategy(tier):
    return st.builds(
        lambda nodes, sends: dict(nodes=nodes, sends=[
            list(s) for s in sends]),
        st.lists(nodes, min_size=1, max_size=4, unique=True),
        st.lists(st.tuples(
            KEYS.filter(lambda k: ":" not in k),
            st.sampled_from(["1|c", "1:2|g", "x|pd", ""])), min_size=1,
            max_size=40))


def client_check(case, obs):
    ring = Ring(case["nodes"], 1024)
    want = {name: [] for name in case["nodes"]}
    got = {}
    for name, (lines, calls) in zip(case["nodes"], obs["nodes"]):
        ensure(calls == ["connect", "disconnect"],
               "%r was told %r", name, calls)
        got[name] = lines
    for key, data in case["sends"]:
        choices = ring.order(key)[0]
        line = key + ":" + data
        home = [n for n in choices if got[n][len(want[n]):][:1] == [line]]
        ensure(home, "%r should have gone to %r; all got %r", line,
               sorted(choices), got)
        want[home[0]].append(line)
    ensure(want == got, "sent %r, expected %r", got, want)


def client_classify(case, obs):
    busy = sum(1 for lines, _ in obs["nodes"] if lines)
    return busy > 1, ["servers used: %d" % busy]


PARTS = [
    Part("ring", "ring", strategy, check, classify, quick=800,
         thorough=15000),
    Part("client", "spread", client_strategy, client_check, client_classify,
         quick=120, thorough=2000),
]
