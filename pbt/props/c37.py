"""C37: plugins get the messages of their type, and publish what they give."""
import hypothesis.strategies as st

import gen
import model
from core import Part, ensure

MODULES = ["scn_plugin"]
RULE = """A case is a set of plugins and a history of messages, some of which
the plugins refuse, clock steps and flushes, on a processor of any mode, alone
or behind the router, or (second part) on the whole daemon, whose options come
from the program, a file or the command line. Non-trivial when two types meet
under one name, or a plugin refuses a message, and a flush follows."""
ASSUMPTIONS = [
    "Every plugin has a type of its own, which is none of the built-in ones.",
    "Plugins refuse with ValueError or TypeError; their flushes do not fail.",
    "In the second part nothing of what the daemon receives is refused.",
]
TYPES = ["kv", "set", "h", "C", "x y", "cc", "sli"]


def plugin_sets():
    shape = st.tuples(st.sampled_from(["list", "tuple", "generator"]),
                      st.integers(0, 3), st.sampled_from([0, 0, 60]))
    return st.lists(
        st.tuples(st.sampled_from(TYPES), st.sampled_from(
            ["kinds", "sets", "a.b", "kinds"]), shape).map(
                lambda t: [t[0], t[1], list(t[2])]),
        min_size=1, max_size=3, unique_by=lambda p: p[0])


def messages(types, keys):
    value = st.one_of(
        st.sampled_from(["1", "-2.5", "a", "", "x:y", " 1 ", "\xe9", "0",
                         "nan"]),
        st.text(alphabet="ab1:. ", max_size=5))
    refused = st.sampled_from(["bad", "odd", "1bad"])
    kind = st.sampled_from(types)
    return st.one_of(
        st.builds("{0}:{1}|{2}".format, keys, value, kind),
        st.builds("{0}:{1}|{2}".format, keys, value, kind),
        st.builds("{0}:{1}|{2}|{3}".format, keys, value, kind, value),
        st.builds("{0}:{1}|{2}".format, keys, refused, kind))


def strategy(tier):
    size = 25 if tier == "quick" else 60

    def ops(plugins):
        types = [p[0] for p in plugins] * 3 + ["c", "g", "nope"]
        message = messages(types, st.sampled_from(
            ["a", "a", "b", "c d/e", "c_d-e", "x!y", "xy"]))
        op = st.one_of(
            st.builds(lambda m: ["m", m], message),
            st.builds(lambda m: ["m", m], message),
            st.builds(lambda m: ["m", m], message),
            st.builds(lambda t: ["t", t], gen.steps),
            st.builds(lambda i, p: ["f", i, p], gen.intervals, gen.percents))
        return st.lists(op, min_size=4, max_size=size).map(
            lambda l: l + [["t", 7], ["f", 10000, 90]])

    def build(plugins):
        return st.builds(
            lambda mode, prefix, router, now, history: {
                "plugins": plugins, "mode": mode, "prefix": prefix,
                "router": router, "now": now, "ops": history},
            gen.modes, st.sampled_from(["", "pfx", "a.b"]), st.booleans(),
            st.sampled_from([1000000.0, 1400000000.75]), ops(plugins))
    return plugin_sets().flatmap(build)


def meaning(message, types):
    """Type, key and fields of what a plugin gets."""
    name, data = message.strip(model.SPACE).split(":", 1)
    fields = data.split("|")
    if len(fields) > 3 or len(fields) < 2 or fields[1] not in types:
        return None
    return fields[1], model.normalize(name), fields


def refuses(fields):
    return "bad" in fields[0] or "odd" in fields[0]


def follow(case, ops):
    """The state of every metric in the end: calls, accepted or not, with
    their times."""
    types = set(p[0] for p in case["plugins"])
    now = case["now"]
    calls, flushes, verdicts = {}, [], []
    for op in ops:
        verdict = None
        if op[0] == "t":
            now += op[1]
        elif op[0] == "f":
            flushes.append((now, op[1], set(
                place for place, seen in calls.items()
                if not all(refuses(f) for f, _ in seen))))
        else:
            got = meaning(op[1], types)
            if got is not None:
                calls.setdefault(got[:2], []).append((got[2], now))
                verdict = refuses(got[2])
        verdicts.append(verdict)
    return calls, flushes, verdicts


def check(case, obs):
    calls, flushes, verdicts = follow(case, case["ops"])
    for op, step, verdict in zip(case["ops"], obs["steps"], verdicts):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        if verdict is not None:
            ensure(step["fails"] == verdict, "%r was discarded %d times, "
                   "expected %d", op, step["fails"], verdict)
    kept = judge(case, obs["metrics"], calls, flushes)
    for place in kept:
        ensure(obs["names"].count(place[1]) == 1, "%r is in the list of "
               "metrics %d times", place[1], obs["names"].count(place[1]))
    # What a flush publishes is what the metrics gave for it.
    done = dict((place, 0) for place in kept)
    index = 0
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] != "f":
            continue
        now, interval, due = flushes[index]
        index += 1
        left = [list(i) for i in step["items"]]
        for place in due:
            given = kept[place]["flushes"][done[place]]
            done[place] += 1
            ensure(model.close(given[0], interval / 1000.0) and
                   given[1] == int(now), "the plugin was asked for %r at %r, "
                   "expected %r at %r", given[0], given[1],
                   interval / 1000.0, int(now))
            want = [list(i) for i in given[2]]
            mine = [i for i in left if i[0] in set(w[0] for w in want)]
            ensure(mine == want, "%r gave %r, published were %r", place,
                   want, mine)
            left = [i for i in left if i not in mine]
        ensure(not left, "published were also %r", left)


def judge(case, metrics, calls, flushes):
    """The metrics that stay, by type and key."""
    kept = {}
    names = dict((p[0], p[1]) for p in case["plugins"])
    for metric in metrics:
        place = (metric["type"], metric["name"])
        ensure(place in calls, "a metric was made for %r", place)
        prefix = "stats." + names[metric["type"]] \
            if case["mode"] == "compliant" else case["prefix"]
        ensure(metric["prefix"] == prefix, "%r has the prefix %r, expected %r",
               place, metric["prefix"], prefix)
        if metric["flushes"]:
            ensure(place not in kept, "two metrics are flushed for %r", place)
            kept[place] = metric
    for place, seen in calls.items():
        count = sum(1 for _, _, due in flushes if place in due)
        got = len(kept[place]["flushes"]) if place in kept else 0
        ensure(got == count, "%r was flushed %d times, expected %d", place,
               got, count)
        # A metric that refused its first message may be made anew.
        mine = [m for m in metrics if (m["type"], m["name"]) == place]
        fields = [f for m in mine for f in m["calls"]]
        ensure(fields == [f for f, _ in seen], "%r got %r, expected %r",
               place, fields, [f for f, _ in seen])
        times = [t for m in mine for t in m["times"]]
        ensure(times == [t for _, t in seen], "the clock of %r says %r, it "
               "was %r", place, times, [t for _, t in seen])
        if place in kept:
            taken = [f for f in kept[place]["calls"] if not refuses(f)]
            want = [f for f, _ in seen if not refuses(f)]
            ensure(taken == want, "the metric of %r took %r, expected %r",
                   place, taken, want)
    return kept


def classify(case, obs):
    calls, flushes, verdicts = follow(case, case["ops"])
    labels = {case["mode"]}
    if case["router"]:
        labels.add("behind router")
    keys = [key for _, key in calls]
    if len(set(keys)) < len(keys):
        labels.add("two types under one name")
    if True in verdicts:
        labels.add("refused")
    return bool(flushes and (True in verdicts or
                             len(set(keys)) < len(keys))), sorted(labels)


# -- In the daemon ------------------------------------------------------------

def daemon_strategy(tier):
    size = 15 if tier == "quick" else 40

    def build(plugins):
        message = messages([p[0] for p in plugins] * 2 + ["g"],
                           st.sampled_from(["a", "b", "c.d"])).filter(
            lambda m: "bad" not in m and "odd" not in m)
        op = st.one_of(
            st.builds(lambda m: ["udp", m], message),
            st.builds(lambda m: ["udp", m], message),
            st.builds(lambda t: ["t", t], st.sampled_from(
                [0.25, 1, 5, 10, 21])))
        own = st.dictionaries(st.sampled_from(["rule", "path"]),
                              st.sampled_from(["1", "a b", "%x"]), max_size=2)
        return st.builds(
            lambda compliant, dump, interval, port, own, how, ops: {
                "plugins": plugins, "how": how, "now": 1000000.0,
                "mode": "compliant" if compliant else "config",
                "prefix": "pfx", "ops": [["accept", 0]] + ops, "settle": 4, "options": dict({
                    "statsd-compliance": compliant, "prefix": "pfx",
                    "instance-name": "me", "flush-interval": interval,
                    "listen-port": port, "dump-mode": dump,
                    "carbon-cache-host": ["192.0.2.1"],
                    "carbon-cache-port": [2004], "carbon-cache-name": [None],
                }, **({} if own is None else {"plugin_own": own}))},
            st.sampled_from([1, 0]), st.sampled_from([0, 0, 1]),
            st.sampled_from([10000, 1000, 2500]),
            st.sampled_from([8125, 9125]), st.one_of(st.none(), own),
            st.sampled_from([None, "argv", "file"]),
            st.lists(op, min_size=4, max_size=size))
    return plugin_sets().flatmap(build)


def daemon_check(case, obs):
    options = case["options"]
    own = sorted([k, v] for k, v in options.get("plugin_own", {}).items())
    # Whoever dumps does so besides being of a mode.
    want = sorted([p[0], options["flush-interval"], options["listen-port"],
                   own] for p in case["plugins"])
    ensure(sorted(obs["configured"]) == want, "plugins were configured %r, "
           "expected %r", obs["configured"], want)
    types = set(p[0] for p in case["plugins"])
    calls = {}
    for op in case["ops"]:
        if op[0] == "udp":
            got = meaning(op[1], types)
            if got is not None:
                calls.setdefault(got[:2], []).append(got[2])
    seen = {}
    given = []
    for metric in obs["metrics"]:
        place = (metric["type"], metric["name"])
        ensure(place not in seen, "two metrics were made for %r", place)
        seen[place] = metric["calls"]
        for interval, _, items in metric["flushes"]:
            ensure(model.close(interval, options["flush-interval"] / 1000.0),
                   "a plugin was asked for %r seconds", interval)
            given.extend([list(i) for i in items])
        stamps = [f[1] for f in metric["flushes"]]
        ensure(len(set(stamps)) == len(stamps), "%r was flushed at %r", place,
               stamps)
    ensure(seen == calls, "plugins got %r, expected %r", seen, calls)
    published = sorted([m, v, t] for m, t, v in obs["points"])
    ensure(published == sorted(given), "to carbon went %r, plugins gave %r",
           published[:20], sorted(given)[:20])


def daemon_classify(case, obs):
    labels = {case["how"] or "direct", case["mode"]}
    return bool(obs["points"]) and len(case["plugins"]) > 1, sorted(labels)


PARTS = [
    Part("contract", "plugins", strategy, check, classify,
         quick=1500, thorough=30000),
    Part("daemon", "plugins_daemon", daemon_strategy, daemon_check,
         daemon_classify, quick=300, thorough=5000),
]
