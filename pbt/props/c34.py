"""C34: the daemon reports of itself what it is asked to, once a minute."""
import hypothesis.strategies as st

import model
from core import Part, ensure
from props.c28 import carbon_options, check_world, interesting, make_ref, \
    mode_of
from props.c31 import HEAD

MODULES = ["scn_self"]
RULE = """A case is a daemon, the names of the reports asked for, readings of
the process, the reactor and the system that change every minute, and a
history of time passing and gauges received; non-trivial when at least two
groups of readings are asked for and published in two minutes."""
ASSUMPTIONS = [
    "psutil and the files in /proc are stand-ins; everything else, up to the "
    "connections to carbon, runs.",
    "No flush is due at the very time of a report.",
    "The thread that inspects the reactor is run by the check itself.",
]
GROUPS = ["process", "counter", "io", "net", "system", "reactor"]
DEVICES = ["lo", "eth0", "eth0.100"]


def reading():
    n = st.integers(0, 10 ** 6)
    quarter = st.integers(0, 10 ** 6).map(lambda i: i / 4.0)

    def build(memory, percents, cpu, threads, io, connections, cpus, size,
              mem, loads, devices):
        text = HEAD + "".join(
            "%6s: %s\n" % (name, " ".join(map(str, values)))
            for name, values in devices)
        return {
            "memory": memory, "cpu_percent": percents[0],
            "memory_percent": percents[1], "cpu": cpu, "threads": threads,
            "io": io, "connections": connections,
            "cpus": dict(zip(["user", "system", "idle"], cpus)),
            "readers": size[0], "writers": size[1],
            "meminfo": "".join("%s: %8d kB\n" % i for i in zip(
                ["MemTotal", "MemFree", "Active"], mem)),
            "loadavg": "%.2f %.2f %.2f 1/99 7\n" % tuple(loads),
            "netdev": text,
            "mem": mem, "loads": loads, "devices": devices}
    four = st.lists(n, min_size=4, max_size=4)
    three = st.lists(quarter, min_size=3, max_size=3)
    return st.builds(
        build, st.lists(n, min_size=2, max_size=2),
        st.lists(quarter, min_size=2, max_size=2),
        st.lists(quarter, min_size=2, max_size=2), st.integers(1, 99), four,
        st.lists(st.sampled_from(["ESTABLISHED", "LISTEN", "CLOSE_WAIT"]),
                 max_size=5), three, st.lists(st.integers(0, 9), min_size=2,
                                              max_size=2),
        st.lists(n, min_size=3, max_size=3), three,
        st.lists(st.tuples(st.sampled_from(DEVICES),
                           st.lists(n, min_size=16, max_size=16)),
                 max_size=3, unique_by=lambda d: d[0]))


def strategy(tier):
    gauge = st.tuples(st.just("udp"), st.builds(
        "{0}:{1}|g".format, st.sampled_from(["a", "b"]), st.integers(0, 99)))
    wait = st.tuples(st.just("t"), st.sampled_from(
        [60, 60, 60, 61, 30, 7, 59.5, 120, 0.25]))

    def build(compliant, dump, prefix, instance, interval, names, joint,
              readings, delays, early, ops):
        report = None if names is None else joint.join(names)
        ops = [list(o) for o in ops]
        # At most ten minutes.
        spent, kept = 0, []
        for o in ops:
            if o[0] == "t":
                spent += o[1]
                if spent > 600:
                    break
            kept.append(o)
        first = [list(o) for o in early]
        if delays and names and "reactor" in names:
            first.append(["inspect", delays])
        return {"options": dict(carbon_options([(2004, None)]), **{
            "statsd-compliance": compliant, "prefix": prefix,
            "instance-name": instance, "flush-interval": interval,
            "listen-tcp-port": None, "max-datapoints-per-message": 1000,
            "dump-mode": dump, "report": report}),
            "asked": names or [], "now": 1000000.0, "readings": readings,
            "ops": first + kept}
    other = st.sampled_from([[]] * 6 + [["nonsense"], ["PROCESS_STATS"],
                                        ["report"], [""]])
    names = st.builds(
        lambda chosen, more: None if chosen is None else chosen + more,
        st.integers(0, 9).flatmap(
            lambda n: st.none() if n == 9 else st.permutations(GROUPS).map(
                lambda all: list(all)[:min(n, 6)])), other)
    return st.builds(
        build, st.sampled_from([1, 0]), st.sampled_from([0, 0, 0, 1]),
        st.sampled_from([None, "pfx", ""]),
        st.sampled_from(["me", "host-1", "a.b", "web 1", None, ""]),
        # None of these meets a whole minute in the time there is (and all
        # are exact as floats, which is what a LoopingCall needs).
        st.sampled_from([7125, 13000, 17250, 59000, 90500]),
        names,
        st.sampled_from([",", ",", ", ", " , "]),
        st.lists(reading(), min_size=2, max_size=5 if tier == "quick"
                 else 11),
        st.lists(st.integers(0, 4).map(lambda n: n / 16.0), max_size=4),
        st.lists(gauge, max_size=2),
        st.lists(st.one_of(wait, wait, wait, gauge), min_size=4,
                 max_size=9 if tier == "quick" else 20))


def groups(asked, r):
    """What each group says of a reading: [(is a counter, {name: value})]."""
    if "process" in asked:
        yield "process", False, {
            "proc.cpu.percent": r["cpu_percent"],
            "proc.memory.percent": r["memory_percent"],
            "proc.memory.vsize": r["memory"][1],
            "proc.memory.rss": r["memory"][0], "proc.threads": r["threads"]}
    if "counter" in asked:
        yield "counter", True, {"proc.cpu.user": r["cpu"][0],
                                "proc.cpu.system": r["cpu"][1]}
    if "io" in asked:
        yield "io", True, dict(zip(
            ["proc.io.read.count", "proc.io.write.count",
             "proc.io.read.bytes", "proc.io.write.bytes"], r["io"]))
    if "net" in asked:
        yield "net", False, dict(
            ("proc.net.status." + s.lower(), r["connections"].count(s))
            for s in r["connections"])
    if "system" in asked:
        yield "memory", False, dict(
            ("sys.mem." + name, 1024 * value)
            for name, value in zip(["MemTotal", "MemFree"], r["mem"]))
        yield "load", False, dict(
            ("sys.loadavg." + name, float("%.2f" % value))
            for name, value in zip(["oneminute", "fiveminutes",
                                    "fifthteenminutes"], r["loads"]))
        result = {}
        for name, v in r["devices"]:
            base = "sys.net." + name
            result.update({base + ".bytes.received": v[0],
                           base + ".packets.received": v[1],
                           base + ".bytes.sent": v[8],
                           base + ".packets.sent": v[9]})
        yield "net/dev", True, result
        yield "cpu", True, dict(("sys.cpu." + name, value)
                                for name, value in r["cpus"].items())


def check(case, obs):
    check_world(case, obs)
    options = case["options"]
    if not options["instance-name"]:
        options = dict(options, **{"instance-name": obs["node"]})
    ref = make_ref(dict(case, options=options))
    mode = mode_of(options)
    asked = case["asked"] if options["report"] is not None else None
    ensure(obs["threads"] == (1 if asked and "reactor" in asked else 0),
           "%d threads were started, asked for %r", obs["threads"],
           options["report"])
    ensure(not any(obs["running"]), "the inspector goes on after the daemon "
           "was stopped")
    interval = options["flush-interval"] / 1000.0
    flushes, last = [], {}
    state = {"now": 0.0, "flush": 1, "minute": 1}

    def gauge(name, value):
        p = model.Parsed()
        p.kind, p.key, p.value = "g", model.normalize(name), value
        ref.process(p)

    def report(minute):
        if asked is None:
            return
        r = case["readings"][min(minute, len(case["readings"]) - 1)]
        said = {"reactor.readers": r["readers"],
                "reactor.writers": r["writers"]}
        for group, counter, values in groups(asked, r):
            if counter:
                values, last[group] = dict(
                    (name, value - last[group][name])
                    for name, value in values.items()
                    if name in last.get(group, {})), values
            said.update(values)
        for name, value in said.items():
            gauge(options["instance-name"] + "." + name, value)

    def advance(to):
        while True:
            flush, minute = state["flush"] * interval, state["minute"] * 60.0
            if min(flush, minute) > to + 1e-6:
                break
            if minute < flush:
                report(state["minute"])
                state["minute"] += 1
            else:
                ref.now = case["now"] + flush
                flushes.append((int(ref.now + 1e-6),
                                ref.flush(options["flush-interval"], 90)))
                state["flush"] += 1
        state["now"] = to
    for op in case["ops"]:
        if op[0] == "t":
            advance(state["now"] + op[1])
        elif op[0] == "udp":
            ref.now = case["now"] + state["now"]
            ref.process(model.parse(op[1], mode))
        else:
            for delay in op[1]:
                state["now"] += delay
                gauge("delay", delay)
    advance(obs["stopped"] - case["now"])
    got = {}
    shown = all(f in obs["opened"] for f in (
        "/proc/meminfo", "/proc/loadavg", "/proc/net/dev"))

    def compared(name):
        # Without the stand-ins for files there is nothing to compare to.
        return shown or (".sys.mem." not in name and
                         ".sys.loadavg." not in name and
                         ".sys.net." not in name)
    for _, _, metric, timestamp, value, _ in obs["points"]:
        if interesting(metric, ref.internal):
            got.setdefault(timestamp, []).append((metric, value, timestamp))
    for stamp, items in flushes:
        wanted = [i for i in items if i.category != "self"]
        problem = model.compare(wanted, got.pop(stamp, []), stamp,
                                select=compared)
        ensure(problem is None, "the flush at %d: %s", stamp, problem)
    ensure(not got, "datapoints are stamped %r", sorted(got)[:9])


def classify(case, obs):
    spent = sum(op[1] for op in case["ops"] if op[0] == "t")
    said = [g for g in GROUPS if g in case["asked"]]
    labels = [mode_of(case["options"])] + said
    if case["options"]["report"] is None:
        labels.append("no reports")
    if any(op[0] == "inspect" for op in case["ops"]):
        labels.append("inspected")
    minutes = min(int(spent / 60), int(
        (spent - spent % (case["options"]["flush-interval"] / 1000.0)) / 60))
    return len([g for g in said if g != "reactor"]) > 1 and minutes > 1, labels


PARTS = [Part("reports", "self_reports", strategy, check, classify,
              quick=300, thorough=6000)]
