"""C31: readings of the system and the process are published as they are."""
import hypothesis.strategies as st

import model
from core import Part, ensure

MODULES = ["scn_report"]
RULE = """A case is the text of /proc/meminfo, /proc/loadavg or /proc/net/dev
written from generated values, or a process, processors, a thread pool and a
reactor with generated readings; non-trivial when several readings are to be
published, and for texts when some lines are to be left out."""
ASSUMPTIONS = [
    "Texts are laid out as Linux does, with varying blanks; units of memory "
    "are those of the table in the code.",
    "psutil is a stand-in with the interface of the required versions.",
]
WANTED = ["MemTotal", "MemFree", "Buffers", "Cached", "SwapCached",
          "SwapTotal", "SwapFree"]
OTHERS = ["Active", "HugePages_Total", "Active(anon)", "CommitLimit",
          "MemTotalX", "Slab", "VmallocTotal", "Hugepagesize"]
big = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 40))


def meminfo(tier):
    line = st.tuples(
        st.one_of(st.sampled_from(WANTED), st.sampled_from(WANTED),
                  st.sampled_from(OTHERS)), big,
        st.sampled_from(["kB", "kB", "kB", "mB", ""]), st.integers(1, 9))

    def build(lines, end):
        text = "\n".join("%s:%s%d%s" % (
            name, " " * pad, value, " " + unit if unit else "")
            for name, value, unit, pad in lines)
        want = dict(("sys.mem." + name, value * {
            "kB": 1024, "mB": 1024 ** 2, "": 1}[unit])
            for name, value, unit, _ in lines if name in WANTED)
        return {"kind": "meminfo", "text": text + end, "want": want,
                "lines": len(lines)}
    return st.builds(build, st.lists(line, max_size=12,
                                     unique_by=lambda l: l[0]),
                     st.sampled_from(["\n", ""]))


def loadavg(tier):
    load = st.integers(0, 100000).map(lambda n: "%.2f" % (n / 100.0))

    def build(loads, running, pid, end):
        names = ("oneminute", "fiveminutes", "fifthteenminutes")
        return {"kind": "loadavg",
                "text": " ".join(loads) + " %d/2015 %d" % (
                    running, pid) + end,
                "want": dict(("sys.loadavg." + n, float(v))
                             for n, v in zip(names, loads)), "lines": 5}
    return st.builds(build, st.tuples(load, load, load),
                     st.integers(1, 99), st.integers(1, 99999),
                     st.sampled_from(["\n", ""]))


HEAD = """Inter-|   Receive                                                |  Transmit
 face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed
"""


def netdev(tier):
    device = st.tuples(
        st.sampled_from(["lo", "eth0", "eth1", "wlan0", "tun0", "br-1a2b",
                         "eth0.100", "docker0", "veth@x"]),
        st.lists(big, min_size=16, max_size=16), st.integers(0, 4),
        st.integers(0, 3))

    def build(devices, end, extra):
        text, want = HEAD, {}
        for name, values, before, after in devices:
            text += " " * before + name + ":" + " " * after + "  ".join(
                map(str, values)) + "\n"
            base = "sys.net." + name
            want[base + ".bytes.received"] = values[0]
            want[base + ".packets.received"] = values[1]
            want[base + ".bytes.sent"] = values[8]
            want[base + ".packets.sent"] = values[9]
        return {"kind": "netdev", "text": text.rstrip("\n") + end + extra,
                "want": want, "lines": 16 * len(devices)}
    return st.builds(build, st.lists(device, min_size=1, max_size=5,
                                     unique_by=lambda d: d[0]),
                     st.sampled_from(["\n", ""]), st.sampled_from(["", "\n"]))


def parsed_strategy(tier):
    return st.one_of(meminfo(tier), loadavg(tier), netdev(tier))


def parsed_check(case, obs):
    for name in ("direct", "file", "again"):
        same(case["kind"], obs[name], case["want"])


def same(what, got, want):
    for name in sorted(set(got) | set(want)):
        ensure(name in got, "%s: %s is missing", what, name)
        ensure(name in want, "%s: %s (%r) was not to be read", what, name,
               got[name])
        ensure(model.close(got[name], want[name], 1e-12, 0), "%s: %s is %r, "
               "expected %r", what, name, got[name], want[name])


def parsed_classify(case, obs):
    return len(case["want"]) > 1 and case["lines"] > len(case["want"]), [
        case["kind"]]


# -- The process ------------------------------------------------------------

def process_strategy(tier):
    status = st.sampled_from(["ESTABLISHED", "LISTEN", "CLOSE_WAIT",
                              "SYN_SENT"])
    connection = st.one_of(
        st.tuples(st.just("tcp"), status), st.tuples(st.just("tcp"), status),
        st.tuples(st.just("udp"), st.just("NONE")))
    seconds = st.integers(0, 10 ** 6).map(lambda n: n / 100.0)
    return st.builds(
        lambda prefix, memory, percents, cpu, threads, io, connections: {
            "prefix": prefix, "memory": list(memory),
            "cpu_percent": percents[0], "memory_percent": percents[1],
            "cpu": list(cpu), "threads": threads,
            "io": io if io is None else list(io),
            "connections": connections if connections is None else [
                list(c) for c in connections]},
        st.sampled_from([None, None, "p", "x.y"]), st.tuples(big, big),
        st.tuples(seconds, seconds), st.tuples(seconds, seconds),
        st.one_of(st.none(), st.integers(1, 99)),
        st.one_of(st.none(), st.tuples(big, big, big, big)),
        st.one_of(st.none(), st.lists(connection, max_size=9)))


def process_check(case, obs):
    prefix = case["prefix"] or "proc"
    rss, vms = case["memory"]
    want = {prefix + ".cpu.percent": case["cpu_percent"],
            prefix + ".memory.percent": case["memory_percent"],
            prefix + ".memory.vsize": vms, prefix + ".memory.rss": rss}
    if case["threads"] is not None:
        want[prefix + ".threads"] = case["threads"]
    same("memory and cpu", obs["memory"], want)
    same("cpu counters", obs["cpu"], {
        prefix + ".cpu.user": case["cpu"][0],
        prefix + ".cpu.system": case["cpu"][1]})
    prefix = case["prefix"] or "proc.io"
    same("io counters", obs["io"], {} if case["io"] is None else dict(
        (prefix + name, value) for name, value in zip(
            (".read.count", ".write.count", ".read.bytes", ".write.bytes"),
            case["io"])))
    prefix = case["prefix"] or "proc.net"
    want = {}
    for kind, status in case["connections"] or []:
        if kind == "tcp":
            name = prefix + ".status." + status.lower()
            want[name] = want.get(name, 0) + 1
    same("connections", obs["net"], want)


def process_classify(case, obs):
    tcp = [s for k, s in case["connections"] or [] if k == "tcp"]
    labels = [name for name in ("threads", "io", "connections")
              if case[name] is not None]
    return len(set(tcp)) > 1 and len(tcp) > len(set(tcp)), labels


# -- The system -------------------------------------------------------------

def system_strategy(tier):
    def build(modes, cpus, readers, writers, pool):
        return {"modes": modes, "cpus": [c[:len(modes)] for c in cpus],
                "readers": readers, "writers": writers, "pool": list(pool)}
    n = st.integers(0, 20)
    return st.builds(
        build, st.lists(st.sampled_from(["user", "system", "idle", "iowait",
                                         "irq", "nice"]), unique=True,
                        min_size=1),
        st.lists(st.lists(st.integers(0, 10 ** 8).map(lambda n: n / 4.0),
                          min_size=6, max_size=6), min_size=1, max_size=12),
        n, n, st.tuples(n, n, n, n))


def system_check(case, obs):
    same("cpu times", obs["total"], dict(
        ("sys.cpu." + mode, sum(c[i] for c in case["cpus"]))
        for i, mode in enumerate(case["modes"])))
    same("cpu times of each", obs["percpu"], dict(
        ("sys.cpu.%03d.%s" % (number, mode), cpu[i])
        for number, cpu in enumerate(case["cpus"])
        for i, mode in enumerate(case["modes"])))
    for more in (0, 1):
        same("reactor", obs["reactor"][more], {
            "reactor.readers": case["readers"] + more,
            "reactor.writers": case["writers"]})
        working, queue, waiters, threads = case["pool"]
        same("thread pool", obs["pool"][more], {
            "threadpool.working": working + more, "threadpool.queue": queue,
            "threadpool.waiters": waiters, "threadpool.threads": threads})


def system_classify(case, obs):
    return len(case["cpus"]) > 1 and len(case["modes"]) > 1, [
        "%d processors" % len(case["cpus"])]


PARTS = [
    Part("texts", "parsed", parsed_strategy, parsed_check, parsed_classify,
         quick=1500, thorough=20000),
    Part("process", "process_report", process_strategy, process_check,
         process_classify, quick=1000, thorough=15000),
    Part("system", "system_report", system_strategy, system_check,
         system_classify, quick=600, thorough=8000),
]
