"""C28: the daemon delivers every flush, of all it received, to carbon."""
import json

import hypothesis.strategies as st

import gen
import histories
import model
import routes
from core import Part, Violation, ensure
from props.c12 import split

MODULES = ["scn_daemon"]
RULE = """A case is a configuration of the daemon (made in the program, read
from a file or from the command line) and a history of datagrams,
TCP lines, time passing and carbon connections being accepted, refused, lost,
paused and resumed; non-trivial when messages of two intervals arrive at
carbon. In the second part time also passes while the daemon works, and
messages arrive between the slices of a flush; non-trivial when a message
arrives while a flush is under way. In the third no cache can be reached until
the end; non-trivial when datapoints wait."""
ASSUMPTIONS = [
    "Carbon's own client (the carbon library) is part of what runs; only its "
    "TCP connections are simulated. What a lost connection had taken is "
    "delivered.",
    "A flush interval is at least a second, so that flushes have different "
    "timestamps.",
    "At the end every carbon cache accepts and reads for twelve seconds.",
]


def carbon_options(draw_hosts, fewer=None):
    hosts, ports, names = [], [], []
    for i, (port, name) in enumerate(draw_hosts):
        hosts.append("192.0.2.%d" % (i + 1))
        ports.append(port)
        names.append(name)
    if fewer in ("ports", "both"):
        ports.pop()
    if fewer in ("names", "both"):
        names.pop()
    result = {"carbon-cache-host": hosts, "carbon-cache-port": ports,
              "carbon-cache-name": names}
    return result


options = st.builds(
    lambda compliant, prefix, instance, interval, caches, fewer, batch,
    dump, port, http, monitor: dict(carbon_options(
        caches, fewer if caches else None), **{
        "statsd-compliance": compliant, "prefix": prefix,
        "instance-name": instance, "flush-interval": interval,
        "listen-tcp-port": 9000, "max-datapoints-per-message": batch,
        "dump-mode": dump, "listen-port": port, "http-port": http,
        "monitor-message": monitor[0], "monitor-response": monitor[1]}),
    st.sampled_from([1, 0]), st.sampled_from([None, "pfx", "a.b", ""]),
    st.sampled_from(["me", "host-1"]),
    st.sampled_from([10000, 60000, 1000, 1500, 2500, 5000]),
    st.lists(st.tuples(st.sampled_from([2004, 2005]),
                       st.sampled_from([None, "a", "b"])),
             min_size=0, max_size=3),
    st.sampled_from([None, None, None, "ports", "names", "both"]),
    st.sampled_from([1000, 1000, 1, 3]), st.sampled_from([0, 0, 0, 1]),
    st.sampled_from([8125, 8125, 9125, 9000]),
    st.sampled_from([None, 8080, 9001]), st.sampled_from(
        [("txstatsd ping", "txstatsd pong"), ("ping", "pong"),
         ("probe:1|c", "x:1|c"), ("a b", "")]))

junk = st.sampled_from(["", "nonsense", "a:1", "a:x|c", "a:1|zz", "a:|ms",
                        "a:1|c|0.1", "x:nan|g", "b:--1|m"])
# (As long as a datagram may be.)
long_message = st.sampled_from([600, 1500, 8100]).map(
    lambda n: "a.p:%s|pd" % ("x" * n))
message = st.one_of(*[gen.message(gen.few_keys)] * 6 + [junk, st.one_of(
    junk, long_message)])
world = st.one_of(
    st.tuples(st.sampled_from(["accept", "accept", "refuse", "lose", "pause",
                               "resume"]), st.integers(0, 2)))


def mode_of(options):
    if options["dump-mode"]:
        return "logging"
    return "compliant" if options["statsd-compliance"] else "config"


def strategy(tier):
    size = 20 if tier == "quick" else 60
    arrive = st.one_of(
        st.tuples(st.just("udp"), message), st.tuples(st.just("udp"), message),
        st.tuples(st.just("tcp"), st.integers(0, 1),
                  st.lists(message.filter(lambda m: "\r\n" not in m),
                           min_size=1, max_size=3).map(
                      lambda lines: "".join(l + "\r\n" for l in lines))))
    asked = st.one_of(
        st.sampled_from([("ping", "udp"), ("ping", "tcp", 0),
                         ("ping", "tcp", 1)]),
        st.sampled_from([("get", "/list_metrics"), ("get", "/status")]))
    op = st.one_of(arrive, arrive, arrive, asked, world, st.tuples(
        st.just("t"), st.one_of(
            st.sampled_from([0.25, 1, 5, 10, 60]),
            st.integers(1, 400).map(lambda n: n / 16.0))))

    def build(options, how, now, rules, routing, ops, many):
        # Room for all that waits (what a full queue does is below).
        options = dict(options, **{"max-queue-size": 10 ** 6})
        if many:
            # A great many names at once.
            ops = ops[:2] + [["udp", "k%d:%d|%s" % (i, i, many[0])]
                             for i in range(many[1])] + ops[2:]
            # That are not flushed too often.
            options["flush-interval"] = max(10000, options["flush-interval"])
            left, kept = 100, []
            for o in ops:
                left -= o[1] if o[0] == "t" else 0
                if o[0] != "t" or left >= 0:
                    kept.append(o)
            ops = kept
        if rules:
            options["plugin_sli"] = {"rules": rules}
        ops = [list(o) for o in ops
               if o[0] != "get" or options["http-port"] is not None]
        case = {"options": options, "now": now, "ops": ops}
        if routing is not None:
            case["structure"] = routing[0]
            # What the daemon says of itself goes the same way: not here.
            options["routing"] = "path_like *destinations* => drop\n" + \
                routing[1]
        if how:
            case["how"] = how
        return case
    target = st.one_of(
        routes.targets(), routes.targets(), st.sampled_from(
            [["redirect_udp", "192.0.2.9", "8125"],
             ["redirect_udp", "192.0.2.8", "8126"]]))
    return st.builds(
        build, options, st.sampled_from([None, "argv", "file"]),
        st.sampled_from([1000000.0, 1400000000.25]),
        st.sampled_from([None, None, "*a.s => red IF above 2"]),
        st.one_of(st.none(), routes.written(
            target, max_size=3, min_size=1, condition=routes.conditions(
                ["sli", "pd"]))),
        st.lists(op, min_size=8, max_size=size), st.sampled_from(
            [None] * 39 + [("g", 1200)]).flatmap(
                lambda many: st.just(many) if many is None else st.tuples(
                    st.sampled_from(["g", "c", "ms"]),
                    st.sampled_from([150, 600, 1200]))))


def arrivals(op):
    if op[0] == "udp":
        return [op[1]]
    return op[2].split("\r\n")[:-1]


def destinations(options):
    """Without a port of its own a cache is at 2004; without any, here."""
    hosts = options["carbon-cache-host"] or ["127.0.0.1"]
    ports = options["carbon-cache-port"] + [2004] * len(hosts)
    return set(zip(hosts, ports))


def check_world(case, obs):
    options = case["options"]
    ensure(not obs["errors"], "errors were logged: %r", obs["errors"][:3])
    ensure(obs["stop_exc"] is None, "stopping raised %r", obs["stop_exc"])
    ensure(not obs["late"], "sent after it was stopped: %r", obs["late"][:3])
    ensure(not obs["udp_open"] and not obs["tcp_open"],
           "ports are open after it was stopped: %r %r", obs["udp_open"],
           obs["tcp_open"])
    ensure(not obs["bad"], "half a message was sent: %r bytes", obs["bad"])
    ensure(set(map(tuple, obs["attempted"])) == destinations(options),
           "connections were attempted to %r, the caches are %r",
           obs["attempted"], sorted(destinations(options)))
    place = {}
    known = destinations(options)
    for host, port, metric, _, _, batch in obs["points"]:
        ensure((host, port) in known, "a connection went to %r",
               (host, port))
        ensure(place.setdefault(metric, (host, port)) == (host, port),
               "%s went to %r and to %r", metric, place[metric], (host, port))
        ensure(batch <= options["max-datapoints-per-message"],
               "%d datapoints in one message, %d allowed", batch,
               options["max-datapoints-per-message"])


def make_ref(case):
    options = case["options"]
    mode = mode_of(options)
    prefix = iprefix = ""
    if not options["statsd-compliance"]:
        prefix = options["prefix"]
        if prefix is None:
            prefix = "statsd"
        # An empty prefix is none: no name begins with a dot.
        iprefix = options["instance-name"] + "."
        if prefix:
            iprefix = prefix + "." + iprefix
    return model.Ref(mode, prefix, iprefix, case["now"])


def interesting(name, internal):
    return ".destinations." not in name and not (
        name.startswith(internal) and
        name[len(internal):].startswith(histories.SELF_WORDS))


def processed(case, op, redirected):
    """What reaches the processor of what arrived."""
    mode = mode_of(case["options"])
    for line in arrivals(op):
        parts = split(line)
        if "structure" not in case or parts is None:
            yield model.parse(line, mode)
            continue
        for kind, key, fields in routes.route(case["structure"], *parts,
                                              redirected=redirected):
            yield model.parse(key + ":" + "|".join(fields), mode)


def check(case, obs):
    check_world(case, obs)
    options = case["options"]
    ref = make_ref(case)
    mode = mode_of(options)
    interval = options["flush-interval"]
    flushes = []
    conditions, redirected = {}, []
    state = {"next": 1, "now": case["now"]}

    def advance(to):
        while case["now"] + state["next"] * interval / 1000.0 <= to + 1e-6:
            ref.now = case["now"] + state["next"] * interval / 1000.0
            items = ref.flush(interval, 90)
            if "plugin_sli" in options:
                for key in ref.slis:
                    if key.endswith("a.s"):
                        base = ("stats.SLI." if mode == "compliant"
                                else ref.prefix) + key
                        items.append(model.Item(
                            "plugin", base + ".count_red",
                            [conditions.get(key, 0)]))
                conditions.clear()
            flushes.append((int(ref.now), items))
            state["next"] += 1
        state["now"] = to
    answers = iter(obs["answers"])
    for op in case["ops"]:
        if op[0] == "t":
            advance(state["now"] + op[1])
        elif op[0] == "ping":
            said = options["monitor-response"]
            got = next(answers)
            want = [[said, ["192.0.2.7", 4001]]] if op[1] == "udp" else [said]
            ensure(got == want, "%r was answered %r, expected %r", op, got,
                   want)
        elif op[0] == "get":
            page(op[1], next(answers), options, ref)
        elif op[0] in ("udp", "tcp"):
            ref.now = state["now"]
            for p in processed(case, op, redirected):
                if p.verdict == model.ACCEPT:
                    ref.process(p)
                    if p.kind == "sli" and p.value != "error" and p.value > 2:
                        conditions[p.key] = conditions.get(p.key, 0) + 1
                elif p.verdict == model.EITHER:
                    raise Violation("the generator made %r" % op)
    advance(obs["stopped"])
    for host, port in (("192.0.2.9", 8125), ("192.0.2.8", 8126)):
        wanted = [m for t, m in redirected if t[1:] == [host, str(port)]]
        sent = [m for p in obs["udp_sent"] for m, a in p
                if list(a) == [host, port]]
        ensure(sorted(sent) == sorted(wanted), "to %s were sent %r, the rules "
               "redirect %r there", host, sent, wanted)
    got = {}
    for _, _, metric, timestamp, value, _ in obs["points"]:
        if interesting(metric, ref.internal):
            got.setdefault(timestamp, []).append((metric, value, timestamp))
    stamps = [stamp for stamp, _ in flushes]
    ensure(set(got) <= set(stamps), "datapoints are stamped %r, flushes were "
           "due at %r", sorted(set(got) - set(stamps)), stamps[:20])
    for stamp, items in flushes:
        wanted = [i for i in items if i.category != "self"]
        problem = model.compare(wanted, got.get(stamp, []), stamp)
        ensure(problem is None, "the flush at %d: %s", stamp, problem)
    # Every flush also says how much it published.
    own = [p for p in obs["points"] if p[2] == ref.internal + "numStats"]
    ensure(sorted(p[3] for p in own) == stamps, "numStats is stamped %r, "
           "flushes were due at %r", sorted(p[3] for p in own)[:20],
           stamps[:20])


def page(path, answer, options, ref):
    text, closed = answer
    code, body = text.split(" ", 2)[1], text.partition("\r\n\r\n")[2]
    ensure(closed and code == "200", "%s answered %s", path, code)
    data = json.loads(body)
    if path == "/status":
        ensure(data["status"] == "OK" and
               data["flush_interval"] == options["flush-interval"],
               "the status page says %r", data)
    else:
        names = [n for n in data["names"] if ".destinations." not in n]
        ensure(sorted(names) == sorted(ref.names()), "the list of metrics is "
               "%r, received were %r", names, sorted(ref.names()))


def classify(case, obs):
    labels = set([mode_of(case["options"])])
    when, busy = 0.0, set()
    for op in case["ops"]:
        if op[0] == "t":
            when += op[1]
        elif op[0] in ("udp", "tcp"):
            if any(p.verdict == model.ACCEPT
                   for p in processed(case, op, [])):
                busy.add(int(when * 1000 // case["options"]["flush-interval"]))
            labels.add(op[0])
        elif op[0] in ("lose", "refuse", "pause", "ping", "get"):
            labels.add(op[0])
    for _, target in case.get("structure", ()):
        labels.add("rule " + target[0])
    labels.add("%d caches" % len(destinations(case["options"])))
    return len(busy) > 1, sorted(labels)


# -- Slices -----------------------------------------------------------------

def busy_strategy(tier):
    size = 40 if tier == "quick" else 120
    keys = st.sampled_from(["a", "b", "c.d"])
    value = st.integers(0, 99).map(str)
    arrive = st.tuples(st.just("udp"), st.one_of(
        st.builds("{0}:{1}|c".format, keys, value),
        st.builds("{0}:{1}|c".format, keys, value),
        st.builds("{0}:{1}|ms".format, keys, value),
        st.builds("{0}:{1}|g".format, keys, value),
        st.builds("{0}:{1}|m".format, keys, value)))
    # So many timers that their flush is not through when the next is due.
    crowd = st.tuples(st.just("crowd"), st.sampled_from([40, 80]))
    op = st.one_of([
        arrive, arrive, arrive,
        st.tuples(st.just("turns"), st.integers(1, 4)),
        st.tuples(st.just("turns"), st.integers(1, 4)),
        st.tuples(st.just("to"), st.sampled_from([0.0, -0.02, 0.0005]))] * 4
        + [crowd])

    def build(compliant, tick, interval, ops):
        # Mostly move to where a flush is due.
        result = []
        crowded = sum(o[1] for o in ops if o[0] == "crowd")
        for o in ops:
            if o[0] == "to":
                result.append(["to", o[1]])
            elif o[0] == "crowd":
                # The clock of the loop looks in between.
                for n in range(o[1]):
                    result.append(["udp", "crowd%d:%d|ms" % (n, n)])
                    if n % 8 == 7:
                        result.append(["turns", 1])
            else:
                result.append(list(o))
        return {"options": dict(carbon_options([(2004, None)]), **{
            "statsd-compliance": 1, "prefix": None, "instance-name": "me",
            "flush-interval": interval, "listen-tcp-port": None,
            "max-datapoints-per-message": 1000, "dump-mode": 0}),
            "tick": tick, "now": 1000000.125, "ops": result,
            "settle": 12 + int(crowded * 30 * tick)}
    return st.builds(build, st.just(1), st.sampled_from([0.0005, 0.001, 0.003,
                                                         0.006, 0.01]),
                     st.sampled_from([2000, 5000]),
                     st.lists(op, min_size=6, max_size=size))


def busy_check(case, obs):
    check_world(case, obs)
    counts, timings, gauges, meters = {}, {}, {}, {}
    for op in case["ops"]:
        if op[0] == "udp":
            p = model.parse(op[1], "compliant")
            if p.kind == "c":
                counts[p.key] = counts.get(p.key, 0) + p.value
            elif p.kind == "ms":
                timings.setdefault(p.key, []).append(p.value)
            elif p.kind == "g":
                gauges[p.key] = p.value
            else:
                meters[p.key] = meters.get(p.key, 0) + p.value
    series, seen = {}, set()
    crowded = any(key.startswith("crowd") for key in timings)
    for _, _, metric, timestamp, value, _ in obs["points"]:
        # A flush may be late and so close to the next when much arrives.
        ensure((metric, timestamp) not in seen or crowded or
               ".destinations." in metric, "%s was published twice for %r",
               metric, timestamp)
        seen.add((metric, timestamp))
        series.setdefault(metric, []).append((timestamp, value))
    for values in series.values():
        values.sort()
    for key, total in counts.items():
        got = sum(v for _, v in series.get("stats_counts." + key, []))
        ensure(model.close(got, total), "counter %s: %r arrived at carbon of "
               "%r received", key, got, total)
    for key, values in timings.items():
        base = "stats.timers." + key
        got = sum(v for _, v in series.get(base + ".count", []))
        ensure(got == len(values), "timer %s: %r timings arrived at carbon of "
               "%d received", key, got, len(values))
        top = max(v for _, v in series[base + ".upper"])
        ensure(top == max(values), "timer %s: the largest is %r, received %r",
               key, top, max(values))
    for key, value in gauges.items():
        got = series.get("stats.gauge.%s.value" % key, [(None, None)])
        got = [v for stamp, v in got if stamp == got[-1][0]]
        ensure(value in got, "gauge %s: %r arrived at carbon, %r was "
               "received last", key, got, value)
    for key, value in meters.items():
        got = series.get("stats.meter.%s.count" % key, [(None, 0)])[-1][1]
        ensure(model.close(got, value, abs_=1e-3), "meter %s: %r arrived at "
               "carbon of %r received", key, got, value)
    # One flush per interval, and every one complete.
    interval = case["options"]["flush-interval"] / 1000.0
    stamps = [t for t, _ in series.get("statsd.numStats", [])]
    due = (obs["stopped"] - case["now"]) / interval
    ensure(abs(len(stamps) - due) <= 1.5, "%d flushes in %r intervals",
           len(stamps), due)
    for first, second in zip(stamps, stamps[1:]):
        ensure(abs(second - first - interval) < (2.01 if crowded else 1.01),
               "flushes at %r and %r, "
               "every %r seconds were wanted", first, second, interval)


def busy_classify(case, obs):
    under_way, hit = False, False
    for op in case["ops"]:
        if op[0] == "to":
            under_way = op[1] >= 0
        elif op[0] == "udp" and under_way:
            hit = True
    slices = sum(1 for op in case["ops"] if op[0] == "turns")
    labels = ["during a flush" if hit else "between flushes"]
    # Nine series of each timer, at the least.
    if len(set(op[1] for op in case["ops"] if op[0] == "udp" and op[1].startswith(
            "crowd"))) * 9 * case["tick"] > case["options"][
                "flush-interval"] / 1000.0:
        labels.append("flushes overlap")
    return hit and slices > 0, labels


# -- Queues -----------------------------------------------------------------

def queue_strategy(tier):
    op = st.one_of(
        st.builds(lambda start, count: ["many", start, count],
                  st.integers(0, 60), st.integers(1, 40)),
        st.builds(lambda n: ["t", n], st.sampled_from([10, 10, 20, 5])),
        st.builds(lambda n: ["t", n], st.sampled_from([10, 10, 20, 5])),
        st.builds(lambda n: ["refuse", n], st.integers(0, 1)))

    def build(caches, limit, batch, ops):
        result, known = [], 0
        for o in ops:
            if o[0] == "many":
                result.extend(["udp", "k%d:%d|g" % (o[1] + i, i)]
                              for i in range(o[2]))
            else:
                result.append(o)
        return {"options": dict(carbon_options(caches), **{
            "statsd-compliance": 1, "prefix": None, "instance-name": "me",
            "flush-interval": 10000, "listen-tcp-port": None,
            "max-queue-size": limit, "max-datapoints-per-message": batch,
            "dump-mode": 0}), "now": 1000000.0, "ops": result}
    return st.builds(
        build, st.sampled_from([[(2004, None)], [(2004, "a"), (2005, "b")]]),
        st.sampled_from([1, 4, 20, 75, 300]), st.sampled_from([1000, 7]),
        st.lists(op, min_size=3, max_size=12 if tier == "quick" else 40))


def waiting(case):
    """Flushes, and the datapoints of gauges in them, while no cache took
    any."""
    now, keys, points, flushes = 0, set(), 0, 0
    for op in case["ops"]:
        if op[0] == "udp":
            keys.add(op[1].split(":")[0])
        elif op[0] == "t":
            due = int((now + op[1]) / 10) - int(now / 10)
            points += due * len(keys)
            flushes += due
            now += op[1]
    return now, points, flushes


def queue_check(case, obs):
    # Carbon logs this when a queue is full: it forgot an import.
    check_world(case, dict(obs, errors=[
        e for e in obs["errors"]
        if "global name 'carbon' is not defined" not in e]))
    options = case["options"]
    limit, caches = options["max-queue-size"], len(
        options["carbon-cache-host"])
    now, points, flushes = waiting(case)
    held = {}
    for host, port, metric, timestamp, _, _ in obs["points"]:
        if timestamp <= case["now"] + now:
            held.setdefault((host, port), []).append(metric)
    for place, metrics in held.items():
        ensure(len(metrics) <= limit, "%d datapoints were kept for %r, which "
               "could not be reached; %d are allowed", len(metrics), place,
               limit)
    if caches == 1 and points >= limit:
        ensure(sum(map(len, held.values())) == limit, "%r datapoints were "
               "kept of over %d, %d are allowed",
               list(map(len, held.values())), points, limit)
    # (What the daemon says of itself takes some more, besides the gauges.)
    if points + 60 * flushes < limit:
        got = sum(m.startswith("stats.gauge.k") for ms in held.values()
                  for m in ms)
        ensure(got == points, "%d datapoints of gauges were kept of %d, with "
               "%d allowed", got, points, limit)


def queue_classify(case, obs):
    now, points, _ = waiting(case)
    limit = case["options"]["max-queue-size"]
    return points > 0, ["more than allowed" if points > limit
                        else "as allowed", "limit %d" % limit]


PARTS = [
    Part("pipeline", "daemon", strategy, check, classify,
         quick=700, thorough=12000),
    Part("slices", "daemon", busy_strategy, busy_check, busy_classify,
         quick=300, thorough=6000),
    Part("queues", "daemon", queue_strategy, queue_check, queue_classify,
         quick=120, thorough=2000),
]
