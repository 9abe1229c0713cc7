"""C13: redirect rules send a copy on and keep the message."""
import hypothesis.strategies as st

import gen
import model
import routes
from core import Part, Violation, ensure
from props.c12 import split

MODULES = ["scn_router"]
RULE = """A case is a set of rules with UDP and TCP redirects to several
servers, and a history of messages, connections being accepted, refused, lost,
paused and resumed, host names being resolved, and time passing; non-trivial
when a message is sent on after the world changed at least once since the
service was started (accept, lose, pause or resume)."""
ASSUMPTIONS = [
    "A message that meets a TCP redirect while it is not connected or paused "
    "is not sent; whether it is kept for later is not specified, and it is "
    "not (the code drops it).",
    "A connection that was lost is tried again within %d seconds, one that "
    "was refused within %d." % (10, 9000),
    "UDP redirects queue up to 1000 messages until the name is resolved and "
    "the port open (C19 looks at the queue itself).",
]

HOSTS = [("192.0.2.9", "8125"), ("192.0.2.10", "8126"), ("stats.test", "99")]


def strategy(tier):
    size = 25 if tier == "quick" else 70
    redirect = st.one_of(
        st.builds(lambda h: ["redirect_tcp"] + list(h),
                  st.sampled_from(HOSTS)),
        st.builds(lambda h: ["redirect_tcp"] + list(h),
                  st.sampled_from(HOSTS)),
        st.builds(lambda h: ["redirect_udp"] + list(h),
                  st.sampled_from(HOSTS)))
    target = st.one_of(redirect, redirect, redirect, redirect,
                       routes.targets())
    message = st.one_of(
        st.builds("{0}:{1}|{2}".format, routes.keys, gen.number_texts,
                  routes.types),
        st.builds("{0}:{1}|{2}".format, routes.keys, gen.number_texts,
                  st.sampled_from(["c\r", "c\r\n", "c\n", "c|x\r"])),
        st.builds("{0}:{1}|c".format, gen.raw_keys, gen.number_texts))
    index = st.integers(0, 3)
    world = [st.tuples(st.just("accept"), index),
             st.tuples(st.just("accept"), index),
             st.tuples(st.just("pause"), index),
             st.tuples(st.just("resume"), index),
             st.tuples(st.just("lose"), index),
             st.tuples(st.just("refuse"), index),
             st.tuples(st.just("t"), st.sampled_from([0.5, 5, 11, 30, 100, 4000,
                                                    10000])),
             st.tuples(st.just("resolve"))]
    op = st.one_of(
        [st.tuples(st.just("m"), message)] * 5 + world)

    def build(early, written, first, ops, stop):
        rules, text = written
        ops = [list(o) for o in ops]
        case = early + [["start"]] + [["accept", 0]] * first + ops
        if stop:
            case += [["stop"], ["t", 10000]]
        return {"structure": rules, "rules": text, "ops": case}
    return st.builds(
        build,
        st.lists(st.one_of(
            st.tuples(st.just("m"), message).map(list),
            st.just(["resolve"])), max_size=3),
        routes.written(
            target, max_size=4, min_size=1, condition=st.one_of(
                st.just(["any"]), st.just(["any"]), routes.conditions())
        ).filter(lambda w: any("redirect" in t[0] for _, t in w[0])),
        st.integers(0, 2),
        st.lists(op, min_size=3, max_size=size), st.booleans())


class Tcp(object):
    """One TCP redirect rule."""

    def __init__(self, host, port):
        self.host, self.port = host, int(port)


def check(case, obs):
    ensure(not obs["errors"], "errors were logged: %r", obs["errors"])
    rules = case["structure"]
    # Connections are told apart by the connection order the harness reports;
    # two rules may go to one server, so look at servers, not at rules.
    tcp = {}        # server -> number of rules
    udp = {}
    for _, (name, *args) in rules:
        if name == "redirect_tcp":
            tcp.setdefault((args[0], int(args[1])), []).append(1)
        elif name == "redirect_udp":
            udp.setdefault((args[0], int(args[1])), []).append(1)
    # What each server is still owed is decided per message, below.
    connections = []     # [server, connected, paused, text so far]
    resolved = set()
    queued = []          # UDP messages not sent yet: (server, message)
    sent_udp = []
    started = stopped = False
    before = None
    for op, step in zip(case["ops"], obs["steps"]):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        log, result = step["log"], step["r"]
        if result is not None and result.get("exc"):
            raise Violation("%r raised %r" % (op, result["exc"]))
        kind = op[0]
        if kind == "start":
            started = True
        elif kind == "stop":
            stopped = True
        elif kind == "accept" and result is not None:
            host, port, _, _ = log["tcp"][result["accepted"]]
            connections.append([(host, port), True, False, ""])
        elif kind in ("lose", "pause", "resume") and result is not None:
            ensure("no producer" not in result,
                   "a redirect connection cannot be paused")
            connection = connections[result[kind]]
            if kind == "lose":
                connection[1] = False
            else:
                connection[2] = kind == "pause"
        elif kind == "resolve":
            for server in udp:
                resolved.add(server)
        elif kind == "m":
            redirected = []
            parts = split(op[1])
            want = [[k + ":" + "|".join(f), t, k, f] for t, k, f in
                    routes.route(rules, *parts, redirected=redirected)]
            have = result["out"]
            if [h[1:] for h in have] == [w[1:] for w in want] and \
                    len(want) == 1:
                ensure(have[0][0] in (want[0][0], op[1]),
                       "%r was handed on as %r", op[1], have[0])
            else:
                ensure(have == want, "%r came out as %r, expected %r", op[1],
                       have, want)
            for target, message in redirected:
                server = (target[1], int(target[2]))
                if target[0] == "redirect_udp":
                    queued.append((server, message))
                else:
                    deliver(server, tcp[server], message, connections, log)
        if started:
            still = []
            for server, message in queued:
                if server[0][0].isdigit() or server in resolved:
                    address = server[0] if server[0][0].isdigit() \
                        else "192.0.2.77"
                    sent_udp.append((message, (address, server[1])))
                else:
                    still.append((server, message))
            queued[:] = still
        got = sorted((m, (a[0], a[1])) for p in log["udp"] for m, a in p)
        ensure(got == sorted(sent_udp), "after %r the UDP redirects have sent "
               "%r, expected %r", op, got, sorted(sent_udp))
        for (server, live, paused, text), (host, port, value, connected) in \
                zip(connections, log["tcp"]):
            if not paused_twins(connections, server, tcp):
                ensure(value == text, "after %r the connection to %s has "
                       "carried %r, expected %r", op, server, value, text)
            if stopped:
                ensure(not connected, "the connection to %s is still open "
                       "after the service was stopped", server)
    order_of_udp(case, obs)
    attempts(case, obs, tcp)


SOON, LATE = 10, 9000


def attempts(case, obs, tcp):
    """Connections are made at once, and again when they are lost."""
    started = stopped = False
    lost = []       # server, when, attempts until then
    before = {}     # server -> attempts, connections up, before the step
    asked_at_stop = None
    for op, step in zip(case["ops"], obs["steps"]):
        log = step["log"]
        tried, pending, up = {}, {}, {}
        for server in tcp:
            tried[server] = sum(1 for t in log["tried"] if tuple(t) == server)
            pending[server] = sum(
                1 for p in log["pending"] if tuple(p) == server)
            up[server] = sum(1 for host, port, _, connected in log["tcp"]
                             if connected and (host, port) == server)
            ensure(up[server] + pending[server] <= len(tcp[server]),
                   "after %r there are %d connections to %s, and %d being "
                   "made, for %d rules", op, up[server], server,
                   pending[server], len(tcp[server]))
        if op[0] == "start":
            started = True
            for server, rules in tcp.items():
                ensure(pending[server] == len(rules), "%d connections to %s "
                       "are being made after the start, for %d rules",
                       pending[server], server, len(rules))
        elif op[0] == "stop":
            stopped, asked_at_stop = True, tried
        elif not started:
            ensure(not log["tried"], "connections are made before the start")
        if stopped:
            ensure(not log["pending"], "after %r connections are being made "
                   "to %r, though the service was stopped", op,
                   log["pending"])
            ensure(tried == asked_at_stop, "connections were tried after the "
                   "service was stopped")
            continue
        if op[0] == "lose" and step["r"] is not None:
            host, port, _, _ = log["tcp"][step["r"]["lose"]]
            lost.append(((host, port), log["now"], tried[host, port]))
        for server, when, count in lost:
            ensure(log["now"] < when + SOON or tried[server] > count,
                   "%r seconds after the connection to %s was lost none had "
                   "been tried", log["now"] - when, server)
        if op[0] == "t" and op[1] > LATE and started:
            for server in tcp:
                ensure(before[server][1] == len(tcp[server]) or
                       tried[server] > before[server][0],
                       "in %r seconds no connection to %s was tried", op[1],
                       server)
        before = dict((s, (tried[s], up[s])) for s in tcp)


def paused_twins(connections, server, tcp):
    """Two rules with one server: who is paused cannot be told apart."""
    return len(tcp[server]) > 1


def deliver(server, rules, message, connections, log):
    if len(rules) > 1:
        return
    # Its only rule writes to the connection made last.
    mine = [c for c in connections if c[0] == server]
    if mine and mine[-1][1] and not mine[-1][2]:
        mine[-1][3] += frame(message)


def frame(message):
    if message.endswith("\r\n"):
        return message
    if message.endswith("\r"):
        return message + "\n"
    return message + "\r\n"


def order_of_udp(case, obs):
    """Each redirect sends in the order the messages came."""
    log = obs["steps"][-1]["log"]
    rules = case["structure"]
    per_target = {}
    for op in case["ops"]:
        if op[0] != "m":
            continue
        redirected = []
        routes.route(rules, *split(op[1]), redirected=redirected)
        for target, message in redirected:
            if target[0] == "redirect_udp":
                per_target.setdefault(tuple(target), []).append(message)
    for target, expected in per_target.items():
        if sum(1 for _, t in rules if tuple(t) == target) > 1:
            continue
        address = target[1] if target[1][0].isdigit() else "192.0.2.77"
        got = [m for p in log["udp"] for m, a in p
               if list(a) == [address, int(target[2])]]
        ensure(got == expected[:len(got)], "UDP redirect %r sent %r, the "
               "order was %r", target, got, expected)


def classify(case, obs):
    labels = set()
    changed = nontrivial = False
    sent = 0
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] in ("accept", "lose", "pause", "resume"):
            if step["r"] is not None:
                labels.add(op[0])
                changed = True
        now = sum(len(v) for _, _, v, _ in step["log"]["tcp"]) + \
            sum(len(p) for p in step["log"]["udp"])
        if op[0] == "m" and now > sent and changed:
            nontrivial = True
        sent = now
    if any(step["log"]["tcp"] and op[0] == "accept" and
           len({tuple(t[:2]) for t in step["log"]["tcp"]}) <
           len(step["log"]["tcp"])
           for op, step in zip(case["ops"], obs["steps"])):
        labels.add("reconnected")
    if ["stop"] in case["ops"]:
        labels.add("stopped")
    return nontrivial, sorted(labels)


PARTS = [Part("redirects", "redirect", strategy, check, classify,
              quick=3000, thorough=60000)]
