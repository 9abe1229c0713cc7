# -*- coding: utf-8 -*-
"""The client library: what its calls send, and what arrives from them."""
from server import ERRORS, V, guarded, scenario
import fakes
from scn_proc import System

from txstatsd.client import InternalClient, ConsistentHashingClient
from txstatsd.metrics.extendedmetrics import ExtendedMetrics
from txstatsd.metrics.metrics import Metrics
from txstatsd.protocol import StatsDClientProtocol, TwistedStatsDClient
from txstatsd.server.protocol import StatsDServerProtocol


class Recorder(object):
    def __init__(self):
        self.lines = []

    def write(self, data):
        self.lines.append(data)


def make(case, connection):
    cls = {"basic": Metrics, "extended": ExtendedMetrics}[case["api"]]
    kwargs = {}
    if "namespace" in case:
        kwargs["namespace"] = case["namespace"]
    return cls(connection, **kwargs)


def perform(metrics, op):
    kind, args = op[0], op[1:]
    if kind == "t":
        V.now += args[0]
    else:
        # JSON has no keyword arguments: a trailing mapping stands for them.
        kwargs = {}
        if args and isinstance(args[-1], dict):
            kwargs = dict((str(k), v) for k, v in args[-1].items())
            args = args[:-1]
        getattr(metrics, kind)(*args, **kwargs)


@scenario
def client(case):
    recorder = Recorder()
    metrics = make(case, None if case.get("connection") == "none"
                   else recorder)
    steps = []
    for op in case["ops"]:
        before = len(recorder.lines)
        _, exc = guarded(perform, metrics, op)
        sent = recorder.lines[before:]
        steps.append({"exc": exc, "sent": sent,
                      "bytes": all(isinstance(l, str) for l in sent)})
    return {"steps": steps}


@scenario
def sampled(case):
    """Many calls with a sample rate; which were sent, and how marked."""
    recorder = Recorder()
    metrics = make(case, recorder)
    result = []
    for method, args, rate, count in case["runs"]:
        before = len(recorder.lines)
        pattern = []
        for i in xrange(count):
            length = len(recorder.lines)
            getattr(metrics, method)(*args, **{"sample_rate": rate})
            pattern.append("%d" % (len(recorder.lines) - length))
        lines = recorder.lines[before:]
        kinds = {}
        for line in lines:
            kinds[line] = kinds.get(line, 0) + 1
        result.append({"sent": len(lines), "kinds": kinds,
                       "pattern": " ".join(pattern)})
    return {"runs": result}


class Net(object):
    """Carries what a UDP client sends to the UDP port of a server."""

    def __init__(self, reactor, target):
        self.reactor = reactor
        self.target = target
        self.delivered = 0

    def pump(self, source):
        self.reactor.turn()
        while len(source.sent) > self.delivered:
            data, addr = source.sent[self.delivered]
            self.delivered += 1
            if addr != ("192.0.2.50", 8125):
                raise ValueError("sent to %r" % (addr,))
            self.target.deliver(data, ("192.0.2.7", 4000))
        self.reactor.turn()


@scenario
def end_to_end(case):
    reactor = fakes.fresh(case["now"])
    system = System(case)
    pump = lambda: None
    if case["transport"] == "internal":
        connection = InternalClient(system.entry)
    else:
        port = reactor.listenUDP(8125, StatsDServerProtocol(system.entry))
        host = "192.0.2.50" if case["transport"] == "udp" else "stats.test"
        twisted_client = TwistedStatsDClient.create(host, 8125)
        source = reactor.listenUDP(0, StatsDClientProtocol(twisted_client))
        net = Net(reactor, port)
        pump = lambda: net.pump(source)
        connection = twisted_client
    metrics = make(case, connection)
    steps = []
    for op in case["ops"]:
        kind = op[0]
        if kind == "f":
            steps.append(system.step(op))
        elif kind == "t":
            system.clock.now += op[1]
            reactor.rightNow = system.clock.now
            steps.append(None)
        elif kind == "resolve":
            for name, d in reactor.lookups:
                if not d.called:
                    d.callback("192.0.2.50")
            _, exc = guarded(pump)
            steps.append({"exc": exc})
        else:
            _, exc = guarded(perform, metrics, op)
            if exc is None:
                _, exc = guarded(pump)
            steps.append({"exc": exc})
    return {"steps": steps, "fails": system.fails,
            "errors": list(ERRORS.items)}
