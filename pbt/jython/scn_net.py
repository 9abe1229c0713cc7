# -*- coding: utf-8 -*-
"""Hashing over servers, and the two UDP clients."""
import socket

from server import ERRORS, guarded, scenario
import fakes

from txstatsd.client import ConsistentHashingClient, UdpStatsDClient
from txstatsd.hashing import ConsistentHashRing
from txstatsd.metrics.metric import Metric
from txstatsd.protocol import StatsDClientProtocol, TwistedStatsDClient


@scenario
def ring(case):
    kwargs = {}
    if case.get("replicas"):
        kwargs["replica_count"] = case["replicas"]
    ring = ConsistentHashRing(case["start"], **kwargs)
    steps = []
    for op in case["ops"]:
        if op[0] == "add":
            ring.add_node(op[1])
        else:
            ring.remove_node(op[1])
        result = {"nodes": sorted(ring.nodes)}
        if ring.nodes:
            result["get"] = [ring.get_node(key) for key in case["keys"]]
            result["all"] = [ring.get_nodes(key) for key in case["keys"]]
        steps.append(result)
    return {"steps": steps}


class Node(object):
    def __init__(self, name):
        self.name = name
        self.lines = []
        self.calls = []

    def __str__(self):
        return self.name

    def write(self, data):
        self.lines.append(data)

    def connect(self):
        self.calls.append("connect")

    def disconnect(self):
        self.calls.append("disconnect")


@scenario
def spread(case):
    nodes = [Node(name) for name in case["nodes"]]
    client = ConsistentHashingClient(nodes)
    client.connect()
    for name, data in case["sends"]:
        Metric(client, name).send(data)
    client.disconnect()
    return {"nodes": [(n.lines, n.calls) for n in nodes]}


@scenario
def queue(case):
    reactor = fakes.fresh()
    events = []
    errors = []
    kwargs = {}
    if case.get("errback"):
        kwargs["resolver_errback"] = lambda f: errors.append(
            f.getErrorMessage())
    wanted = case["callbacks"]
    if "connect" in wanted:
        kwargs["connect_callback"] = lambda: events.append("connect")
    if "disconnect" in wanted:
        kwargs["disconnect_callback"] = lambda: events.append("disconnect")
    if case.get("reactor"):
        kwargs["reactor"] = reactor
    if case.get("direct"):
        # Resolving is left to the caller.
        kwargs.pop("resolver_errback", None)
        client = TwistedStatsDClient(case["host"], case["port"], **kwargs)
    else:
        client = TwistedStatsDClient.create(
            case["host"], case["port"], **kwargs)
    looked_up = []
    port = None
    ports = []
    results = []        # (number of the write, what its callback got)
    number = 0
    steps = []

    def write(data, number, callback):
        if callback:
            client.write(data, lambda n: results.append((number, n)))
        else:
            client.write(data)

    for op in case["ops"]:
        exc = None
        if op[0] == "write":
            _, exc = guarded(write, op[1], number, op[2])
            number += 1
        elif op[0] == "many":
            for i in xrange(op[1]):
                if exc is None:
                    _, exc = guarded(write, "n%d:1|c" % number, number, False)
                number += 1
        elif op[0] == "resolve":
            for name, d in reactor.lookups:
                if not d.called:
                    d.callback("192.0.2.50")
            if case.get("direct") and not looked_up and \
                    case["host"] != "192.0.2.50":
                looked_up.append(guarded(
                    client.host_resolved, "192.0.2.50"))
                exc = looked_up[0][1]
        elif op[0] == "unresolved":
            for name, d in reactor.lookups:
                if not d.called:
                    d.errback(ValueError("no such host"))
        elif op[0] == "open":
            if port is None:
                port = reactor.listenUDP(0, StatsDClientProtocol(client))
                ports.append(port)
        elif op[0] == "close":
            if port is not None:
                reactor.turn()
                port.stopListening()
                port = None
        elif op[0] == "refuse":
            if port is not None:
                port.refuse = {
                    "socket": socket.error(111, "refused"),
                    "gai": socket.gaierror(2, "gai"),
                    "type": TypeError("port"),
                    "overflow": OverflowError("port"),
                    "": None}[op[1]]
        if not case["lazy"] or op[0] == "turn":
            reactor.turn()
        steps.append({"exc": exc, "sent": sum(len(p.sent) for p in ports)})
    reactor.turn()
    return {"steps": steps, "sent": sum([p.sent for p in ports], []),
            "results": results, "events": events, "failures": errors,
            "errors": list(ERRORS.items), "text": str(client)}


class FakeSocket(object):
    made = []
    raises = None
    taken = None

    def __init__(self, family=None, kind=None, proto=0):
        self.kind = (family, kind)
        self.blocking = True
        self.sent = []
        self.closed = False
        FakeSocket.made.append(self)

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, value):
        self.blocking = value is None or value > 0

    def sendto(self, data, *rest):
        if self.closed:
            raise socket.error(9, "bad file descriptor")
        if FakeSocket.raises is not None:
            raise FakeSocket.raises
        self.sent.append((data, rest[-1], self.blocking))
        return len(data)

    def close(self):
        self.closed = True


FAILURES = {
    "again": lambda: socket.error(11, "would block"),
    "refused": lambda: socket.error(111, "refused"),
    "size": lambda: socket.error(90, "message too long"),
    "unreachable": lambda: socket.error(101, "unreachable"),
    "gai": lambda: socket.gaierror(-2, "name"),
    "": lambda: None,
}


@scenario
def plain_udp(case):
    FakeSocket.made = []
    FakeSocket.raises = None

    def getaddrinfo(host, port, *args):
        if case["lookup"] == "fails":
            raise socket.gaierror(-2, "Name or service not known")
        if case["lookup"] == "error":
            raise socket.error(1, "lookup")
        if case["lookup"] == "none":
            return []
        return [(socket.AF_INET, socket.SOCK_DGRAM, 17, "",
                 ("192.0.2.50", int(port))),
                (socket.AF_INET, socket.SOCK_DGRAM, 17, "",
                 ("192.0.2.51", int(port)))]
    original = socket.socket, socket.getaddrinfo
    socket.socket, socket.getaddrinfo = FakeSocket, getaddrinfo
    try:
        client, exc = guarded(UdpStatsDClient, case["host"], case["port"])
        if exc is not None:
            return {"made": exc, "steps": []}
        steps = []
        for op in case["ops"]:
            result = None
            if op[0] == "fail":
                FakeSocket.raises = FAILURES[op[1]]()
                exc = None
            else:
                result, exc = guarded(getattr(client, op[0]), *op[1:])
            steps.append({"exc": exc, "result": result, "sockets": [
                (list(s.sent), s.closed) for s in FakeSocket.made]})
        return {"made": None, "steps": steps}
    finally:
        socket.socket, socket.getaddrinfo = original
