# -*- coding: utf-8 -*-
"""What comes in over UDP and TCP."""
from server import ERRORS, guarded, scenario
import fakes

from txstatsd.server.processor import MessageProcessor
from txstatsd.server.protocol import (
    StatsDServerProtocol, StatsDTCPServerFactory)


class Collector(object):
    """Stands in for the processor; may fail on chosen messages."""

    def __init__(self, reactor, poison):
        self.reactor = reactor
        self.poison = poison
        self.messages = []

    def process(self, message):
        self.messages.append(message)
        if self.poison and self.poison in message:
            raise ValueError("poison")


@scenario
def listen(case):
    reactor = fakes.fresh()
    processor = Collector(reactor, case.get("poison"))
    kwargs = {}
    if case.get("monitor") is not None:
        kwargs = {"monitor_message": case["monitor"][0],
                  "monitor_response": case["monitor"][1]}
    udp = reactor.listenUDP(8125, StatsDServerProtocol(processor, **kwargs))
    tcp = reactor.listenTCP(8125, StatsDTCPServerFactory(processor, **kwargs))
    connections = []
    steps = []
    for op in case["ops"]:
        kind = op[0]
        exc = None
        before = len(processor.messages)
        if kind == "udp":
            host, port = op[2]
            _, exc = guarded(udp.deliver, op[1], (host, port))
        elif kind == "connect":
            connections.append(tcp.accept())
        elif kind == "tcp" and connections:
            transport = connections[op[1] % len(connections)]
            if transport.connected and not transport.disconnecting:
                why, exc = guarded(transport.protocol.dataReceived, op[2])
                if why or exc is not None:
                    # As the reactor does.
                    transport.lost()
        elif kind == "close" and connections:
            connections[op[1] % len(connections)].lost()
        elif kind == "turn":
            reactor.turn()
        elif kind == "idle":
            _, exc = guarded(reactor.run_until, reactor.rightNow + op[1])
        steps.append({"exc": exc, "got": processor.messages[before:]})
    before = len(processor.messages)
    reactor.turn()
    return {"steps": steps, "last": processor.messages[before:],
            "messages": processor.messages, "udp": udp.sent,
            "tcp": [(t.value(), t.connected and not t.disconnecting)
                    for t in connections],
            "errors": len(ERRORS.items)}
