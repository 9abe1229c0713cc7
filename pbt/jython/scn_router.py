# -*- coding: utf-8 -*-
"""The router: its rules, and what it sends to other servers."""
from server import ERRORS, V, guarded, scenario
import fakes

from twisted.application.service import MultiService
from txstatsd.server.router import Router


class Sink(object):
    """Stands in for the message processor behind the router."""

    def __init__(self):
        self.messages = []
        self.flushed = []

    def process_message(self, message, metric_type, key, fields):
        self.messages.append((message, metric_type, key, list(fields)))

    def flush(self, *args, **kwargs):
        self.flushed.append((args, kwargs))
        return [("x", 1, 2)]


class RecordingRouter(Router):
    fails = None

    def fail(self, message):
        self.fails.append(message)
        return Router.fail(self, message)


@scenario
def route(case):
    sink = Sink()
    router = RecordingRouter(sink, case["rules"])
    router.fails = []
    result = []
    for message in case["messages"]:
        sink.messages = []
        del router.fails[:]
        _, exc = guarded(router.process, message)
        result.append({"out": sink.messages, "fails": list(router.fails),
                       "exc": exc})
    flushed = list(router.flush(interval=case.get("interval", 10000)))
    return {"messages": result, "flush": flushed,
            "flush_args": [sink.flushed[0][1]]}


@scenario
def configure_router(case):
    _, exc = guarded(Router, Sink(), case["rules"])
    return {"exc": exc}


class World(object):
    """Servers that redirect rules point to."""

    def __init__(self, case):
        self.reactor = fakes.fresh()
        self.service = MultiService()
        self.sink = Sink()
        self.router = RecordingRouter(self.sink, case["rules"],
                                      service=self.service)
        self.router.fails = []
        self.ready = []
        self.router.ready.addCallback(self.ready.append)
        self.transports = []    # in order of connection: (host, port, t)

    def log(self):
        return {
            "tcp": [(host, port, t.value(), t.connected)
                    for host, port, t in self.transports],
            "udp": [list(p.sent) for p in self.reactor.udp],
            "lookups": [name for name, d in self.reactor.lookups],
            "pending": [(a.connector.host, a.connector.port)
                        for a in self.reactor.pending()],
            "tried": [(a.connector.host, a.connector.port)
                      for a in self.reactor.attempts],
            "now": self.reactor.rightNow,
            "ready": bool(self.ready),
        }

    def live(self, index):
        live = [t for _, _, t in self.transports if t.connected]
        return live[index % len(live)] if live else None

    def step(self, op):
        kind = op[0]
        if kind == "m":
            self.sink.messages = []
            _, exc = guarded(self.router.process, op[1])
            self.reactor.turn()
            out = self.sink.messages
            return {"out": out, "fails": self.router.fails[:], "exc": exc}
        if kind == "start":
            self.service.startService()
            self.reactor.turn()
        elif kind == "stop":
            _, exc = guarded(self.service.stopService)
            self.reactor.turn()
            return {"exc": exc}
        elif kind == "resolve":
            todo = [l for l in self.reactor.lookups if not l[1].called]
            for name, d in todo:
                d.callback("192.0.2.77")
            self.reactor.turn()
        elif kind == "accept":
            pending = self.reactor.pending()
            if not pending:
                return None
            attempt = pending[op[1] % len(pending)]
            transport = self.reactor.accept(attempt)
            self.transports.append((attempt.connector.host,
                                    attempt.connector.port, transport))
            self.reactor.turn()
            return {"accepted": len(self.transports) - 1}
        elif kind == "refuse":
            pending = self.reactor.pending()
            if not pending:
                return None
            self.reactor.refuse(pending[op[1] % len(pending)])
            self.reactor.turn()
        elif kind in ("pause", "resume", "lose"):
            transport = self.live(op[1])
            if transport is None:
                return None
            which = [t for _, _, t in self.transports].index(transport)
            if kind == "lose":
                transport.lost()
            elif transport.producer is None:
                return {"no producer": which}
            elif kind == "pause":
                transport.producer.pauseProducing()
            else:
                transport.producer.resumeProducing()
            self.reactor.turn()
            return {kind: which}
        elif kind == "t":
            self.reactor.run_until(self.reactor.rightNow + op[1])
        return None


@scenario
def redirect(case):
    world = World(case)
    steps = []
    for op in case["ops"]:
        result, exc = guarded(world.step, op)
        steps.append({"r": result, "exc": exc, "log": world.log()})
    return {"steps": steps, "errors": list(ERRORS.items)}
