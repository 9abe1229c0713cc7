# -*- coding: utf-8 -*-
"""The whole daemon, from its sockets to its connections to carbon."""
import os
import struct
import tempfile

from server import ERRORS, V, guarded, scenario
import fakes

import twisted.plugin

PLUGINS = []
twisted.plugin.getPlugins = lambda interface, package=None: list(PLUGINS)

import pickle
from carbon import instrumentation
import carbon.client
from twisted.python import log
from twisted.plugins.distinct_plugin import DistinctMetricFactory
from twisted.plugins.sli_plugin import SLIMetricFactory
from twisted.plugins.txstatsd_plugin import serviceMaker
from txstatsd import service


CACHE = ["carbon-cache-host", "carbon-cache-port", "carbon-cache-name"]


def configure(options, values, how):
    """Have the options read from a command line or a file."""
    sections = [("statsd", [
        (name, str(value)) for name, value in sorted(values.items())
        if value is not None and name not in CACHE and
        not name.startswith("plugin_")])]
    for name, value in values.items():
        if name.startswith("plugin_"):
            sections.append((name, sorted(value.items())))
    for i in range(3):
        sections.append(("carbon-cache-%d" % i, [
            (name, str(values[name][i])) for name in CACHE
            if i < len(values.get(name, [])) and
            values[name][i] is not None]))
    argv = []
    if how == "argv":
        for title, pairs in sections:
            if not title.startswith("plugin_"):
                argv.extend("--%s=%s" % pair for pair in pairs)
        sections = [("statsd", [])] + [
            s for s in sections if s[0].startswith("plugin_")]
    fd, path = tempfile.mkstemp(suffix=".conf")
    try:
        with os.fdopen(fd, "wb") as f:
            for title, pairs in sections:
                f.write("[%s]\n" % title)
                for name, value in pairs:
                    f.write("%s: %s\n" % (name, value.replace("\n", "\n  ")))
        options.parseOptions(argv + ["--config=" + path])
    finally:
        os.remove(path)


class Pickle(object):
    """The cPickle of Jython does not know the keyword carbon uses."""

    @staticmethod
    def dumps(value, protocol=-1):
        return pickle.dumps(value, protocol)


carbon.client.pickle = Pickle


class Carbon(object):
    """All carbon caches: what each received, connection after connection."""

    def __init__(self, reactor):
        self.reactor = reactor
        self.points = []    # host, port, metric, timestamp, value, when
        self.open = []      # [host, port, transport, bytes seen]
        self.bad = []

    def accept(self, index):
        pending = self.reactor.pending()
        if pending:
            attempt = pending[index % len(pending)]
            transport = self.reactor.accept(attempt)
            if transport is not None:
                self.open.append([attempt.connector.host,
                                  attempt.connector.port, transport, 0])

    def accept_all(self):
        while self.reactor.pending():
            self.accept(0)

    def refuse(self, index):
        pending = self.reactor.pending()
        if pending:
            self.reactor.refuse(pending[index % len(pending)])

    def live(self):
        return [c for c in self.open if c[2].connected]

    def lose(self, index):
        live = self.live()
        if live:
            self.read()
            live[index % len(live)][2].lost()

    def pause(self, index, resume):
        live = self.live()
        if live:
            producer = live[index % len(live)][2].producer
            if producer is not None:
                if resume:
                    producer.resumeProducing()
                else:
                    producer.pauseProducing()

    def read(self):
        for c in self.open:
            data = c[2].value()
            while len(data) - c[3] >= 4:
                length, = struct.unpack("!I", data[c[3]:c[3] + 4])
                if len(data) - c[3] - 4 < length:
                    break
                text = data[c[3] + 4:c[3] + 4 + length]
                c[3] += 4 + length
                batch = pickle.loads(text)
                for metric, (timestamp, value) in batch:
                    self.points.append([c[0], c[1], metric, timestamp, value,
                                        len(batch)])
            if not c[2].connected and c[3] != len(data):
                self.bad.append(len(data) - c[3])
                c[3] = len(data)


class Daemon(object):
    def __init__(self, case, plugins=None):
        self.reactor = fakes.fresh(case.get("now", 1000000.0))
        if case.get("tick"):
            # Time also passes while the code runs.
            def source():
                self.reactor.rightNow += case["tick"]
                return self.reactor.rightNow
            V.source = source
        instrumentation.stats.clear()
        PLUGINS[:] = plugins if plugins is not None else [
            SLIMetricFactory(), DistinctMetricFactory()]
        if hasattr(log, "info"):
            del log.info
        if case.get("how"):
            # As twistd does it.
            options = serviceMaker.options()
            configure(options, case["options"], case["how"])
            self.options = options
            self.root = serviceMaker.makeService(options)
        else:
            options = service.StatsDOptions()
            for name, value in case["options"].items():
                options[name] = value
            self.options = options
            self.root = service.createService(options, self.reactor)
        self.carbon = Carbon(self.reactor)
        self.tcp = []
        self.answers = []

    def close(self):
        if hasattr(log, "info"):
            del log.info

    def port(self, listing, number):
        for port in listing:
            if port.port == number and port.listening:
                return port

    def connection(self, index):
        port = self.port(self.reactor.tcp, self.options["listen-tcp-port"])
        while len(self.tcp) <= index:
            self.tcp.append(port.accept())
        return self.tcp[index]

    def step(self, op):
        kind = op[0]
        if kind == "udp":
            port = self.port(self.reactor.udp, self.options["listen-port"])
            port.deliver(op[1], ("192.0.2.1", 4000))
        elif kind == "tcp":
            self.connection(op[1]).protocol.dataReceived(op[2])
        elif kind == "ping":
            # The monitoring agent asks.
            asked = self.options["monitor-message"]
            if op[1] == "udp":
                port = self.port(self.reactor.udp, self.options["listen-port"])
                before = len(port.sent)
                port.deliver(asked, ("192.0.2.7", 4001))
                self.answers.append([list(s) for s in port.sent[before:]])
            else:
                transport = self.connection(op[2])
                before = len(transport.chunks)
                transport.protocol.dataReceived(asked + "\r\n")
                self.answers.append(["".join(transport.chunks[before:])])
        elif kind == "get":
            # Somebody looks at a page, after what arrived is processed.
            self.reactor.turn()
            transport = self.port(
                self.reactor.tcp, self.options["http-port"]).accept()
            transport.protocol.dataReceived("GET %s HTTP/1.0\r\n\r\n" % op[1])
            self.reactor.turn()
            self.answers.append([transport.value(), not transport.connected])
        elif kind == "t":
            self.reactor.run_until(self.reactor.rightNow + op[1])
        elif kind == "to":
            # To where the next flush is due (or a little off).
            interval = self.options["flush-interval"] / 1000.0
            passed = self.reactor.rightNow - self.started
            due = self.started + (int(passed / interval) + 1) * interval
            self.reactor.run_until(max(
                self.reactor.rightNow, due + op[1] - 0.001))
            if op[1] >= 0:
                # Only what starts the flush.
                self.reactor.run_until(due, 2)
        elif kind == "turns":
            self.reactor.run_until(self.reactor.rightNow, op[1])
        elif kind in ("accept", "refuse", "lose"):
            getattr(self.carbon, kind)(op[1])
        elif kind in ("pause", "resume"):
            self.carbon.pause(op[1], kind == "resume")
        else:
            raise NameError(kind)
        if kind in ("udp", "tcp"):
            # What arrives is processed in a turn of its own.
            self.reactor.run_until(self.reactor.rightNow, 0)


@scenario
def daemon(case):
    return history(Daemon(case), case)


def history(daemon, case):
    try:
        daemon.started = daemon.reactor.rightNow
        daemon.root.startService()
        for op in case["ops"]:
            daemon.step(op)
        # Let everything reach carbon.
        carbon, reactor = daemon.carbon, daemon.reactor
        for i in range(case.get("settle", 12)):
            carbon.accept_all()
            for index in range(len(carbon.live())):
                carbon.pause(index, True)
            reactor.run_until(reactor.rightNow + 1)
        carbon.accept_all()
        for index in range(len(carbon.live())):
            carbon.pause(index, True)
        carbon.read()
        stopped = reactor.rightNow
        _, exc = guarded(daemon.root.stopService)
        carbon.read()
        before = len(carbon.points)
        reactor.run_until(reactor.rightNow + 300)
        carbon.read()
        return {
            "answers": daemon.answers,
            "points": carbon.points, "bad": carbon.bad, "stopped": stopped,
            "attempted": sorted(set(
                (a.connector.host, a.connector.port)
                for a in reactor.attempts)),
            "stop_exc": exc, "late": carbon.points[before:],
            "udp_sent": [list(p.sent) for p in reactor.udp],
            "udp_open": [p.port for p in reactor.udp if p.listening],
            "tcp_open": [p.port for p in reactor.tcp if p.listening],
            "errors": list(ERRORS.items)}
    finally:
        daemon.close()
