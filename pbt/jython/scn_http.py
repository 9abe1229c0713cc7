# -*- coding: utf-8 -*-
"""The HTTP pages about a processor, asked for amid its history."""
from server import ERRORS, scenario
import fakes

from scn_proc import System
from txstatsd import service
from txstatsd.server import httpinfo


class PageMetric(object):
    """A metric of a plugin, with a page of its own."""

    def __init__(self, name):
        self.name = name

    def process(self, fields):
        pass

    def flush(self, interval, timestamp):
        return []

    def getResource(self):
        from twisted.web.static import Data
        return Data("page of " + self.name, "text/plain")


class PageFactory(object):
    name = "page"
    metric_type = "page"

    def build_metric(self, prefix, name, wall_time_func=None):
        return PageMetric(name)


@scenario
def http(case):
    reactor = fakes.fresh(case.get("now", 1000000))
    system = System(case)
    system.processor.plugins["page"] = PageFactory()
    options = service.StatsDOptions()
    options["http-port"] = case["port"]
    statsd = service.StatsDService(None, system.entry, case["interval"])
    pages = httpinfo.makeService(options, system.processor, statsd)
    pages.startService()
    result = {"steps": [], "ports": [p.port for p in reactor.tcp]}
    for op in case["ops"]:
        if op[0] != "get":
            result["steps"].append(system.step(op))
            continue
        if not reactor.tcp:
            result["steps"].append(None)
            continue
        transport = reactor.tcp[0].accept()
        request = "%s %s HTTP/1.0\r\n\r\n" % (op[1], op[2])
        for i in range(0, len(request), case.get("cut") or len(request)):
            transport.protocol.dataReceived(
                request[i:i + (case.get("cut") or len(request))])
        reactor.turn()
        result["steps"].append({"text": transport.value(),
                                "closed": not transport.connected})
    pages.stopService()
    reactor.turn()
    result["open"] = [p.port for p in reactor.tcp if p.listening]
    result["errors"] = list(ERRORS.items)
    return result
