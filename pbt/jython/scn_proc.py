# -*- coding: utf-8 -*-
"""Histories of messages, clock steps and flushes on the message processors."""
import random

from server import V, guarded, scenario

from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.router import Router
from twisted.plugins.distinct_plugin import DistinctMetricFactory
from twisted.plugins.sli_plugin import SLIMetricFactory


class Clock(object):
    def __init__(self, now, tick=0):
        self.now = now
        self.tick = tick

    def __call__(self):
        now = self.now
        self.now += self.tick
        return now


class Logger(object):
    def __init__(self):
        self.lines = []

    def info(self, line):
        self.lines.append(line)


def recording(cls):
    """A subclass that records what is discarded, as the tests of /repo do."""
    class Recording(cls):
        fails = None

        def fail(self, message):
            if self.fails is not None:
                self.fails.append(message)
            return super(Recording, self).fail(message)
    return Recording


CLASSES = {
    "compliant": recording(MessageProcessor),
    "config": recording(ConfigurableMessageProcessor),
    "logging": recording(LoggingMessageProcessor),
}
RecordingRouter = recording(Router)


class SlowFactory(object):
    """A plugin whose work takes time on the clock of the case."""

    name = "slow"
    metric_type = "slow"

    def __init__(self, clock):
        self.clock = clock

    def build_metric(self, prefix, name, wall_time_func=None):
        return SlowMetric(self.clock)

    def configure(self, options):
        pass


class SlowMetric(object):
    def __init__(self, clock):
        self.clock = clock
        self.cost = 0

    def process(self, fields):
        self.clock.now += float(fields[0])
        self.cost = float(fields[2])

    def flush(self, interval, timestamp):
        self.clock.now += self.cost
        return []


class ToldFactory(object):
    """A plugin that publishes what its flush is told."""

    name = "told"
    metric_type = "told"

    def build_metric(self, prefix, name, wall_time_func=None):
        return ToldMetric(prefix, name)

    def configure(self, options):
        pass


class ToldMetric(object):
    def __init__(self, prefix, name):
        self.name = prefix + "." + name

    def process(self, fields):
        pass

    def flush(self, interval, timestamp):
        return [(self.name + ".told", interval, timestamp)]


def specialised(base):
    """A processor of somebody else, whose flush publishes what it is told."""
    class Specialised(base):
        def flush_timer_metrics(self, percent, timestamp):
            yield (("told.percent", percent, timestamp),)
            for metrics in super(Specialised, self).flush_timer_metrics(
                    percent, timestamp):
                yield metrics
    return Specialised


def make_plugins(rules):
    sli = SLIMetricFactory()
    sli.configure({} if rules is None else {"plugin_sli": {"rules": rules}})
    return [sli, DistinctMetricFactory()]


class System(object):
    """A processor, alone or behind a router, with its clock."""

    def __init__(self, case):
        self.clock = Clock(case.get("now", 1000000), case.get("tick", 0))
        mode = case["mode"]
        kwargs = {"time_function": self.clock}
        if case.get("plugins", True):
            kwargs["plugins"] = make_plugins(case.get("sli_rules"))
        self.logger = None
        if mode != "compliant":
            kwargs["message_prefix"] = case.get("prefix", "")
            if "iprefix" in case:
                kwargs["internal_metrics_prefix"] = case["iprefix"]
        if mode == "logging":
            self.logger = kwargs["logger"] = Logger()
        if case.get("slow"):
            kwargs["plugins"].append(SlowFactory(self.clock))
        kind = CLASSES[mode]
        if case.get("told"):
            kwargs["plugins"].append(ToldFactory())
            kind = specialised(kind)
        self.processor = kind(**kwargs)
        self.fails = self.processor.fails = []
        self.entry = self.processor
        if case.get("router") is not None:
            self.entry = RecordingRouter(self.processor, case["router"])
            self.entry.fails = self.fails
        self.flushes = {}

    def flush(self, interval, percent):
        kwargs = {}
        if interval is not None:
            kwargs["interval"] = interval
        if percent is not None:
            kwargs["percent"] = percent
        return self.entry.flush(**kwargs)

    def step(self, op):
        kind = op[0]
        if kind == "m":
            before = len(self.fails)
            _, exc = guarded(self.entry.process, op[1])
            result = {"fails": self.fails[before:]}
            if exc is not None:
                result["exc"] = exc
            return result
        if kind == "t":
            self.clock.now += op[1]
            V.now = self.clock.now
            return None
        if kind == "f":
            items = []
            _, exc = guarded(self.drain, self.flush(op[1], op[2]), items)
            result = {"items": items}
            if exc is not None:
                result["exc"] = exc
            return result
        if kind == "slow":
            # Whoever takes the datapoints takes his time over each.
            items = []
            _, exc = guarded(self.slowly, self.flush(op[1], op[2]), items,
                             op[3])
            return {"items": items, "exc": exc}
        if kind == "open":
            self.flushes[op[1]] = self.flush(op[2], op[3])
            return None
        if kind == "pull":
            items = []
            _, exc = guarded(self.drain, self.flushes[op[1]], items, op[2])
            result = {"items": items}
            if exc is not None:
                result["exc"] = exc
            return result
        if kind == "rr":
            # As the cooperator does: the flushes under way take turns.
            items = []
            _, exc = guarded(self.take_turns, op[1], items)
            return {"items": items, "exc": exc}
        if kind == "bulk":
            # Many values in an arithmetic progression.
            key, metric_type, start, step, count = op[1:]
            before = len(self.fails)
            for i in xrange(count):
                self.entry.process("%s:%r|%s" % (
                    key, start + step * i, metric_type))
            return {"fails": self.fails[before:]}
        if kind == "wide":
            # Many names with a value each.
            base, suffix, metric_type, start, count = op[1:]
            before = len(self.fails)
            for i in xrange(count):
                self.entry.process("%s%d%s:%d|%s" % (
                    base, i, suffix, start + i, metric_type))
            return {"fails": self.fails[before:]}
        if kind == "names":
            names, exc = guarded(self.processor.get_metric_names)
            return {"names": names, "exc": exc}
        raise NameError("unknown op %r" % (op,))

    def take_turns(self, rounds, items):
        while self.flushes and rounds != 0:
            rounds -= 1
            for key in sorted(self.flushes, key=int):
                try:
                    metric, value, timestamp = self.flushes[key].next()
                except StopIteration:
                    del self.flushes[key]
                    items.append((key, None, None, None))
                else:
                    items.append((key, metric, value, timestamp))

    def slowly(self, generator, items, waits):
        for metric, value, timestamp in generator:
            self.clock.now += waits[len(items) % len(waits)]
            items.append((metric, value, timestamp))

    def drain(self, generator, items, limit=None):
        if limit == 0:
            return
        for item in generator:
            metric, value, timestamp = item
            items.append((metric, value, timestamp))
            if limit is not None and len(items) >= limit:
                return


@scenario
def proc(case):
    system = System(case)
    steps = [system.step(op) for op in case["ops"]]
    obs = {"steps": steps}
    if system.logger is not None:
        obs["log"] = system.logger.lines
    return obs


@scenario
def proc_pair(case):
    """The history, and again without the messages that were discarded."""
    random.seed(case.get("seed", 1))
    first = System(case)
    steps = []
    kept = []
    for op in case["ops"]:
        result = first.step(op)
        steps.append(result)
        if op[0] == "m" and (result["fails"] or "exc" in result):
            continue
        kept.append(op)
    random.seed(case.get("seed", 1))
    second = System(case)
    again = [second.step(op) for op in kept]
    return {"steps": steps, "again": [
        result for op, result in zip(kept, again) if op[0] == "f"]}


@scenario
def proc_many(case):
    """Several independent processors, their histories interleaved."""
    systems = [System(config) for config in case["systems"]]
    return {"steps": [systems[index].step(op)
                      for index, op in case["ops"]]}


@scenario
def proc_logged(case):
    """The history with logging, and the same without."""
    result = {}
    for mode in ("logging", "config"):
        random.seed(case.get("seed", 1))
        V.now = case.get("now", 1000000)
        system = System(dict(case, mode=mode))
        steps, marks = [], []
        for op in case["ops"]:
            steps.append(system.step(op))
            if system.logger is not None:
                marks.append(len(system.logger.lines))
        result[mode] = steps
        if system.logger is not None:
            result["log"], result["marks"] = system.logger.lines, marks
    result["bad"] = []
    for logger in (None, object(), 3):
        _, exc = guarded(LoggingMessageProcessor, logger)
        result["bad"].append(exc)
    return result
