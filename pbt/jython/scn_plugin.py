# -*- coding: utf-8 -*-
"""Plugins of somebody else: what they are given, and what becomes of theirs."""
from server import V, guarded, scenario
from scn_proc import CLASSES, Clock, Logger, RecordingRouter
from scn_daemon import Daemon, history


class World(object):
    def __init__(self):
        self.metrics = []
        self.configured = []


class Factory(object):
    def __init__(self, world, metric_type, name, shape):
        self.world = world
        self.metric_type, self.name, self.shape = metric_type, name, shape

    def configure(self, options):
        self.world.configured.append([
            self.metric_type, options["flush-interval"],
            options["listen-port"],
            sorted(map(list, dict(options.get("plugin_own", {})).items()))])

    def build_metric(self, prefix, name, wall_time_func=None):
        metric = Metric(self, len(self.world.metrics), prefix, name,
                        wall_time_func)
        self.world.metrics.append(metric)
        return metric


class Metric(object):
    def __init__(self, factory, number, prefix, name, clock):
        self.factory, self.number = factory, number
        self.prefix, self.name, self.clock = prefix, name, clock
        self.times, self.calls, self.flushes = [], [], []

    def process(self, fields):
        self.calls.append(list(fields))
        if self.clock is not None:
            self.times.append(self.clock())
        if "bad" in fields[0]:
            raise ValueError("refused")
        if "odd" in fields[0]:
            raise TypeError("refused")

    def flush(self, interval, timestamp):
        form, count, shift = self.factory.shape
        items = [("own.%d.%d" % (self.number, i), len(self.calls) + i,
                  timestamp - shift * i) for i in range(count)]
        self.flushes.append([interval, timestamp, items])
        if form == "tuple":
            return tuple(items)
        if form == "generator":
            return (item for item in items)
        return list(items)

    def state(self):
        return {"type": self.factory.metric_type, "prefix": self.prefix,
                "name": self.name, "calls": self.calls, "times": self.times,
                "flushes": self.flushes}


@scenario
def plugins(case):
    world = World()
    clock = Clock(case["now"])
    kwargs = {"time_function": clock, "plugins": [
        Factory(world, *p) for p in case["plugins"]]}
    if case["mode"] != "compliant":
        kwargs["message_prefix"] = case["prefix"]
    if case["mode"] == "logging":
        kwargs["logger"] = Logger()
    processor = entry = CLASSES[case["mode"]](**kwargs)
    fails = processor.fails = []
    if case["router"]:
        entry = RecordingRouter(processor, "")
        entry.fails = fails
    steps = []
    for op in case["ops"]:
        if op[0] == "m":
            before = len(fails)
            _, exc = guarded(entry.process, op[1])
            steps.append({"exc": exc, "fails": len(fails) - before})
        elif op[0] == "t":
            clock.now += op[1]
            V.now = clock.now
            steps.append({"exc": None})
        else:
            items, exc = guarded(
                lambda: list(entry.flush(interval=op[1], percent=op[2])))
            steps.append({"exc": exc, "items": [
                i for i in items or () if str(i[0]).startswith("own.")]})
    return {"steps": steps, "names": processor.get_metric_names(),
            "metrics": [m.state() for m in world.metrics]}


@scenario
def plugins_daemon(case):
    world = World()
    daemon = Daemon(case, [Factory(world, *p) for p in case["plugins"]])
    obs = history(daemon, case)
    return {"configured": world.configured, "points": [
        p[2:5] for p in obs["points"] if str(p[2]).startswith("own.")],
        "metrics": [m.state() for m in world.metrics]}
