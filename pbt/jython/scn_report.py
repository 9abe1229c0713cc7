# -*- coding: utf-8 -*-
"""Reporting of the daemon's own process: scheduling, readings, inspector."""
import collections
import os
import socket
import sys
import tempfile
import threading
import types

from server import ERRORS, V, guarded, scenario
import fakes

if "psutil" not in sys.modules:
    # Not there for Jython; the scenarios provide what is read.
    psutil = types.ModuleType("psutil")
    psutil.Process = None
    psutil.cpu_times = None
    sys.modules["psutil"] = psutil
import psutil

from twisted.internet import defer, task
from twisted.python import failure

from txstatsd import process
from txstatsd.report import ReactorInspector, ReportingService
from txstatsd.service import report_client_manager_stats


BAD = 99    # the value no report function takes


# -- Scheduling ----------------------------------------------------------------

class Scripted(object):
    """A function to schedule, that does what the case says."""

    def __init__(self, world, number, script):
        self.world, self.number = world, number
        self.script = list(script)
        self.waiting = None

        def function():
            return self.called()
        function.__name__ = "function_%d" % number
        self.function = function

    def called(self):
        self.world.log("call", self.number)
        what = self.script.pop(0) if self.script else ["ok", {}]
        if what[0] == "ok":
            return dict(what[1])
        if what[0] == "raise":
            raise ValueError("scripted %d" % self.number)
        if what[0] == "failed":
            return defer.fail(ValueError("scripted %d" % self.number))
        if what[0] == "fired":
            return defer.succeed(dict(what[1]))
        if what[0] == "none":
            return None
        self.waiting = defer.Deferred()
        return self.waiting

    def fire(self, result):
        if self.waiting is not None:
            waiting, self.waiting = self.waiting, None
            if result is None:
                waiting.errback(failure.Failure(ValueError(
                    "scripted %d" % self.number)))
            else:
                waiting.callback(dict(result))


class World(object):
    def __init__(self):
        self.clock = task.Clock()
        self.events = []

    def log(self, *what):
        self.events.append((self.clock.seconds(),) + what)


@scenario
def reporting(case):
    fakes.fresh()
    world = World()
    kwargs = {}
    if case["instance"] is not None:
        kwargs["instance_name"] = case["instance"]
    service = ReportingService(clock=world.clock, **kwargs)
    functions = {}
    excs = []
    for op in case["ops"]:
        exc = None
        if op[0] == "schedule":
            number = op[1]
            functions[number] = Scripted(world, number, op[4])
            report = None
            if op[3]:
                def report(name, value, number=number):
                    world.log("report", number, name, value)
                    if value == BAD:
                        raise ValueError("report of %d" % number)
            _, exc = guarded(service.schedule, functions[number].function,
                             op[2], report)
        elif op[0] == "start":
            _, exc = guarded(service.startService)
        elif op[0] == "stop":
            _, exc = guarded(service.stopService)
        elif op[0] == "fire":
            if op[1] in functions:
                _, exc = guarded(functions[op[1]].fire, op[2])
        else:
            for i in range(int(op[1] * 4)):
                if exc is None:
                    _, exc = guarded(world.clock.advance, 0.25)
        excs.append(exc)
    return {"events": world.events, "excs": excs,
            "errors": list(ERRORS.items)}


# -- The inspector ---------------------------------------------------------------

@scenario
def inspector(case):
    V.now = case["now"]
    gauges, logged, calls, dumps = [], [], [], []
    state = {"loop": 0}

    class Metrics(object):
        def gauge(self, name, value):
            gauges.append((state["loop"], name, value))

        def meter(self, name, value):
            pass

    def log(message, logLevel=None):
        if message.startswith("Dumping"):
            title, _, rest = message.partition(" (")
            words = title.split(" ")
            dumps.append((state["loop"], " ".join(words[:-1]), words[-1],
                          "in inspector" in rest))
        else:
            logged.append((state["loop"], message.split(" (")[0]))

    inspector = ReactorInspector(
        calls.append, Metrics(), loop_time=case["loop_time"], log=log)
    main = threading.currentThread().ident
    frame = sys._getframe()

    def frames():
        # This thread, the inspector's, and a few more.
        result = dict((-1 - i, frame) for i in range(case["threads"]))
        result[main] = frame
        result[threading.currentThread().ident] = frame
        return result
    responsive = []

    def sleep(seconds):
        # The loop waits; meanwhile the reactor may get to its calls.
        responsive.append(inspector.last_responsive_ts)
        step = case["loops"][state["loop"]]
        start = V.now
        if step[0] is not None:
            V.now = start + seconds * step[0]
            for call in calls:
                call()
            del calls[:]
        V.now = start + seconds + step[1]
        state["loop"] += 1
        if state["loop"] == len(case["loops"]):
            inspector.stop()
    V.on_sleep = sleep
    real, sys._current_frames = sys._current_frames, frames
    try:
        # (It runs while this thread waits.)
        inspector.start()
        inspector.start()
        inspector.join(60)
        alive = inspector.isAlive()
    finally:
        V.on_sleep = None
        sys._current_frames = real
    responsive.append(inspector.last_responsive_ts)
    return {"gauges": gauges, "logged": logged, "dumps": dumps,
            "responsive": responsive, "alive": alive, "main": str(main),
            "daemon": inspector.daemon}


# -- Readings --------------------------------------------------------------------

@scenario
def parsed(case):
    fd, path = tempfile.mkstemp()
    try:
        with os.fdopen(fd, "w") as f:
            f.write(case["text"])
        parser = {"meminfo": process.parse_meminfo,
                  "loadavg": process.parse_loadavg,
                  "netdev": process.parse_netdev}[case["kind"]]
        direct = parser(case["text"])
        report = process.report_file_stats(path, parser)
        return {"direct": direct, "file": report(), "again": report()}
    finally:
        os.remove(path)


class FakeProcess(object):
    def __init__(self, case):
        self.case = case
        if case["threads"] is None:
            self.num_threads = None
        if case["io"] is None:
            self.io_counters = None
        if case["connections"] is None:
            self.connections = None

    def memory_info(self):
        rss, vms = self.case["memory"]
        return collections.namedtuple("meminfo", "rss vms")(rss, vms)

    def cpu_percent(self):
        return self.case["cpu_percent"]

    def memory_percent(self):
        return self.case["memory_percent"]

    def cpu_times(self):
        return collections.namedtuple("cputimes", "user system")(
            *self.case["cpu"])

    def num_threads(self):
        return self.case["threads"]

    def io_counters(self):
        return collections.namedtuple(
            "io", "read_count write_count read_bytes write_bytes")(
            *self.case["io"])

    def connections(self):
        result = []
        for kind, status in self.case["connections"]:
            number = len(result)
            result.append((
                number % 9 - 1,
                socket.AF_INET6 if number % 3 else socket.AF_INET,
                socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM,
                ("10.0.0.1", 48776), () if status in ("LISTEN", "NONE")
                else ("10.0.0.2", 80), status))
        return result


@scenario
def process_report(case):
    report = process.ProcessReport(process=FakeProcess(case))
    kwargs = {} if case["prefix"] is None else {"prefix": case["prefix"]}
    return {"memory": report.get_memory_and_cpu(**kwargs),
            "cpu": report.get_cpu_counters(**kwargs),
            "io": report.get_io_counters(**kwargs),
            "net": report.get_net_stats(**kwargs)}


class Sized(object):
    def __init__(self, n):
        self.n = n

    def qsize(self):
        return self.n


class Threadpool(object):
    def __init__(self, working, queue, waiters, threads):
        self.working = [None] * working
        self.q = Sized(queue)
        self.waiters = [None] * waiters
        self.threads = [None] * threads


@scenario
def system_report(case):
    CpuTimes = collections.namedtuple("scputimes", case["modes"])

    def cpu_times(percpu=False):
        if percpu:
            return [CpuTimes(*times) for times in case["cpus"]]
        return CpuTimes(*[sum(t) for t in zip(*case["cpus"])])
    psutil.cpu_times = cpu_times
    reactor = fakes.fresh()
    reactor.readers = [None] * case["readers"]
    reactor.writers = [None] * case["writers"]
    pool = Threadpool(*case["pool"])
    result = {"total": process.report_system_stats(),
              "percpu": process.report_system_stats(percpu=True)}
    reactor_report = process.report_reactor_stats(reactor)
    pool_report = process.report_threadpool_stats(pool)
    result["reactor"] = [reactor_report()]
    result["pool"] = [pool_report()]
    reactor.readers.append(None)
    pool.working.append(None)
    result["reactor"].append(reactor_report())
    result["pool"].append(pool_report())
    return result


@scenario
def counters(case):
    readings = iter(case["readings"])
    given = []
    shared = {}

    def read(*args, **kwargs):
        given.append((args, kwargs))
        reading = next(readings)
        if reading is None:
            raise ValueError("no reading")
        if case["shared"]:
            # One dict that changes, as counters kept by somebody do.
            shared.clear()
            shared.update(reading)
            return shared
        return dict(reading)
    report = process.report_counters(read, *case["args"], **case["kwargs"])
    steps = []
    for reading in case["readings"]:
        result, exc = guarded(report)
        steps.append((None if result is None else dict(result), exc))
    return {"steps": steps, "given": given}


@scenario
def manager_stats(case):
    from carbon import instrumentation
    instrumentation.stats.clear()
    steps = []
    for op in case["ops"]:
        if op[0] == "increment":
            instrumentation.increment(op[1], op[2])
        elif op[0] == "max":
            instrumentation.max(op[1], op[2])
        else:
            result, exc = guarded(report_client_manager_stats)
            steps.append((result, exc, dict(instrumentation.stats)))
    return {"steps": steps}
