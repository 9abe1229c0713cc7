# -*- coding: utf-8 -*-
"""What the daemon reports of its own process and of the system."""
import __builtin__
import collections
import os
import platform
import shutil
import sys
import tempfile
import threading
import types

from server import V, scenario

from scn_daemon import Daemon, history

if "psutil" not in sys.modules:
    # Not there for Jython; the scenarios provide what is read.
    sys.modules["psutil"] = types.ModuleType("psutil")
import psutil

FILES = {"/proc/meminfo": "meminfo", "/proc/loadavg": "loadavg",
         "/proc/net/dev": "netdev"}


class Enough(Exception):
    """Ends a loop that would go on for ever."""


class Handle(object):
    """The process, as psutil shows it, at the time of the reading."""

    def __init__(self, now):
        self.now = now

    def memory_info(self):
        return collections.namedtuple("meminfo", "rss vms")(
            *self.now()["memory"])

    def cpu_percent(self):
        return self.now()["cpu_percent"]

    def memory_percent(self):
        return self.now()["memory_percent"]

    def cpu_times(self):
        return collections.namedtuple("cputimes", "user system")(
            *self.now()["cpu"])

    def num_threads(self):
        return self.now()["threads"]

    def io_counters(self):
        return collections.namedtuple(
            "io", "read_count write_count read_bytes write_bytes")(
            *self.now()["io"])

    def connections(self):
        import socket
        return [(3, socket.AF_INET, socket.SOCK_STREAM, ("10.0.0.1", 48776),
                 ("10.0.0.2", 80), status)
                for status in self.now()["connections"]]


class Reporting(Daemon):
    """A daemon that inspects its reactor when the case says so."""

    def step(self, op):
        if op[0] == "inspect":
            for thread in list(self.threads):
                self.inspect(thread, list(op[1]))
        else:
            Daemon.step(self, op)

    def inspect(self, thread, delays):
        def sleep(seconds):
            if not delays:
                raise Enough()
            self.reactor.rightNow += delays.pop(0)
            self.reactor.run_until(self.reactor.rightNow)
        V.on_sleep = sleep
        try:
            thread.run()
            return False
        except Enough:
            return True
        finally:
            V.on_sleep = None


@scenario
def self_reports(case):
    # As in a daemon that has just started.
    sys.modules.pop("txstatsd.process", None)
    import txstatsd
    if hasattr(txstatsd, "process"):
        del txstatsd.process
    scratch = tempfile.mkdtemp()
    opened, threads, pids = [], [], []
    real_open, real_start = __builtin__.open, threading.Thread.start
    state = {}

    def now():
        daemon = state.get("daemon")
        if daemon is None or not hasattr(daemon, "started"):
            return case["readings"][0]
        passed = daemon.reactor.rightNow - daemon.started
        index = int((passed + 1e-3) / 60)
        return case["readings"][min(index, len(case["readings"]) - 1)]

    def process(pid=None):
        pids.append(pid)
        return Handle(now)

    def cpu_times(percpu=False):
        times = now()["cpus"]
        return collections.namedtuple("scputimes", sorted(times))(
            *[times[name] for name in sorted(times)])

    def open_(path, *args, **kwargs):
        if path in FILES:
            opened.append(path)
            name = os.path.join(scratch, FILES[path])
            with real_open(name, "w") as f:
                f.write(now()[FILES[path]])
            return real_open(name, *args, **kwargs)
        return real_open(path, *args, **kwargs)
    psutil.Process, psutil.cpu_times = process, cpu_times
    __builtin__.open = open_
    threading.Thread.start = lambda thread: threads.append(thread)
    try:
        daemon = state["daemon"] = Reporting(case)
        daemon.threads = threads
        daemon.reactor.getReaders = lambda: [None] * now()["readers"]
        daemon.reactor.getWriters = lambda: [None] * now()["writers"]
        result = history(daemon, case)
        result["node"] = platform.node()
        result["opened"] = sorted(set(opened))
        result["threads"] = len(threads)
        # Once it was stopped the inspector's loop is at its end.
        result["running"] = []
        for thread in threads:
            result["running"].append(daemon.inspect(thread, []))
        return result
    finally:
        __builtin__.open = real_open
        threading.Thread.start = real_start
        shutil.rmtree(scratch)
