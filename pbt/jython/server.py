# -*- coding: utf-8 -*-
"""Runs scenarios against the code in /repo, inside Jython.

Reads one JSON request per line on stdin and answers with one JSON line on
stdout.  A request names a scenario (a function of one of the scn_*.py modules
next to this file) and carries the generated case.  The answer is what the
scenario observed: {"ok": ...}, or {"exc": ...} when an exception came out of
it.  Judging the observation is left to the Python 3 side.

Nothing random and no real clock is left to the code under test: the random
module is seeded from the request, time.time() is a virtual clock, and the
reactor is an in-memory one.
"""
import os
import sys

RPC_OUT = sys.stdout
sys.stdout = sys.stderr

import json
import random
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Virtual(object):
    """The virtual clock; scenarios set C{now} or C{source}."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 1000000.0
        self.source = None
        self.on_sleep = None

    def time(self):
        if self.source is not None:
            return self.source()
        return self.now

    def sleep(self, seconds):
        if self.on_sleep is not None:
            return self.on_sleep(seconds)
        self.now += seconds


V = Virtual()


def _vtime():
    return V.time()


def _vsleep(seconds):
    return V.sleep(seconds)


REAL_TIME = time.time
time.time = staticmethod(_vtime)
time.sleep = staticmethod(_vsleep)


class Errors(object):
    """Collects what was logged through twisted as an error."""

    def __init__(self):
        self.items = []
        self.messages = None

    def __call__(self, event):
        if event.get("log_namespace") == "twisted.internet.defer":
            # Logged whenever the garbage collector comes by, maybe in the
            # middle of a later case.
            return
        if event.get("isError"):
            failure = event.get("failure")
            if failure is not None:
                self.items.append("%s: %s" % (
                    failure.type.__name__, failure.getErrorMessage()))
            else:
                self.items.append(" ".join(str(m) for m in event["message"]))
        elif self.messages is not None:
            try:
                self.messages.append(" ".join(str(m) for m in event["message"]))
            except Exception:
                self.messages.append("<unprintable>")


ERRORS = Errors()


def dec(value):
    """From JSON: text becomes a byte string, {"u": text} a unicode one."""
    if isinstance(value, unicode):
        return value.encode("latin-1")
    if isinstance(value, list):
        return [dec(item) for item in value]
    if isinstance(value, dict):
        if len(value) == 1 and "u" in value:
            return value["u"]
        return dict((dec(k), dec(v)) for k, v in value.iteritems())
    return value


def enc(value):
    """To JSON: the inverse of C{dec}; tuples become lists."""
    if value is None or value is True or value is False:
        return value
    if isinstance(value, str):
        return value.decode("latin-1")
    if isinstance(value, unicode):
        return {"u": value}
    if isinstance(value, (int, long, float)):
        return value
    if isinstance(value, (list, tuple)):
        return [enc(item) for item in value]
    if isinstance(value, dict):
        return dict((k if isinstance(k, unicode) else str(k).decode("latin-1"),
                     enc(v)) for k, v in value.iteritems())
    if isinstance(value, (set, frozenset)):
        return sorted(enc(item) for item in value)
    return {"o": "%s: %r" % (type(value).__name__, value)}


def describe(exc_type, exc, tb):
    """What an exception was and whether code of /repo was on its stack."""
    frames = []
    sut = False
    for filename, line, function, text in traceback.extract_tb(tb):
        frames.append("%s:%s %s" % (filename, line, function))
        if os.path.abspath(filename).startswith(REPO + "/"):
            sut = True
    name = getattr(exc_type, "__name__", str(exc_type))
    try:
        text = str(exc)
    except Exception:
        text = repr(exc)
    return {"type": name, "msg": text[:500], "sut": sut, "tb": frames[-6:]}


def guarded(function, *args, **kwargs):
    """Call, returning (result, None) or (None, description)."""
    try:
        return function(*args, **kwargs), None
    except Exception:
        return None, describe(*sys.exc_info())


SCENARIOS = {}


def scenario(function):
    SCENARIOS[function.__name__] = function
    return function


def main(modules):
    # The scenario modules import this one by its name.
    sys.modules["server"] = sys.modules["__main__"]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from twisted.python import log
    log.addObserver(ERRORS)
    for name in modules:
        __import__(name)
    out = RPC_OUT
    out.write(json.dumps({"ready": sorted(SCENARIOS)}) + "\n")
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        request = json.loads(line)
        V.reset()
        ERRORS.items = []
        ERRORS.messages = None
        random.seed(request.get("seed", 0))
        try:
            result = SCENARIOS[request["scenario"]](dec(request["case"]))
            answer = {"ok": enc(result), "errors": enc(ERRORS.items)}
        except Exception:
            answer = {"exc": enc(describe(*sys.exc_info())),
                      "errors": enc(ERRORS.items)}
        except:  # java exceptions: StackOverflowError and such
            kind, value, tb = sys.exc_info()
            answer = {"exc": enc(describe(kind, value, tb)), "errors": []}
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
