# -*- coding: utf-8 -*-
"""Options from the command line and the configuration file."""
import os
import sys
import tempfile

from server import guarded, scenario

from txstatsd import service

COERCE = {"int": int, "float": float, "str": str}


def parse(make, case):
    path = None
    argv = list(case["argv"])
    try:
        if case["config"] is not None:
            fd, path = tempfile.mkstemp(suffix=".conf")
            with os.fdopen(fd, "wb") as f:
                f.write(case["config"])
            at = case["config_at"]
            argv[at:at] = case["config_option"] == "-c" and ["-c", path] or \
                case["config_option"] == "--config" and ["--config", path] or \
                ["--config=" + path]
        options, exc = guarded(make)
        if exc is not None:
            return {"exc": exc}
        if case.get("from_sys"):
            saved, sys.argv = sys.argv, ["program"] + argv
            try:
                _, exc = guarded(options.parseOptions)
            finally:
                sys.argv = saved
        else:
            _, exc = guarded(options.parseOptions, argv)
        if exc is not None:
            return {"exc": exc, "made": True}
        values = dict(options)
        values.pop("config", None)
        for name in values:
            if name.startswith("plugin_"):
                values[name] = dict(values[name])
        return {"exc": None, "options": values}
    finally:
        if path is not None:
            os.remove(path)


@scenario
def daemon_options(case):
    return parse(service.StatsDOptions, case)


@scenario
def glue_options(case):
    def row(p):
        result = [p[0], p[1], p[2], "help"]
        if p[3] is not None:
            result.append(COERCE[p[3]])
        return result

    class Base(service.OptionsGlue):
        optParameters = [row(p) for p in case["base"]]
        config_section = case["section"]

    class Derived(Base):
        optParameters = [row(p) for p in case["derived"]]
    return parse(Derived, case)
