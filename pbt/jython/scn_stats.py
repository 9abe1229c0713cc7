# -*- coding: utf-8 -*-
"""Samples, histograms, averages and distinct counters on their own."""
import hashlib
import itertools
import random

from server import V, guarded, scenario

from twisted.plugins.distinct_plugin import DistinctMetricFactory
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.metrics.histogrammetric import HistogramMetricReporter
from txstatsd.stats.ewma import Ewma
from txstatsd.stats.exponentiallydecayingsample import (
    ExponentiallyDecayingSample)
from txstatsd.stats.uniformsample import UniformSample


@scenario
def sli_configure(case):
    factory = SLIMetricFactory()
    options = {} if case["rules"] is None else {
        "plugin_sli": {"rules": case["rules"]}}
    _, exc = guarded(factory.configure, options)
    return {"exc": exc}


@scenario
def distinct(case):
    V.now = case["now"]
    metric = DistinctMetricFactory().build_metric(
        case["prefix"], case["name"], wall_time_func=lambda: V.now)
    flushes = []
    for op in case["ops"]:
        if op[0] == "marks":
            for i in xrange(op[2], op[2] + op[3]):
                item = hashlib.md5("%s:%d" % (op[1], i)).hexdigest()[:8]
                metric.process([item, "pd"])
        elif op[0] == "t":
            V.now += op[1]
        else:
            flushes.append(list(metric.flush(op[1], int(V.now))))
    return {"flushes": flushes}


@scenario
def distinct_many(case):
    """Several counters over the same items: what each says."""
    V.now = case["now"]
    items = [hashlib.md5("%s:%d" % (case["tag"], i)).hexdigest()[:8]
             for i in xrange(case["count"])]
    said = []
    for trial in xrange(case["trials"]):
        metric = DistinctMetricFactory().build_metric(
            "", "x", wall_time_func=lambda: V.now)
        for item in items:
            metric.process([item, "pd"])
        said.append(dict((name[2:], value) for name, value, _ in
                         metric.flush(10000, int(V.now))))
    return {"said": said}


@scenario
def distinct_alike(case):
    """Several counters over the same words, which look much alike."""
    V.now = case["now"]
    words = ["".join(w) for length in case["lengths"]
             for w in itertools.product(case["letters"], repeat=length)]
    words.sort(key=lambda w: hashlib.md5(
        case["tag"] + w.encode("unicode_escape")).digest())
    words = words[:case["count"]]
    said = []
    for trial in xrange(case["trials"]):
        metric = DistinctMetricFactory().build_metric(
            "", "x", wall_time_func=lambda: V.now)
        for word in words:
            metric.process([case["head"] + word.encode("latin-1") +
                            case["tail"], "pd"])
        said.append(dict((name[2:], value) for name, value, _ in
                         metric.flush(10000, int(V.now))))
    return {"said": said, "words": len(words)}


@scenario
def uniform(case):
    sample = UniformSample(case["size"])
    steps = []
    number = 0
    for op in case["ops"]:
        if op[0] == "add":
            for i in xrange(op[1]):
                sample.update(number)
                number += 1
        else:
            sample.clear()
        steps.append((sample.size(), sample.get_values()))
    return {"steps": steps}


@scenario
def uniform_odds(case):
    """How often each of a stream ends in the sample."""
    kept = [0] * case["count"]
    places = [0] * case["count"]
    for trial in xrange(case["trials"]):
        sample = UniformSample(case["size"])
        if case["cleared"]:
            for i in xrange(case["cleared"]):
                sample.update(-1)
            sample.clear()
        for i in xrange(case["count"]):
            sample.update(i)
        for value in sample.get_values():
            kept[value] += 1
    return {"kept": kept}


@scenario
def decaying(case):
    V.now = case["now"]
    sample = ExponentiallyDecayingSample(
        case["size"], case["alpha"], wall_time=lambda: V.now)
    steps = []
    number = 0
    for op in case["ops"]:
        if op[0] == "add":
            for i in xrange(op[1]):
                sample.update(number)
                number += 1
        elif op[0] == "late":
            for i in xrange(op[1]):
                sample.update(number, V.now - op[2])
                number += 1
        elif op[0] == "t":
            V.now += op[1]
        else:
            sample.clear()
        steps.append((sample.size(), sample.get_values()))
    return {"steps": steps}


@scenario
def decaying_odds(case):
    """How many of each group of a stream end in the sample."""
    kept = [0] * len(case["groups"])
    for trial in xrange(case["trials"]):
        V.now = case["now"]
        sample = ExponentiallyDecayingSample(
            case["size"], case["alpha"], wall_time=lambda: V.now)
        for index, (wait, count) in enumerate(case["groups"]):
            V.now += wait
            for i in xrange(count):
                sample.update(index)
        for value in sample.get_values():
            kept[value] += 1
    return {"kept": kept}


@scenario
def histogram(case):
    if case["sample"] == "uniform":
        h = HistogramMetricReporter.using_uniform_sample()
    elif case["sample"] == "decaying":
        h = HistogramMetricReporter.using_exponentially_decaying_sample()
    else:
        h = HistogramMetricReporter(UniformSample(case["sample"]))
    steps = []
    for op in case["ops"]:
        if op[0] == "add":
            for value in op[1]:
                h.update(value)
        elif op[0] == "run":
            value, delta, count = op[1:]
            for i in xrange(count):
                h.update(value + delta * i)
        elif op[0] == "t":
            V.now += op[1]
        elif op[0] == "clear":
            h.clear()
        else:
            steps.append({
                "count": h.count, "min": h.min(), "max": h.max(),
                "mean": h.mean(), "std_dev": h.std_dev(),
                "percentiles": h.percentiles(*op[1]),
                "histogram": h.histogram(), "values": h.get_values()})
    return {"steps": steps}


@scenario
def ewma(case):
    kind = case["kind"]
    if kind == 1:
        average = Ewma.one_minute_ewma()
    elif kind == 5:
        average = Ewma.five_minute_ewma()
    elif kind == 15:
        average = Ewma.fifteen_minute_ewma()
    else:
        average = Ewma(*kind)
    rates = []
    for op in case["ops"]:
        if op[0] == "update":
            average.update(op[1])
        else:
            for i in xrange(op[1]):
                average.tick()
            rates.append(average.rate)
    return {"rates": rates}
