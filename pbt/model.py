"""Reference models, written from the documented behaviour, not the code."""
import math
import re

SPACE = " \t\n\r\x0b\x0c"
NUMBER = re.compile(r"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\Z")
NONFINITE = re.compile(r"[+-]?(?:nan|inf|infinity)\Z", re.I)


def number(text):
    """The finite number a text spells, or None."""
    text = text.strip(SPACE)
    if not NUMBER.match(text):
        return None
    value = float(text)
    if math.isinf(value):
        return None
    return value


def normalize(key):
    """What graphite gets to see of a key."""
    key = re.sub("[ \t\n\r\x0b\x0c]+", "_", key)
    key = re.sub("/+", "-", key)
    return "".join(c for c in key
                   if c.isascii() and (c.isalnum() or c in "_-."))


ACCEPT, REJECT, EITHER = "accept", "reject", "either"
RATE = re.compile(r"@([0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\Z")


class Parsed(object):
    verdict = REJECT
    kind = key = value = rate = extra = None


def parse(message, mode, plugins=("sli", "pd")):
    """What becomes of a message: verdict, and its parts when accepted."""
    p = Parsed()
    if ":" not in message:
        return p
    name, data = message.strip(SPACE).split(":", 1)
    if "|" not in data:
        return p
    fields = data.split("|")
    if len(fields) > 3:
        return p
    p.kind = fields[1]
    p.key = normalize(name)
    p.extra = fields[2] if len(fields) == 3 else None
    if p.kind in ("c", "ms", "g", "m"):
        p.value = number(fields[0])
        if p.value is None:
            return p
        p.verdict = ACCEPT
        p.rate = 1.0
        if p.kind == "c" and mode == "compliant" and p.extra is not None:
            match = RATE.match(p.extra)
            if match:
                rate = float(p.extra[1:])
                if rate == 0:
                    p.verdict = REJECT
                elif rate < 1e-300:
                    p.verdict = EITHER
                else:
                    p.rate = rate
            elif not p.extra.startswith("@") or not any(
                    c in "0123456789." for c in p.extra[1:2]):
                p.verdict = REJECT
            else:
                # A rate followed by something else, or "1.2.3".
                p.verdict = EITHER
    elif p.kind == "sli" and "sli" in plugins:
        p.verdict = ACCEPT
        if p.extra is not None:
            if NONFINITE.match(p.extra.strip(SPACE)):
                p.verdict = EITHER
            elif number(p.extra) is None:
                p.verdict = REJECT
                if NUMBER.match(p.extra.strip(SPACE)):
                    p.verdict = EITHER
        if p.verdict != REJECT and fields[0] != "error":
            p.value = number(fields[0])
            if p.value is None:
                p.verdict = REJECT
                if NUMBER.match(fields[0].strip(SPACE)) or \
                        NONFINITE.match(fields[0].strip(SPACE)):
                    p.verdict = EITHER
        elif fields[0] == "error":
            p.value = "error"
    elif p.kind == "pd" and "pd" in plugins:
        p.verdict = ACCEPT
        p.value = fields[0]
    return p


def close(a, b, rel=1e-9, abs_=1e-9):
    if not isinstance(a, (int, float)) or isinstance(a, bool):
        return False
    if not isinstance(b, (int, float)):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def same(a, b, rel=1e-9, abs_=1e-9):
    """Flushed values: close as numbers."""
    return close(a, b, rel, abs_)


# -- What a flush publishes -------------------------------------------------

ANY = None


class Item(object):
    """One expected datapoint: its name and the values it may have."""

    def __init__(self, category, name, values, tol=0.0, rel=1e-9,
                 optional=False):
        self.optional = optional
        self.category = category
        self.name = name
        self.values = values      # a list of alternatives, or ANY
        self.tol = tol
        self.rel = rel

    def accepts(self, value):
        if isinstance(value, bool) or not isinstance(value, (int, float)):
            return False
        if self.values is ANY:
            return True
        for want in self.values:
            if isinstance(want, tuple):
                if want[0] <= value <= want[1]:
                    return True
            elif close(value, want, self.rel, max(self.tol, 1e-12)):
                return True
        return False

    def __repr__(self):
        return "%s=%s" % (self.name, "any" if self.values is ANY
                          else " or ".join(map(repr, self.values)))


def compare(expected, actual, timestamp, select=None):
    """Explain the first difference between expectation and flush, or None."""
    want, got = {}, {}
    for item in expected:
        if select is None or select(item.name):
            want.setdefault(item.name, []).append(item)
    for name, value, when in actual:
        if select is None or select(name):
            got.setdefault(name, []).append(value)
            if isinstance(when, bool) or when != timestamp:
                return "%s is stamped %r, the flush is at %r" % (
                    name, when, timestamp)
    for name in sorted(set(want) | set(got)):
        left = list(want.get(name, []))
        values = got.get(name, [])
        if not values and all(item.optional for item in left):
            continue
        if len(left) != len(values):
            return "%s published %d times %r, expected %d times %r" % (
                name, len(values), values, len(left), left)
        # Few items share a name: try the orders that can match.
        if not matches(left, values):
            return "%s published %r, expected %r" % (name, values, left)
    return None


def matches(items, values):
    if not items:
        return True
    for index, value in enumerate(values):
        if items[0].accepts(value) and matches(
                items[1:], values[:index] + values[index + 1:]):
            return True
    return False


def percentile(values, p):
    """As documented for the histogram: interpolated between neighbours."""
    values = sorted(values)
    if not values:
        return 0.0
    position = p * (len(values) + 1)
    if position < 1:
        return values[0]
    if position >= len(values):
        return values[-1]
    whole = int(math.floor(position))
    low, high = values[whole - 1], values[whole]
    return low + (position - whole) * (high - low)


def moments(values):
    n = len(values)
    if not n:
        return 0.0, 0.0
    mean = math.fsum(values) / n
    if n == 1:
        return mean, 0.0
    return mean, math.sqrt(math.fsum((v - mean) ** 2 for v in values)
                           / (n - 1))


def round_half_choices(x):
    """The whole numbers x may be rounded to, whatever way ties go."""
    low = math.floor(x)
    frac = x - low
    if abs(frac - 0.5) < 1e-6:
        return [low, low + 1]
    return [low + 1] if frac > 0.5 else [low]


def compliant_timer(values, percent):
    """name suffix -> allowed values."""
    values = sorted(values)
    n = len(values)
    result = {"lower": [values[0]], "upper": [values[-1]], "count": [n]}
    means, uppers = [], []
    for cut in (round_half_choices((100 - percent) / 100.0 * n)
                if n > 1 else [0]):
        kept = values[:max(1, n - cut)]
        means.append(math.fsum(kept) / len(kept))
        uppers.append(kept[-1])
    result["mean"] = means
    result["upper_%s" % percent] = uppers
    return result


class Ref(object):
    """A message processor, as documented: what every flush publishes."""

    def __init__(self, mode, prefix="", iprefix="", now=0):
        self.compliant = mode == "compliant"
        self.prefix = prefix + "." if prefix else ""
        if self.compliant:
            self.internal = "statsd."
        elif iprefix:
            self.internal = iprefix
        elif prefix:
            self.internal = prefix + ".statsd."
        else:
            self.internal = "statsd."
        self.now = now
        self.counters = {}   # key -> [total, absolute total]
        self.timers = {}
        self.gauges = {}
        self.meters = {}
        self.slis = {}
        self.distincts = {}
        self.received = {}   # kind -> [accepted, discarded]

    def discard(self, kind):
        self.received.setdefault(kind, [0, 0])[1] += 1

    def process(self, p):
        self.received.setdefault(p.kind, [0, 0])[0] += 1
        if p.kind == "c":
            if self.compliant:
                total = self.counters.setdefault(p.key, [0.0, 0.0])
                total[0] += p.value / p.rate
                total[1] += abs(p.value / p.rate)
            else:
                self.counters[p.key] = p.value
        elif p.kind == "ms":
            if self.compliant:
                self.timers.setdefault(p.key, []).append(p.value)
            else:
                timer = self.timers.setdefault(
                    p.key, {"count": 0, "values": [], "since": self.now})
                timer["count"] += 1
                if p.value >= 0:
                    timer["values"].append(p.value)
        elif p.kind == "g":
            self.gauges[p.key] = p.value
        elif p.kind == "m":
            meter = self.meters.setdefault(
                p.key, {"count": 0.0, "abs": 0.0, "new": 0.0,
                        "since": int(self.now)})
            meter["new"] += p.value
            meter["abs"] += abs(p.value)
        elif p.kind == "sli":
            sli = self.slis.setdefault(p.key, [0, 0])
            sli[0] += 1
            if p.value == "error":
                sli[1] += 1
        elif p.kind == "pd":
            self.distincts.setdefault(p.key, 0)

    def names(self):
        names = set()
        for group in (self.counters, self.timers, self.gauges, self.meters,
                      self.slis, self.distincts):
            names.update(group)
        return names

    def flush(self, interval, percent):
        items = []
        stamp = int(self.now)
        counts = {"counter": [0, 0], "timer": [0, 0], "gauge": [0, 0],
                  "meter": [0, 0], "plugin": [0, 0]}

        def add(category, name, values, tol=0.0, rel=1e-9, optional=False):
            items.append(Item(category, name, values, tol, rel, optional))

        def seen(category, low=1, high=1):
            counts[category][0] += low
            counts[category][1] += high

        for key, value in self.counters.items():
            seen("counter")
            if self.compliant:
                seconds = interval / 1000.0
                total, size = value
                add("counter", "stats." + key, [total / seconds],
                    1e-9 * size / seconds)
                add("counter", "stats_counts." + key, [total], 1e-9 * size)
                self.counters[key] = [0.0, 0.0]
            else:
                add("counter", self.prefix + key + ".count",
                    # The second: math.trunc() of Jython stays in 32 bits.
                    [math.trunc(value),
                     max(-2 ** 31, min(2 ** 31 - 1, math.trunc(value)))])

        for key, timer in self.timers.items():
            if self.compliant:
                if not timer:
                    continue
                seen("timer")
                size = max(abs(v) for v in timer)
                for suffix, values in compliant_timer(timer, percent).items():
                    add("timer", "stats.timers.%s.%s" % (key, suffix), values,
                        1e-9 * size)
                self.timers[key] = []
            else:
                seen("timer")
                self.config_timer(add, key, timer, stamp)

        for key, value in self.gauges.items():
            seen("gauge")
            add("gauge", ("stats.gauge." if self.compliant else self.prefix)
                + key + ".value", [value])

        for key, meter in self.meters.items():
            elapsed = stamp - meter["since"]
            if elapsed == 0:
                seen("meter", 0, 1)
                continue
            seen("meter")
            base = ("stats.meter." if self.compliant else self.prefix) + key
            meter["count"] += meter["new"]
            tol = 1.1e-6 + 1e-9 * meter["abs"]
            add("meter", base + ".count", [meter["count"]], tol)
            add("meter", base + ".rate", [meter["new"] / elapsed], tol)
            meter["new"] = 0.0
            meter["since"] = stamp

        for key, sli in self.slis.items():
            seen("plugin")
            base = ("stats.SLI." if self.compliant else self.prefix) + key
            add("plugin", base + ".count", [sli[0]])
            add("plugin", base + ".error", [sli[1]])
            self.slis[key] = [0, 0]

        for key in self.distincts:
            seen("plugin")
            base = ("stats.pdistinct." if self.compliant
                    else self.prefix) + key
            for suffix in ("count", "count_1min", "count_1hour",
                           "count_1day"):
                add("plugin", base + "." + suffix, ANY)

        low = sum(c[0] for c in counts.values())
        high = sum(c[1] for c in counts.values())
        add("self", self.internal + "numStats", [(low, high)])
        for name, (low, high) in counts.items():
            add("self", self.internal + "flush.%s.count" % name,
                [(low, high)])
            add("self", self.internal + "flush.%s.duration" % name,
                [(0, float("inf"))])
        for kind, (accepted, discarded) in self.received.items():
            # Discarded messages of a type may or may not count.
            optional = not accepted
            add("self", self.internal + "receive.%s.count" % kind,
                [(accepted, accepted + discarded)], optional=optional)
            add("self", self.internal + "receive.%s.duration" % kind,
                [(0, float("inf"))], optional=optional)
        self.received = {}
        return items

    def config_timer(self, add, key, timer, stamp):
        values = timer["values"]
        base = self.prefix + key + "."
        elapsed = stamp - timer["since"]
        mean, deviation = moments(values)
        size = max([abs(v) for v in values] or [0.0])
        tol = 1.1e-6 + 1e-9 * size
        add("timer", base + "min", [min(values) if values else 0.0], tol)
        add("timer", base + "max", [max(values) if values else 0.0], tol)
        add("timer", base + "mean", [mean], tol)
        add("timer", base + "stddev", [deviation], tol + 1e-7 * size)
        if len(values) <= 1028:
            p99 = [percentile(values, 0.99)]
            p999 = [percentile(values, 0.999)]
        else:
            # A sample of 1028: somewhere in the range of the values.
            p99 = p999 = [(min(values) - tol, max(values) + tol)]
        add("timer", base + "99percentile", p99, tol)
        add("timer", base + "999percentile", p999, tol)
        add("timer", base + "count", [timer["count"]])
        rate = len(values) / elapsed if elapsed > 0 else 0.0
        add("timer", base + "rate", [rate], 1.1e-6)
        timer["values"] = []
        timer["since"] = float(stamp)


def run_ref(case, steps, on_flush, plugins=("sli", "pd")):
    """Walk a history along with what was observed.

    Calls on_flush(index, op, items expected, step, stamp) for every flush.
    Returns the model.
    """
    from core import Violation
    mode = case["mode"]
    ref = Ref(mode, case.get("prefix", ""), case.get("iprefix", ""),
              case.get("now", 1000000))
    for index, (op, step) in enumerate(zip(case["ops"], steps)):
        if op[0] == "m":
            if "exc" in step:
                raise Violation("message %r raised %r" % (op[1], step["exc"]))
            p = parse(op[1], mode, plugins)
            if step["fails"]:
                if p.verdict == ACCEPT:
                    raise Violation("message %r was discarded" % (op[1],))
                if p.kind is not None:
                    ref.discard(p.kind)
                continue
            if p.verdict == REJECT:
                raise Violation("message %r was not discarded" % (op[1],))
            ref.process(p)
        elif op[0] == "bulk":
            key, kind, start, delta, count = op[1:]
            if step["fails"]:
                raise Violation("%r was discarded" % (step["fails"][0],))
            p = Parsed()
            p.kind, p.key, p.rate = kind, key, 1.0
            for i in range(count):
                p.value = float(start + delta * i)
                ref.process(p)
        elif op[0] == "wide":
            base, suffix, kind, start, count = op[1:]
            if step["fails"]:
                raise Violation("%r was discarded" % (step["fails"][0],))
            for i in range(count):
                p = Parsed()
                p.kind, p.key, p.rate = kind, "%s%d%s" % (base, i, suffix), 1.0
                p.value = float(start + i)
                ref.process(p)
        elif op[0] == "t":
            ref.now += op[1]
        elif op[0] == "f":
            if "exc" in step:
                raise Violation("flush raised %r" % (step["exc"],))
            interval = 10000 if op[1] is None else op[1]
            percent = 90 if op[2] is None else op[2]
            on_flush(index, op, ref.flush(interval, percent), step,
                     int(ref.now))
        elif op[0] == "names":
            if step["exc"] is not None:
                raise Violation("listing names raised %r" % (step["exc"],))
            got = sorted(step["names"])
            want = sorted(ref.names())
            if got != want:
                raise Violation("names listed %r, received %r" % (got, want))
    return ref
