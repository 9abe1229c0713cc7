"""Calls on the client library, and what they mean."""
import hypothesis.strategies as st

import gen
import model

NAMES = st.one_of(
    st.sampled_from(["a", "b", "a.b", "gorets", "web/req", "x y", "Web.Req",
                     "ns.a", "a.b.c"]),
    st.text(alphabet="abc.-_/ 1", min_size=1, max_size=8).filter(
        lambda s: any(c in "abc1.-_" for c in s)
        and s.strip(model.SPACE) == s))
values = st.one_of(
    st.integers(-1000, 1000), st.integers(0, 20),
    st.integers(-10 ** 11, 10 ** 11),
    st.integers(-4000, 4000).map(lambda n: n / 8.0),
    st.integers(-4 * 10 ** 10, 4 * 10 ** 10).map(lambda n: n / 8.0),
    st.floats(-1e9, 1e9, allow_nan=False).map(
        lambda f: f if abs(f) > 1e-9 else 0.0))
durations = st.one_of(
    st.integers(0, 4000).map(lambda n: n / 1024.0), st.integers(0, 10),
    st.floats(0, 1e6, allow_nan=False).map(
        lambda f: f if f > 1e-9 else 0.0))
ITEM = [c for c in gen.RAW if c not in "|"]
items = st.one_of(st.text(alphabet="abcdef0123456789", max_size=5),
                  st.text(alphabet=ITEM, max_size=6),
                  st.integers(0, 50))


def call(names=NAMES, clears=True, suffixes=True):
    """One call on Metrics or ExtendedMetrics, as a list."""
    def suffixed(end):
        return names.map(lambda n: n + end) if suffixes else names
    options = [
        st.tuples(st.just("increment"), names),
        st.tuples(st.just("increment"), names, values),
        st.tuples(st.just("decrement"), names),
        st.tuples(st.just("decrement"), names, values),
        st.tuples(st.just("gauge"), names, values),
        st.tuples(st.just("meter"), names),
        st.tuples(st.just("meter"), names, values),
        st.tuples(st.just("timing"), names, durations),
        st.tuples(st.just("timing"), names),
        st.tuples(st.just("reset_timing")),
        st.tuples(st.just("sli"), suffixed(".s"), values),
        st.tuples(st.just("sli"), suffixed(".s"), values, values),
        st.tuples(st.just("sli_error"), suffixed(".s")),
        st.tuples(st.just("distinct"), suffixed(".p"), items),
    ]
    if clears:
        options.append(st.tuples(st.just("clear"), names))
    return st.one_of(options).map(list)


def qualify(namespace, name):
    if namespace is None:
        return name
    if not namespace:
        return name
    return namespace + "." + name


class Meaning(object):
    """What each call should send: (key, kind, value, extra) or None."""

    def __init__(self, case, now=1000000.0):
        self.extended = case["api"] == "extended"
        self.namespace = case.get("namespace", "")
        self.counts = {}
        self.last_time = 0
        self.now = now

    def of(self, op):
        """A list of (key, kind, value, extra)."""
        kind = op[0]
        args = [a for a in op[1:] if not isinstance(a, dict)]
        if kind == "t":
            self.now += args[0]
            return []
        if kind == "reset_timing":
            self.last_time = self.now
            return []
        key = qualify(self.namespace, args[0])
        value = args[1] if len(args) > 1 else None
        if kind in ("increment", "decrement"):
            value = 1 if value is None else value
            if kind == "decrement":
                value = -value
            if self.extended:
                value = self.counts[key] = self.counts.get(key, 0) + value
            return [(key, "c", value, None)]
        if kind == "clear":
            if self.extended and key in self.counts:
                self.counts[key] = 0
                return [(key, "c", 0, None)]
            return []
        if kind == "gauge":
            return [(key, "g", value, None)]
        if kind == "meter":
            return [(key, "m", 1 if value is None else value, None)]
        if kind == "timing":
            if value is None:
                value, self.last_time = self.now - self.last_time, self.now
            return [(key, "ms", value * 1000, None)]
        if kind == "sli":
            return [(key, "sli", value, args[2] if len(args) > 2 else None)]
        if kind == "sli_error":
            return [(key, "sli", "error", None)]
        if kind == "distinct":
            return [(key, "pd", value, None)]
        if kind == "report":
            return [(key, args[2], value, args[3] if len(args) > 3 else None)]
        raise ValueError(op)
