"""C32: the HTTP pages tell the truth about the processor."""
import json

import hypothesis.strategies as st

import gen
import model
from core import Part, ensure
from props.c25 import check_bins

MODULES = ["scn_proc", "scn_http"]
RULE = """A case is a history of messages (some of which take time to process
or to flush), flushes and requests of pages; non-trivial when a page is asked
for after a flush that took time, or the page of a timer that holds
timings."""
ASSUMPTIONS = [
    "Pages are asked for between flushes, not while one is under way.",
    "Within a millionth of 0.7 flush intervals the status may be either.",
]
WORK = ["GET", "GET", "GET", "GET", "HEAD"]


def strategy(tier):
    key = st.sampled_from(["a", "b", "c.d", "e-f", "Web.Req"])
    slow = st.builds(
        lambda k, a, b: ["m", "%s:%r|slow|%r" % (k, a, b)],
        st.sampled_from(["s1", "s2"]),
        st.one_of(st.integers(0, 12), st.integers(0, 640).map(
            lambda n: n / 64.0)),
        st.one_of(st.just(0), st.integers(0, 8)))
    # Exactly the share of an interval that a flush may take.
    share = st.builds(
        lambda k, a, b: ["ops", [["m", "%s:%r|slow|%r" % (k, a - b, b)],
                                 ["f", None, None],
                                 ["get", "GET", "/status"]]],
        st.sampled_from(["s1", "s2"]), st.sampled_from([7, 7, 3.5, 1.75, 42]),
        st.sampled_from([0, 0, 1]))
    # A little less or more than that, divided between the two.
    split = st.builds(
        lambda k, share, flushing: ["split", k, share, flushing],
        st.sampled_from(["s1", "s2"]),
        st.sampled_from([0.625, 0.75, 0.75, 0.875, 1.0, 1.25]),
        st.sampled_from([0, 0.125, 0.25, 0.5, 0.5, 0.75, 1]))
    message = gen.message(key).map(lambda m: ["m", m])
    path = st.one_of(
        st.sampled_from(["/status", "/status", "/status", "/list_metrics",
                         "/list_metrics"]),
        st.sampled_from(["a", "b", "c.d", "e-f", "a.s", "s1", "p1",
                         "none", "Web.Req", "web.req"]).map("/metrics/{0}".format),
        st.sampled_from(["a", "b", "Web.Req"]).map("/metrics/{0}".format),
        st.sampled_from(["/", "/nothing", "/metric/a", "/Status",
                         "/a"]))
    get = st.tuples(st.just("get"), st.sampled_from(WORK), path)
    op = st.one_of(
        message, message, slow, get, get, get,
        st.builds(lambda k, n, step, count: [
            "bulk", k, "ms", n, step, count], st.sampled_from(["a", "b"]),
            st.integers(0, 9), st.sampled_from([0, 1, 0.5]),
            st.sampled_from([2, 3, 9, 33, 1030])),
        st.sampled_from([["m", "p1:1|page"], ["m", "a:1|page"],
                         ["m", "junk"], ["m", "a:x|ms"]]),
        st.tuples(st.just("f"), st.none(), st.none()),
        st.tuples(st.just("f"), st.none(), st.none()),
        st.tuples(st.just("t"), st.sampled_from([1, 10, 0.25])))

    def build(mode, interval, port, cut, ops):
        flat = []
        for o in ops:
            if o[0] == "split":
                # (What cost time before does so no more.)
                seconds = round(interval * o[2] / 1000 * 64) / 64.0
                flushing = round(seconds * o[3] * 64) / 64.0
                flat.extend([["m", "s1:0|slow|0"], ["m", "s2:0|slow|0"],
                             ["f", None, None],
                             ["m", "%s:%r|slow|%r" % (
                                 o[1], seconds - flushing, flushing)],
                             ["f", None, None], ["get", "GET", "/status"]])
            else:
                flat.append(o)
        ops = flat
        return {"mode": mode, "slow": True, "interval": interval,
                "port": port, "cut": cut, "ops": [list(o) for o in ops] + [
                    ["get", "GET", "/list_metrics"],
                    ["get", "GET", "/status"]]}
    return st.builds(
        build, st.sampled_from(["compliant", "config", "config", "logging"]),
        st.sampled_from([1000, 10000, 10000, 5000, 2500, 60000]),
        st.sampled_from([8080, 8080, 8080, 8080, 80, None]),
        st.sampled_from([None, None, 1, 5]),
        st.lists(st.one_of(
            st.lists(op, min_size=1, max_size=5),
            share.map(lambda s: s[1]),
            split.map(lambda s: [s]),
            # Messages, maybe a flush, and pages.
            st.builds(
                lambda sent, late, pages: sent + [["f", None, None]] + late
                + pages,
                st.lists(st.one_of(slow, slow, message), min_size=1,
                         max_size=6),
                st.lists(st.one_of(slow, message), max_size=2),
                st.lists(get, min_size=1, max_size=3)),
            st.builds(
                lambda key, values, pages: [
                    ["m", "%s:%s|ms" % (key, v)] for v in values]
                + [["get", "GET", "/metrics/" + key]] + pages,
                st.sampled_from(["a", "b", "A"]),
                st.lists(gen.number_texts, min_size=1, max_size=12),
                st.lists(get, max_size=2))),
            min_size=1, max_size=4 if tier == "quick" else 12).map(
                lambda parts: [o for part in parts for o in part]))


def parse(text):
    head, _, body = text.partition("\r\n\r\n")
    return int(head.split(" ", 2)[1]), body


class Model(object):
    def __init__(self, case):
        self.timings = {}      # key -> timings since the flush
        self.names = set()
        self.pages = set()
        self.timer_names = set()
        self.pending = 0.0     # seconds taken by messages since the flush
        self.costs = {}        # flush cost of each slow metric
        self.status = [0.0, 0.0]
        self.mode = case["mode"]

    def message(self, text, fails):
        if "|slow|" in text:
            name, rest = text.split(":")
            spent, _, cost = rest.split("|")
            self.pending += float(spent)
            self.costs[name] = float(cost)
            self.names.add(name)
        elif text.endswith("|page"):
            self.names.add(text.split(":")[0])
            self.pages.add(text.split(":")[0])
        else:
            p = model.parse(text, self.mode)
            ensure(bool(fails) == (p.verdict == model.REJECT),
                   "discarded %r: %r", text, fails)
            if fails:
                return
            self.names.add(p.key)
            if p.kind == "ms":
                self.timing(p.key, p.value)

    def timing(self, key, value):
        self.names.add(key)
        self.timer_names.add(key)
        if value >= 0:
            self.timings.setdefault(key, []).append(value)

    def flush(self):
        self.timings = {}
        self.status = [1000 * sum(self.costs.values()), 1000 * self.pending]
        self.pending = 0.0


def check(case, obs):
    ensure(obs["ports"] == ([] if case["port"] is None else [case["port"]]),
           "listens on %r, asked for %r", obs["ports"], case["port"])
    ensure(not obs["open"], "ports %r are open after it stopped", obs["open"])
    ensure(not obs["errors"], "errors were logged: %r", obs["errors"][:2])
    m = Model(case)
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] in "mf":
            ensure("exc" not in step, "%r raised %r", op, step.get("exc"))
        if op[0] == "m":
            m.message(op[1], step["fails"])
        elif op[0] == "bulk":
            for i in range(op[5]):
                m.timing(op[1], op[3] + op[4] * i)
        elif op[0] == "f":
            m.flush()
        elif op[0] == "get" and case["port"] is not None:
            page(case, op, step, m)


def page(case, op, step, m):
    where = "%s %s" % (op[1], op[2])
    ensure(step["closed"], "%s: the connection was left open", where)
    code, body = parse(step["text"])
    path = op[2]
    if op[1] == "HEAD":
        ensure(body == "", "%s sent %r", where, body[:60])
    if path == "/status":
        busy = sum(m.status)
        limit = 0.7 * case["interval"]
        # (What takes time here takes a multiple of a 64th of a second.)
        if busy == limit or abs(busy - limit) > 1e-6 * limit:
            want = 500 if busy > limit else 200
            ensure(code == want, "%s answered %d: of %r ms, %r took flushing "
                   "and %r processing", where, code, case["interval"],
                   *m.status)
        if op[1] == "GET":
            data = json.loads(body)
            ensure(data["status"] == ("OK" if code == 200 else "ERROR"),
                   "%s %d says %r", where, code, data)
            for name, want in [("flush_time", m.status[0]),
                               ("process_time", m.status[1]),
                               ("flush_interval", case["interval"])]:
                ensure(model.close(data[name], want, 1e-9, 1e-6),
                       "%s: %s is %r, expected %r", where, name, data[name],
                       want)
        return
    if path == "/list_metrics":
        ensure(code == 200, "%s answered %d", where, code)
        if op[1] == "GET":
            names = json.loads(body)["names"]
            ensure(sorted(names) == sorted(m.names), "%s: %r, received %r",
                   where, sorted(names), sorted(m.names))
        return
    name = path[len("/metrics/"):] if path.startswith("/metrics/") else None
    if name in m.timer_names and m.mode != "compliant":
        ensure(code == 200, "%s answered %d", where, code)
        if op[1] == "GET":
            timer(where, m.timings.get(name, []), json.loads(body))
        return
    if name in m.pages and name not in m.timer_names:
        ensure(code == 200, "%s answered %d", where, code)
        if op[1] == "GET":
            ensure(body == "page of " + name, "%s: %r", where, body)
        return
    if name in m.pages:
        # In compliant mode, both a timer without and a metric with a page.
        return
    ensure(code == 404, "%s answered %d", where, code)


def timer(where, values, data):
    ensure(data["min_value"] == (min(values) if values else 0),
           "%s: min %r of %r", where, data["min_value"], values[:20])
    ensure(data["max_value"] == (max(values) if values else 0),
           "%s: max %r of %r", where, data["max_value"], values[:20])
    if not values:
        ensure(sum(data["histogram"]) == 0, "%s: %r of nothing", where,
               data["histogram"])
    elif len(values) <= 1028:
        check_bins(len(values), values, data["histogram"])
    else:
        ensure(sum(data["histogram"]) == 1028, "%s: bins of 1028 timings add "
               "up to %r", where, sum(data["histogram"]))


def classify(case, obs):
    labels, nontrivial = {case["mode"]}, False
    m = Model(case)
    for op, step in zip(case["ops"], obs["steps"]):
        if op[0] == "m":
            m.message(op[1], step["fails"])
        elif op[0] == "bulk":
            for i in range(op[5]):
                m.timing(op[1], op[3] + op[4] * i)
        elif op[0] == "f":
            m.flush()
        elif op[0] == "get" and case["port"] is not None:
            code, _ = parse(step["text"])
            labels.add("%s %d" % (op[2].split("/")[1], code))
            if op[2] == "/status" and sum(m.status):
                nontrivial = True
            if m.timings.get(op[2][9:]):
                nontrivial = True
    if case["port"] is None:
        labels.add("no port")
    return nontrivial, sorted(labels)


PARTS = [Part("pages", "http", strategy, check, classify,
              quick=900, thorough=15000)]
