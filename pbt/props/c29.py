"""C29: reports keep coming, at their interval, whatever fails."""
import hypothesis.strategies as st

from core import Part, ensure

MODULES = ["scn_report"]
RULE = """A case is a history of functions being scheduled (with or without a
report function), the service starting and stopping, time passing, and the
functions returning metrics or none, failing, having them refused by the
report function, or answering late; non-trivial when a
reporting function fails and is called again, or a late answer arrives."""
ASSUMPTIONS = [
    "The service is not started again while a function has yet to answer.",
    "A function without a report function that fails is not called again "
    "until the service is started again; it is called for its own sake.",
]
BAD = 99
INTERVALS = [0.25, 0.5, 1, 1.5, 5, 10, 60]


def strategy(tier):
    size = 14 if tier == "quick" else 40
    metrics = st.dictionaries(st.sampled_from(
        ["a", "b.c", "cpu", "a", "b.c", "cpu", "me.a", "host.ab", "mean"]),
                              st.integers(-5, 5), max_size=3)
    answer = st.one_of(
        st.tuples(st.just("ok"), metrics), st.tuples(st.just("ok"), metrics),
        st.tuples(st.just("fired"), metrics),
        # (The report function fails on this one.)
        st.tuples(st.sampled_from(["ok", "fired"]), st.just({"cpu": BAD})),
        st.sampled_from([("raise",), ("failed",), ("later",), ("later",),
                         ("none",)]))
    schedule = st.tuples(
        st.just("schedule"), st.sampled_from(INTERVALS),
        st.sampled_from([True, True, True, False]),
        st.lists(answer, max_size=6))
    wait = st.tuples(st.just("t"), st.one_of(
        st.integers(1, 12).map(lambda n: n / 4.0),
        st.sampled_from([5, 10, 20, 61])))
    fire = st.tuples(st.just("fire"), st.integers(0, 4), st.one_of(
        st.none(), metrics, metrics, st.just({"cpu": BAD})))
    op = st.one_of(schedule, wait, wait, wait, fire, fire,
                   st.sampled_from([("start",), ("start",), ("stop",)]))

    def build(instance, start, ops):
        ops = ([["schedule", 1, True, []]] if start is None else start) + [
            list(o) for o in ops]
        result, number, running = [], 0, False
        waiting_at_stop = False
        for o in ops:
            o = list(o)
            if o[0] == "schedule":
                o = ["schedule", number] + o[1:]
                o[4] = [list(a) for a in o[4]]
                number += 1
                if number > 5:
                    continue
            elif o[0] == "start":
                if running:
                    continue
                if result and any(p[0] == "stop" for p in result):
                    # Whatever has yet to answer does so first.
                    result.extend(["fire", n, {}] for n in range(5))
                running = True
            elif o[0] == "stop":
                if not running:
                    continue
                running = False
            result.append(o)
        return {"instance": instance, "ops": result}
    return st.builds(
        build, st.sampled_from([None, "", "me", "host.a"]),
        st.one_of(st.just([["start"]]), st.just([]),
                  schedule.map(lambda s: [list(s), ["start"]]),
                  schedule.map(lambda s: [list(s), ["start"]])),
        st.lists(op, min_size=4, max_size=size))


class Task(object):
    def __init__(self, number, interval, reports, script):
        self.number, self.interval = number, interval
        self.reports = reports
        self.script = list(script)
        self.running = False
        self.waiting = False
        self.next = None
        self.start = None
        self.failures = self.called_after_failure = 0


def simulate(case):
    now = 0.0
    tasks, events, running = {}, [], False
    errors = 0
    notes = {"again": False, "late": False}

    def call(t):
        events.append((now, "call", t.number))
        if t.failures:
            notes["again"] = True
        what = t.script.pop(0) if t.script else ["ok", {}]
        if what[0] == "later":
            t.waiting = True
            t.next = None
        else:
            done(t, what[1] if what[0] in ("ok", "fired") else
                 {} if what[0] == "none" and not t.reports else None)

    def done(t, metrics):
        t.waiting = False
        if metrics is None:
            if t.reports:
                t.failures += 1
            else:
                t.running = False
                t.next = None
                return
        elif t.reports:
            for name, value in metrics.items():
                if case["instance"]:
                    name = case["instance"] + "." + name
                events.append((now, "report", t.number, name, value))
                if value == BAD:
                    t.failures += 1
        if t.running:
            passed = now - t.start
            t.next = t.start + (int(passed / t.interval) + 1) * t.interval

    def start(t, at_once):
        t.running = True
        t.start = now
        t.next = now + t.interval
        if at_once:
            call(t)

    for op in case["ops"]:
        if op[0] == "schedule":
            t = tasks[op[1]] = Task(*op[1:])
            if running:
                start(t, True)
        elif op[0] == "start":
            running = True
            for t in tasks.values():
                if not t.running:
                    start(t, False)
        elif op[0] == "stop":
            running = False
            for t in tasks.values():
                t.running = False
                t.next = None
        elif op[0] == "fire":
            t = tasks.get(op[1])
            if t is not None and t.waiting:
                notes["late"] = True
                done(t, op[2])
        else:
            for i in range(int(op[1] * 4)):
                now += 0.25
                for t in tasks.values():
                    if t.next is not None and t.next <= now:
                        call(t)
    return events, sum(t.failures for t in tasks.values()), notes


def check(case, obs):
    for op, exc in zip(case["ops"], obs["excs"]):
        ensure(exc is None, "%r raised %r", op, exc)
    events, failures, _ = simulate(case)
    got = [tuple(e) for e in obs["events"]]
    # What different functions do at one time may come in any order.
    for number in sorted(set(e[2] for e in events) | set(
            e[2] for e in got)):
        for kind in ("call", "report"):
            mine = sorted(e for e in got if e[2] == number and e[1] == kind)
            want = sorted(e for e in events if e[2] == number and
                          e[1] == kind)
            ensure(mine == want, "function %d: %ss (with their times) "
                   "were %r, expected %r", number, kind, mine[:20],
                   want[:20])
    ensure(len(obs["errors"]) == failures, "%d failures were logged, "
           "expected %d: %r", len(obs["errors"]), failures, obs["errors"])


def classify(case, obs):
    events, failures, notes = simulate(case)
    labels = [k for k, v in (("called again after a failure",
                              notes["again"]), ("late answer", notes["late"]))
              if v]
    if any(e[1] == "report" for e in events):
        labels.append("reports")
    starts = sum(1 for op in case["ops"] if op[0] == "start")
    if starts > 1:
        labels.append("restarted")
    return notes["again"] or notes["late"], labels


PARTS = [Part("schedule", "reporting", strategy, check, classify,
              quick=2000, thorough=40000)]
