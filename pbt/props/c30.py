"""C30: the inspector says how long the reactor kept a call waiting."""
import hypothesis.strategies as st

import model
from core import Part, ensure

MODULES = ["scn_report"]
RULE = """A case is a loop time and a history of loops, in each of which the
reactor gets to its pending calls at some moment, or does not; non-trivial when
the reactor is stuck for some loops and gets going again afterwards."""
ASSUMPTIONS = [
    "A reactor that gets going makes all the calls that wait for it.",
]


def strategy(tier):
    moment = st.one_of(st.none(), st.none(), st.integers(0, 8).map(
        lambda n: n / 8.0))
    return st.builds(
        lambda now, loop_time, threads, loops: {
            "now": now, "loop_time": loop_time, "threads": threads,
            "loops": [list(l) for l in loops]},
        st.sampled_from([1000000.0, 1400000000.5]),
        st.sampled_from([0.0625, 0.5, 3, 10]), st.integers(0, 3),
        st.lists(st.tuples(moment, st.sampled_from([0, 0, 0.25, 2])),
                 min_size=1, max_size=12 if tier == "quick" else 60))


def walk(case):
    """Per loop: what is found, the delay, the time afterwards."""
    now = case["now"]
    pending = []
    for index, (moment, extra) in enumerate(case["loops"]):
        pending.append((index, now))
        answered = None
        if moment is not None:
            answered = (pending[0], now + case["loop_time"] * moment)
            pending = []
        now += case["loop_time"] + extra
        if answered is None:
            yield "unresponsive", now - pending[0][1], now
        else:
            (number, asked), at = answered
            yield "ok" if number == index else "late", at - asked, now


def check(case, obs):
    found = list(walk(case))
    n = len(found)
    ensure(len(obs["gauges"]) == n, "%d loops gave %d delays", n,
           len(obs["gauges"]))
    kinds = {"ok": "ReactorInspector: ok", "late": "ReactorInspector: late",
             "unresponsive": "ReactorInspector: detected unresponsive!"}
    ensure(not obs["alive"], "the inspector goes on after it was stopped")
    ensure(obs["daemon"], "the inspector's thread keeps the process alive")
    threads = sorted(
        [["Dumping Python frame", str(-1 - i), True]
         for i in range(case["threads"])]
        + [["Dumping Python frame for reactor main thread", obs["main"],
            True]])
    responsive = obs["responsive"][0]
    said = {}
    for loop, message in obs["logged"]:
        said.setdefault(loop, []).append(message)
    for index, (kind, delay, now) in enumerate(found):
        loop, name, value = obs["gauges"][index]
        ensure(loop == index + 1 and name == "delay", "loop %d gave %r",
               index, obs["gauges"][index])
        ensure(model.close(value, delay, 1e-9, 1e-5), "loop %d: delay is %r, "
               "a call waited for %r (%s)", index, value, delay, kind)
        dumped = sorted(d[1:] for d in obs["dumps"] if d[0] == index + 1)
        ensure(dumped == (threads if kind == "unresponsive" else []),
               "loop %d: the frames dumped are %r, the reactor is %s (%s)",
               index, dumped, kind, obs["main"])
        mine = [m for m in said.get(index + 1, [])
                if m.startswith(tuple(kinds.values()))]
        ensure(len(mine) == 1 and mine[0].startswith(kinds[kind]),
               "loop %d logged %r, the reactor is %s", index, mine, kind)
        if kind == "ok":
            responsive = now
        ensure(model.close(obs["responsive"][index + 1], responsive,
                           1e-12, 1e-5),
               "after loop %d the reactor is said to have responded at %r, "
               "expected %r", index, obs["responsive"][index + 1], responsive)


def classify(case, obs):
    kinds = [kind for kind, _, _ in walk(case)]
    back = any(a == "unresponsive" and b == "late"
               for a, b in zip(kinds, kinds[1:]))
    return back and "ok" in kinds, sorted(set(kinds))


PARTS = [Part("loops", "inspector", strategy, check, classify,
              quick=2000, thorough=40000)]
