"""C17: sampling sends the given fraction, marked with the rate."""
import math

import hypothesis.strategies as st

import model
from core import Part, ensure

MODULES = ["scn_client"]
RULE = """A case is a few runs of many equal calls with one sample rate each;
non-trivial when a rate strictly between 0 and 1 is used for at least 500
calls."""
ASSUMPTIONS = [
    "The number sent may differ from the expected one by six standard "
    "deviations (a chance of 2e-9 per run; the generator is seeded by the "
    "case).",
    "One name is used with one sample rate.",
]


def strategy(tier):
    top = 4000 if tier == "quick" else 20000
    method = st.sampled_from([
        ("increment", [], "c"), ("increment", [5], "c"),
        ("decrement", [2], "c"), ("timing", [0.25], "ms"),
        ("gauge", [7], "g"), ("meter", [3], "m")])
    rate = st.one_of(
        st.sampled_from([0.1, 0.5, 0.9, 0.01, 0.25, 0.99, 0.001]),
        st.floats(0.001, 0.999), st.sampled_from([1, 1.0, 2, 0]))
    run = st.tuples(method, rate, st.integers(1, top))

    def build(api, runs):
        return {"api": api, "kinds": [m[2] for m, _, _ in runs],
                "runs": [[m[0], ["n%d" % i] + m[1], rate, count]
                         for i, (m, rate, count) in enumerate(runs)]}
    return st.builds(build, st.sampled_from(["basic", "basic", "extended"]),
                     st.lists(run, min_size=1, max_size=4))


def independent(pattern, rate):
    """Whether a call is sent has nothing to do with those before it."""
    sent = [int(n) for n in pattern.split()]
    ensure(all(n in (0, 1) for n in sent), "a call sent %d messages",
           max(sent))
    n, variance = len(sent), rate * (1 - rate)
    for lag in (1, 2, 3, 10):
        if n > lag:
            got = sum((a - rate) * (b - rate)
                      for a, b in zip(sent, sent[lag:]))
            slack = 7 * math.sqrt(n) * variance + 7
            ensure(abs(got) <= slack, "of %d calls with rate %r those %d "
                   "apart go together: %.1f, with a deviation of %.1f", n,
                   rate, lag, got, slack / 7)
    # The numbers sent in runs of calls vary as they should.
    length = int(math.ceil(1 / min(rate, 1 - rate)))
    runs = n // length
    if runs >= 20:
        each = length * variance
        got = sum((sum(sent[i * length:i * length + length])
                   - length * rate) ** 2 for i in range(runs)) / each
        slack = 7 * math.sqrt(runs * (2 + 1 / each)) + 7
        ensure(abs(got - runs) <= slack, "the numbers sent in %d runs of %d "
               "calls with rate %r vary by %.1f, expected %.1f +- %.1f", runs,
               length, rate, got, runs, slack)


def check(case, obs):
    for (method, args, rate, count), kind, got in zip(
            case["runs"], case["kinds"], obs["runs"]):
        sent = got["sent"]
        if rate >= 1:
            ensure(sent == count, "%d of %d were sent with rate %r", sent,
                   count, rate)
        elif rate == 0:
            ensure(sent == 0, "%d of %d were sent with rate 0", sent, count)
        else:
            slack = 6 * math.sqrt(count * rate * (1 - rate)) + 6
            independent(got["pattern"], rate)
            ensure(abs(sent - count * rate) <= slack, "%d of %d calls were "
                   "sent with rate %r, expected %.1f +- %.1f", sent, count,
                   rate, count * rate, slack)
        for line in got["kinds"]:
            name, data = line.split(":", 1)
            fields = data.split("|")
            value = args[1] if len(args) > 1 else 1
            value = {"decrement": -value, "timing": value * 1000}.get(
                method, value)
            said = model.number(fields[0])
            if kind == "c" and case["api"] == "extended":
                # The total, whether it was sent before or not.
                fits = said % value == 0 and 1 <= said / value <= count
            else:
                fits = said == value
            ensure(name == args[0] and fields[1] == kind and fits,
                   "%s(%r) sent %r", method, args, line)
            if rate >= 1:
                ensure(len(fields) == 2, "rate %r sent %r", rate, line)
            else:
                ensure(len(fields) == 3 and fields[2][:1] == "@" and
                       model.close(model.number(fields[2][1:]), rate, 1e-10),
                       "rate %r sent %r", rate, line)


def classify(case, obs):
    labels = set()
    nontrivial = False
    for method, args, rate, count in case["runs"]:
        if 0 < rate < 1:
            labels.add("sampled")
            nontrivial |= count >= 500
        else:
            labels.add("rate %r" % rate)
    return nontrivial, sorted(labels)


PARTS = [Part("fraction", "sampled", strategy, check, classify,
              quick=250, thorough=3000)]
