"""C15: every client call sends one line that says what was called."""
import hypothesis.strategies as st

import calls
import gen
import model
from core import Part, ensure

MODULES = ["scn_client"]
RULE = """A case is a namespace and a history of client calls of all kinds on
few names, text or bytes, so that kinds meet on one name; non-trivial when two
kinds of call use one name, or a counter is called twice."""
ASSUMPTIONS = [
    "Numbers are written with the 12 digits Python 2 gives them.",
    "Names and items without the separators of the protocol; a name beyond "
    "ASCII is either text or UTF-8 bytes throughout.",
]


def as_text(value):
    return {"u": value}


def strategy(tier):
    size = 20 if tier == "quick" else 60
    names = st.one_of(
        st.sampled_from(["a", "b", "a", "x y/z", "c.d", "ns.a", "ns",
                         "some.where.A"]),
        st.text(alphabet="ab.", min_size=1, max_size=3))
    exotic = st.sampled_from(["\xe9t\xe9", "na\xefve.\xdf", "a\xff"])
    report = st.tuples(
        st.just("report"), names, calls.values,
        st.sampled_from(["c", "g", "xx", "sli"])).map(list)
    report_extra = st.tuples(
        st.just("report"), names, calls.values,
        st.sampled_from(["c", "g", "xx", "sli"]), calls.values).map(list)
    step = st.tuples(st.just("t"), st.integers(0, 4000).map(
        lambda n: n / 8.0)).map(list)

    def build(api, namespace, style, connection, ops):
        case = {"api": api, "ops": ops}
        if namespace != "absent":
            case["namespace"] = namespace
        if connection:
            case["connection"] = "none"
        if style != "bytes":
            # Text: unicode objects on the other side.
            case["text"] = True
        return case

    def ops(exotic_names):
        pool = st.one_of(names, names, exotic) if exotic_names else names
        return st.lists(st.one_of(
            calls.call(pool, suffixes=False),
            calls.call(pool, suffixes=False),
            report, report_extra, step), min_size=1, max_size=size)
    return st.builds(
        build, st.sampled_from(["basic", "extended"]),
        st.sampled_from(["absent", None, "", "ns", "some.where"]),
        st.sampled_from(["bytes", "text"]),
        st.sampled_from([False] * 9 + [True]),
        st.booleans().flatmap(ops)).map(encode)


def encode(case):
    """Names become text objects, or are UTF-8 bytes."""
    def name(value):
        if case.get("text"):
            return {"u": value}
        return value.encode("utf-8").decode("latin-1")

    def op(o):
        if len(o) > 1 and o[0] != "t":
            o = [o[0], name(o[1])] + o[2:]
        if o[0] == "distinct" and isinstance(o[2], str):
            o = o[:2] + [name(o[2]) if case.get("text") else o[2]]
        return o
    return dict(case, ops=[op(o) for o in case["ops"]])


def plain(value):
    if isinstance(value, dict) and "u" in value:
        return value["u"].encode("utf-8").decode("latin-1")
    return value


def check(case, obs):
    meaning = calls.Meaning(case)
    for op, step in zip(case["ops"], obs["steps"]):
        ensure(step["exc"] is None, "%r raised %r", op, step["exc"])
        expected = meaning.of([plain(a) for a in op])
        if case.get("connection") == "none":
            ensure(not step["sent"], "sent without a connection")
            continue
        ensure(len(step["sent"]) == len(expected), "%r sent %r, expected %r",
               op, step["sent"], expected)
        ensure(step["bytes"], "%r did not send bytes", op)
        for line, (key, kind, value, extra) in zip(step["sent"], expected):
            ensure(says(line, key, kind, value, extra),
                   "%r sent %r, which does not say %r", op, line,
                   (key, kind, value, extra))


def says(line, key, kind, value, extra):
    if ":" not in line:
        return False
    name, data = line.split(":", 1)
    fields = data.split("|")
    wanted = [value, kind] + ([extra] if extra is not None else [])
    if name != key or len(fields) != len(wanted):
        return False
    for text, want in zip(fields, wanted):
        if isinstance(want, str):
            if text != want:
                return False
        elif kind == "pd":
            if text != str(want):
                return False
        else:
            number = model.number(text)
            if number is None or not model.close(number, want, 1e-11, 1e-12):
                return False
    return True


def classify(case, obs):
    seen = {}
    labels = {case["api"], "text" if case.get("text") else "bytes"}
    nontrivial = False
    for op in case["ops"]:
        if len(op) > 1 and op[0] != "t":
            kinds = seen.setdefault(str(op[1]), [])
            if op[0] in ("increment", "decrement", "clear") and any(
                    k in ("increment", "decrement") for k in kinds):
                nontrivial = True
                labels.add("counter again")
            if any(k != op[0] for k in kinds):
                nontrivial = True
                labels.add("name shared")
            kinds.append(op[0])
    return nontrivial, sorted(labels)


PARTS = [Part("calls", "client", strategy, check, classify,
              quick=3000, thorough=60000)]
