"""Strategies shared by the properties."""
import hypothesis.strategies as st

WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
RAW = WORD + " \t/:|@%$#!,;\"'\\()[]{}=+*?<>~^&`\n\r\x00\x1c\x7f\x85\xa0\xe9\xff"

# Keys as they come out of normalisation: graphite-safe and not empty.
plain_keys = st.one_of(
    st.sampled_from(["a", "b", "gorets", "a.b", "a-b", "x_y", "web1.req.time",
                     "A", "0", "a.b.c.d", "-", "_", "statsd.numStats"]),
    st.text(alphabet=WORD, min_size=1, max_size=12),
    st.sampled_from([33, 64, 65, 128, 129, 256, 1025]).map(
        lambda n: ("long.key_" * n)[:n - 1] + "-"))
few_keys = st.one_of([st.sampled_from(["a", "b", "c.d", "e-f"])] * 6 + [
    # (Beginning with the prefixes that are used.)
    st.sampled_from(["pfx.A", "stats.a", "a.b.x"])])

# Keys as a client might send them (no ":" or "|", these are the syntax).
raw_key = st.text(
    alphabet=[c for c in RAW if c not in ":|"], min_size=1, max_size=14
).filter(lambda k: any(c in WORD for c in k))
raw_keys = st.one_of(raw_key, raw_key, raw_key, st.builds(
    lambda start, n, end: start + "a b/c.d" * n + end,
    raw_key, st.sampled_from([5, 10, 20, 40, 150]), raw_key))

ints = st.one_of(st.integers(0, 20), st.integers(-1000, 1000),
                 st.integers(-10 ** 12, 10 ** 12))
floats = st.one_of(
    st.integers(-4000, 4000).map(lambda n: n / 8.0),
    st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False),
    st.floats(-1e15, 1e15, allow_nan=False, allow_infinity=False))
numbers = st.one_of(ints, floats)
wild = st.one_of(
    numbers, st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, 5e-324, 1.7e308, -1.7e308, 1e300, 1e-300]))


def spell(value):
    """Ways to write a number that the server reads as that number."""
    text = repr(value)
    forms = [text]
    if isinstance(value, int):
        forms.append("%d.0" % value)
        if value >= 0:
            forms.append("+%d" % value)
            forms.append("0%d" % value)
    return st.sampled_from(forms)


number_texts = numbers.flatmap(spell)

rates = st.one_of(
    st.sampled_from(["0.1", "0.5", "1", "0.25", "1.0", ".5", "0.01", "2",
                     "1e-05", "1e-3", "5E-2", "0.3333333333"]),
    st.floats(1e-6, 1.0, allow_nan=False).map(repr))

junk_values = st.one_of(
    st.sampled_from(["", " ", "nan", "inf", "-inf", "Infinity", "1e999", "abc",
                     "1,5", "0x10", "1_0", "--1", "1 2", "error", "None",
                     "1e", "1L", "Error", "ERROR", " error", "errors", "\xa01", "\x1c1", "1:2", "1.2.3"]),
    st.text(alphabet=RAW, max_size=6))

types = st.sampled_from(["c", "ms", "g", "m", "sli", "pd"])

malformed = st.one_of(
    st.text(alphabet=RAW, max_size=24),
    st.text(alphabet=st.characters(max_codepoint=255), max_size=16),
    st.sampled_from(["", ":", "|", ":|", "a", "a:1", "a:1|", "a:|c", "a|c:1",
                     "a:1|x", "a:1|C", "a:1|c|", "a:1|c|0.1", "a:1|c|@",
                     "a:1|c|@0", "a:1|c|@0.0", "a:1|c|@abc", "a:1|c|@1.2.3",
                     "a:1|c|@.", "a:1|c|@-1", "a:1|c|@0.1|z", "a:1|ms|1|2",
                     "a:1|g|", "a:1||", "a:|", "a::1|c", "a:1:2|g",
                     "a:1:2|m", "a:1|c|@1e-5", "a:1|c|@1e", "a:1|c|@e5"]),
    st.builds("{0}:{1}|{2}".format, plain_keys, junk_values, types),
    st.builds("{0}:{1}|{2}|{3}".format, plain_keys, number_texts, types,
              junk_values),
    st.builds("{0}:{1}|{2}".format, plain_keys, number_texts,
              st.text(alphabet=RAW, max_size=3)),
    st.builds("{0}:{1}|c|@{2}".format, plain_keys, number_texts, junk_values),
    st.builds("{0}.s:{1}|sli".format, plain_keys, st.sampled_from(
        ["Error", "ERROR", "errors", "erro", "error ", " error", "fail"])),
    # Types that look like those there are.
    st.builds("{0}:{1}|{2}{3}{4}".format, plain_keys, number_texts,
              st.sampled_from(["", " ", "\t", "c", "\n"]), types,
              st.sampled_from(["", "", "s", "x", " |", "1"])),
    st.builds("{0}:{1}|{2}".format, plain_keys, number_texts, st.sampled_from(
        ["C", "Ms", "MS", "mS", "G", "M", "SLI", "Sli", "PD", "Pd", "s",
         "h"])),
    st.lists(st.sampled_from(["a", "1", ":", "|", "c", "ms", "@", "0.5", "g",
                              " ", "\n", "sli", "pd"]),
             max_size=9).map("".join),
)


def message(keys, kinds=("c", "ms", "g", "m", "sli", "pd"),
            values=number_texts, rate=rates):
    """Well-formed messages."""
    options = []
    for kind in kinds:
        if kind == "c":
            options.append(st.builds("{0}:{1}|c".format, keys, values))
            options.append(st.builds("{0}:{1}|c|@{2}".format, keys, values,
                                     rate))
        elif kind == "sli":
            options.append(st.builds("{0}.s:{1}|sli".format, keys, values))
            options.append(st.builds("{0}.s:{1}|sli|{2}".format, keys, values,
                                     values))
            options.append(st.builds("{0}.s:error|sli".format, keys))
        elif kind == "pd":
            options.append(st.builds(
                "{0}.p:{1}|pd".format, keys,
                st.text(alphabet=[c for c in RAW if c not in "|"],
                        max_size=6)))
        else:
            options.append(st.builds(
                ("{0}:{1}|%s" % kind).format, keys, values))
    return st.one_of(options)


blanks = st.one_of(st.just(""), st.text(alphabet=" \t\r\n\x0b\x0c",
                                        max_size=3))


def padded(messages):
    """Messages with blanks around them."""
    return st.builds("{0}{1}{2}".format, blanks, messages, blanks)


modes = st.sampled_from(["compliant", "config", "logging"])
intervals = st.sampled_from([10000, 60000, 1000, 5000, 1500, 250, 100, 90000])
percents = st.sampled_from([90, 95, 99, 50, 75, 10, 1, 0, 100])
steps = st.one_of(st.integers(0, 100),
                  st.sampled_from([0.25, 0.5, 0.999, 10.5, 61, 3601, 86401,
                                   700000]))
