"""C27: the command line overrides the configuration, which the defaults."""
import hypothesis.strategies as st

from core import Part, ensure

MODULES = ["scn_options"]
RULE = """A case is a command line (long, short and abbreviated options) and a
configuration file with sections for the daemon, carbon caches and plugins;
non-trivial when the file sets an option the command line sets too, and one it
does not. The second part does this for generated sets of options, of which
some take --config or -c for themselves, which has to be refused; the command
line comes as an argument or, as for a program that is run, from sys.argv."""
ASSUMPTIONS = [
    "An option is given at most once in each section of the file.",
    "Sections of carbon caches only hold options of carbon caches.",
]

# name, short, default, kind
TABLE = [
    ("carbon-cache-host", "h", [], "list"),
    ("carbon-cache-port", "p", [], "ports"),
    ("carbon-cache-name", "n", [], "list"),
    ("listen-port", "l", 8125, "int"),
    ("flush-interval", "i", 60000, "int"),
    ("prefix", "x", None, "str"),
    ("instance-name", "N", None, "str"),
    ("report", "r", None, "str"),
    ("monitor-message", "m", "txstatsd ping", "str"),
    ("monitor-response", "o", "txstatsd pong", "str"),
    ("statsd-compliance", "s", 1, "int"),
    ("dump-mode", "d", 0, "int"),
    ("routing", "g", "", "str"),
    ("listen-tcp-port", "t", None, "int"),
    ("max-queue-size", "Q", 20000, "int"),
    ("max-datapoints-per-message", "M", 1000, "int"),
    ("http-port", "P", None, "int"),
]
KINDS = dict((t[0], t[3]) for t in TABLE)

texts = st.one_of(
    st.sampled_from(["a", "web1.dc", "127.0.0.1", "localhost", "x y", "-1",
                     "process,io", "any => drop", "a=b", "a:b", "100% sure",
                     "%(here)s", "%%", "%", "$HOME", "~/x", "\"q\"", "a#b",
                     "True", "none", "0", "UPPER"]),
    st.text(alphabet="abcXYZ.09 =:-", min_size=1, max_size=10).map(
        lambda t: t.strip()).filter(bool))
# Rules take a line each.
lines = st.lists(st.sampled_from(
    ["any => drop", "path_like a* => rewrite a b", "* => red IF above 5", "x",
     "any => redirect_udp 127.0.0.1 8125", "0.5 % x", "[a]", "a = b"]),
    min_size=1, max_size=3).flatmap(lambda rows: st.sampled_from(
        ["\n".join(rows), "\n" + "\n".join(rows)]))
whole = st.one_of(st.integers(0, 65535), st.integers(1, 9)).map(str)


def value_for(kind):
    if kind in ("int", "float"):
        return whole
    if kind == "ports":
        return st.integers(1, 65535).map(str)
    if kind == "str":
        return st.one_of(texts, texts, texts, lines)
    return texts


def spell(name, short, form, value, names):
    """How an option is written on a command line."""
    if form == "short":
        return ["-" + short, value]
    if form == "glued":
        return ["-" + short + value]
    if form == "long":
        return ["--" + name, value]
    if form == "abbreviated" and not name.startswith("carbon-cache"):
        # (Twisted finds those twice, so it takes them in full only.)
        for length in range(1, len(name)):
            if [n for n in names if n.startswith(name[:length])] == [name]:
                return ["--%s=%s" % (name[:length], value)]
    return ["--%s=%s" % (name, value)]


forms = st.sampled_from(["short", "glued", "long", "equals", "abbreviated"])


def lines_of(pairs, draw_sep):
    return ["%s%s%s" % (name, draw_sep[i % len(draw_sep)],
                        value.replace("\n", "\n    "))
            for i, (name, value) in enumerate(pairs)]


@st.composite
def common(draw, table, section, carbon):
    names = [t[0] for t in table] + ["config", "help", "version"]
    given = draw(st.lists(st.sampled_from(table), max_size=5))
    if carbon and draw(st.booleans()):
        given = [t for t in given if not t[0].startswith("carbon")]
    argv, line = [], []
    for name, short, default, kind in given:
        value = draw(value_for(kind))
        if default not in (None, [], "") and draw(st.sampled_from(
                [True, False, False])):
            # What it would be anyway.
            value = str(default)
        form = draw(forms)
        argv.append([name, value])
        line.append(spell(name, short, form, value, names))
    case = {"given": argv, "config": None, "sections": []}
    if draw(st.sampled_from([True, True, True, False])):
        wanted = draw(st.lists(st.sampled_from(table), max_size=6,
                               unique_by=lambda t: t[0]))
        if given and draw(st.booleans()) and given[0] not in wanted:
            wanted.append(given[0])
        pairs = [[t[0], draw(value_for(t[3]) if t[2] in (None, [], "") else
                              st.one_of(value_for(t[3]), value_for(t[3]),
                                        st.just(str(t[2]))))]
                 for t in wanted]
        if draw(st.sampled_from([False, False, True])):
            pairs.insert(0, ["no-such-option", "1"])
        sections = [[section, pairs]]
        if carbon:
            for suffix in draw(st.lists(st.sampled_from(
                    ["-a", "-b", "-c", "", "-10", "-2"]), unique=True,
                    max_size=3)):
                own = draw(st.lists(st.sampled_from(table[:3]), min_size=1,
                                    max_size=3, unique_by=lambda t: t[0]))
                sections.append(["carbon-cache" + suffix, [
                    [t[0], draw(value_for(t[3]))] for t in own]])
        for name in draw(st.lists(st.sampled_from(
                ["plugin_a", "plugin_sli", "other", "plugins"]), unique=True,
                max_size=2)):
            sections.append([name, [
                [k, draw(st.one_of(texts, texts, lines))] for k in draw(st.lists(st.sampled_from(
                    ["k", "rules", "prefix", "listen-port"]), unique=True,
                    max_size=3))]])
        sections = draw(st.permutations(sections))
        seps = draw(st.lists(st.sampled_from([" = ", ": ", "=", ":"]),
                             min_size=1, max_size=3))
        text = []
        for name, pairs in sections:
            text.append("[%s]" % name)
            if draw(st.booleans()):
                text.append("# a comment")
            text.extend(lines_of(pairs, seps))
            if draw(st.booleans()):
                text.append("")
        case["config"] = "\n".join(text) + "\n"
        case["sections"] = [list(s) for s in sections]
        case["config_at"] = 0
        case["config_option"] = draw(st.sampled_from(
            ["-c", "--config", "--config="]))
        if draw(st.booleans()):
            # Behind a complete option.
            case["config_at"] = len(sum(line[:len(line) // 2], []))
    bad = draw(st.sampled_from([None] * 12 + ["line", "file"]))
    numbers = [t for t in table if t[3] == "int"]
    if bad and numbers:
        name = draw(st.sampled_from(numbers))[0]
        wrong = draw(st.sampled_from(["x", "1.5", "0x1", "", "1 2"]))
        if bad == "line":
            line.append(["--%s=%s" % (name, wrong)])
            case["bad"] = "the command line"
        elif case["config"] is not None and name not in [
                n for n, _ in argv] and not any(
                n == name for s, pairs in case["sections"]
                for n, _ in pairs if s == section):
            case["config"] = case["config"].replace(
                "[%s]\n" % section, "[%s]\n%s = %s\n" % (
                    section, name, wrong))
            case["bad"] = "the file"
    if draw(st.sampled_from([False] * 14 + [True])):
        line.insert(draw(st.integers(0, len(line))), [draw(st.sampled_from(
            ["--no-such-option", "--no-such=1", "-Z"]))])
        case["bad"] = "an option there is not, on the command line"
        case["config_at"] = 0
    case["argv"] = sum(line, [])
    case["from_sys"] = draw(st.sampled_from([False, False, True]))
    return case


def strategy(tier):
    return common(TABLE, "statsd", True)


def convert(kind, value):
    if kind in ("int", "ports"):
        return int(value)
    if kind == "float":
        return float(value)
    return value


def expected(table, section, case):
    kinds = dict((t[0], t[3]) for t in table)
    result = dict((t[0], t[2]) for t in table)
    sections = dict((name, pairs) for name, pairs in case["sections"])
    listed = dict((t[0], []) for t in table if isinstance(t[2], list))
    sources = [sections.get(section, [])]
    if listed:
        sources.extend(pairs for name, pairs in sorted(sections.items())
                       if name.startswith("carbon-cache"))
    on_line = set(name for name, _ in case["given"])
    for pairs in sources:
        for name, value in pairs:
            if name not in kinds or name in on_line:
                continue
            if name in listed:
                listed[name].append(convert(kinds[name], value))
            else:
                result[name] = convert(kinds[name], value)
    for name, value in case["given"]:
        if name in listed:
            listed[name].append(convert(kinds[name], value))
        else:
            result[name] = convert(kinds[name], value)
    result.update(listed)
    for name, pairs in sections.items():
        if name.startswith("plugin_"):
            result[name] = dict(pairs)
    return result


def check_against(table, section, case, obs):
    if case.get("bad"):
        ensure(obs["exc"] is not None, "what is bad in %s was taken",
               case["bad"])
        ensure(obs["exc"]["type"] in ("UsageError", "ValueError"),
               "what is bad in %s raised %r", case["bad"], obs["exc"])
        return
    ensure(obs["exc"] is None, "parsing raised %r", obs["exc"])
    want = expected(table, section, case)
    got = obs["options"]
    for name in sorted(set(want) | set(got)):
        ensure(name in got, "option %s is missing", name)
        if name not in want:
            raise_unknown(name, got)
        ensure(got[name] == want[name] and
               isinstance(got[name], bool) == isinstance(want[name], bool) and
               isinstance(got[name], str) == isinstance(want[name], str),
               "option %s is %r, expected %r", name, got[name], want[name])


def raise_unknown(name, got):
    ensure(False, "there is an option %s (%r) nobody gave", name, got[name])


def check(case, obs):
    check_against(TABLE, "statsd", case, obs)


def classify(case, obs):
    on_line = set(name for name, _ in case["given"])
    in_file = set(name for section, pairs in case["sections"]
                  for name, _ in pairs if not section.startswith("plugin"))
    labels = set()
    if case.get("bad"):
        labels.add("bad: " + case["bad"])
    if case.get("reserved"):
        labels.add("reserved option")
    for section, _ in case["sections"]:
        labels.add("section " + section.split("_")[0].rstrip("-abc0123"))
    if on_line & in_file:
        labels.add("both")
    return bool(on_line & in_file) and bool(in_file - on_line), sorted(labels)


# -- Generated sets of options ----------------------------------------------

@st.composite
def glue_strategy(draw, tier="quick"):
    names = draw(st.lists(st.sampled_from(
        ["alpha", "beta", "beta-one", "beta-two", "gamma", "delta-x", "e",
         "e-port", "ge"]),
        min_size=1, max_size=6, unique=True))
    table = []
    for index, name in enumerate(names):
        kind = draw(st.sampled_from(["int", "str", "float", None]))
        default = draw(st.sampled_from([None, "7", "x"])) \
            if kind in (None, "str") else draw(st.sampled_from([None, 7]))
        table.append((name, "klmnoq"[index], default, kind))
    split = draw(st.integers(0, len(table)))
    section = draw(st.sampled_from(["statsd", "daemon", "my section"]))
    case = draw(common(table, section, False))
    case["base"] = [list(t) for t in table[:split]]
    case["derived"] = [list(t) for t in table[split:]]
    case["section"] = section
    if draw(st.sampled_from([False] * 9 + [True])):
        # A program may not have an option of its own in --config's place.
        row = draw(st.sampled_from([
            ["config", "z", None, "str"], ["config", "c", None, None],
            ["other", "c", None, "str"], ["zeta", "c", 7, "int"]]))
        rows = case[draw(st.sampled_from(["base", "derived"]))]
        rows.insert(draw(st.integers(0, len(rows))), row)
        case["reserved"] = row
    return case


def glue_check(case, obs):
    if case.get("reserved"):
        ensure(obs["exc"] is not None and
               obs["exc"]["type"] == "ValueError" and
               not obs.get("made"),
               "a program with the option %r of its own was not refused: %r",
               case["reserved"][:2], obs)
        return
    check_against([tuple(t) for t in case["base"] + case["derived"]],
                  case["section"], case, obs)


PARTS = [
    Part("daemon", "daemon_options", strategy, check, classify,
         quick=1800, thorough=30000),
    Part("glue", "glue_options", lambda tier: glue_strategy(tier),
         glue_check, classify, quick=700, thorough=10000),
]
