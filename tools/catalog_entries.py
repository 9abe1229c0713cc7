"""The properties: what must hold, for which inputs, and where it is made."""
P = "txstatsd/server/processor.py"
CP = "txstatsd/server/configurableprocessor.py"
LP = "txstatsd/server/loggingprocessor.py"
RT = "txstatsd/server/router.py"
SV = "txstatsd/service.py"
M = "txstatsd/metrics/"


def define(prop):
    prop("C01", "Malformed messages are discarded, and nothing else is",
         """Whatever bytes arrive as a message, processing them never raises:
         a well-formed message (key:value|type, with a finite number where the
         type needs one, and for counters of the compliant mode an optional
         usable @rate) is accepted, anything else is reported once as malformed
         and discarded. A discarded message leaves no trace: every later flush
         publishes exactly what it would have published had the message never
         been sent (the counts of received messages aside).""",
         ["inputs", "histories"],
         """all byte strings as messages, at any point of any history of
         messages and flushes, for the compliant, configurable and logging
         processor, with and without plugins, alone or behind the router""",
         """the tests send about ten hand-written malformed lines to a fresh
         processor and look at the failure list; the space of byte strings and
         what a bad line does to state already collected is not sampled""",
         [P, CP, RT, M + "slimetric.py"],
         [("process: splitting and field count", P + ":BaseMessageProcessor"),
          ("numeric conversion and rate parsing", P + ":process_*_metric"),
          ("plugin parse errors", P + ":process_plugin_metric")],
         ["discard callback", "flush output"],
         "grammar-based generation, reference parser, metamorphic pair of runs",
         """Each case runs the same history twice, with and without the
         messages that were discarded, and compares all flushes; verdicts are
         compared with an independent parser. Search, not proof.""")

    prop("C02", "Keys are normalised for graphite; equal keys are one series",
         """The series a message is published under is named after its key with
         every run of whitespace replaced by one underscore, every run of
         slashes by one dash, and every character that is not an ASCII letter,
         digit, underscore, dash or dot removed. Keys equal after that are one
         series holding the data of all of them, and no other character ever
         reaches a published name.""",
         ["inputs", "histories"],
         """all keys over all byte values, singly and in histories where
         several spellings of one key meet, for every metric type and mode""",
         """five fixed keys are tested one at a time, none in combination with
         another spelling of itself, and not for each type or mode""",
         [P], [("key substitution", P + ":normalize_key"),
               ("applied before dispatch", P + ":BaseMessageProcessor.process")],
         ["names in the flush output"],
         "generated raw keys against an independent normaliser and model",
         "Whole flushes are compared with a reference model by name and value.")

    prop("C03", "Compliant counters lose and invent nothing",
         """In the compliant mode every flush publishes, for every counter ever
         received, the sum of value/rate over exactly the messages accepted
         since the previous flush, and that sum divided by the flush interval
         in seconds; counters without new messages publish zero. Summed over
         all flushes nothing is lost or counted twice.""",
         ["inputs", "histories", "configurations"],
         """all histories of counter messages, sampled or not, of any finite
         value, and flushes with any interval from a millisecond up""",
         """the tests flush one or two counters once, with an interval of ten
         seconds; no test spans several intervals with sampled messages""",
         [P], [("accumulation with rate", P + ":compose_counter_metric"),
               ("report and reset", P + ":flush_counter_metrics"),
               ("interval in seconds", P + ":flush")],
         ["stats.<key> and stats_counts.<key> in the flush output"],
         "model-based histories against a reference counter",
         "Values are compared within 1e-9 of the absolute sum.",
         [("counter totals", "sum since the last flush, per key", P)])

    prop("C04", "Compliant timers publish the statistics of their interval",
         """In the compliant mode a flush publishes, for every timer that got
         timings since the last one and for no other, their count, lowest and
         highest value, and the mean and highest value of those that remain
         when the configured percentage threshold has cut off the slowest (at
         least one always remains). Each timing counts in exactly one
         flush.""",
         ["inputs", "histories", "configurations"],
         """all multisets of timings in any order of arrival, every percentile
         threshold from 0 to 100, any number of intervals and keys""",
         """two fixed lists of timings at 90 and 50 percent are tested, in one
         flush each; small counts with low thresholds and repeated intervals
         are not""",
         [P], [("threshold and mean", P + ":flush_timer_metrics")],
         ["stats.timers.* in the flush output"],
         "model-based histories against reference statistics",
         """A cut exactly halfway between two counts may round either way.""")

    prop("C05", "A gauge is its latest value, once in every flush",
         """Every flush publishes each gauge ever set exactly once, with the
         value of the last reading accepted before it, however many readings
         arrived in between or earlier, in every mode.""",
         ["inputs", "histories"],
         """all histories of gauge readings over several keys and any number
         of flushes, in the compliant, configurable and logging mode""",
         """the tests set one gauge once and flush once; repeated readings and
         repeated flushes are not tested in the compliant mode""",
         [P, CP, M + "gaugemetric.py"],
         [("latest value per key", P + ":compose_gauge_metric"),
          ("reporter", M + "gaugemetric.py:GaugeMetricReporter")],
         ["*.value in the flush output"],
         "model-based histories against a map of latest values",
         "Exact comparison of values and of the number of datapoints.")

    prop("C06", "Meters count every event once; the rate is since the last report",
         """The count a meter publishes is the sum of all marks since it was
         first seen, and its rate is the sum of the marks not reported before
         divided by the whole seconds since the previous report (or since it
         was first seen). When no whole second has passed it publishes nothing
         and keeps the marks for the next flush; the rate of events that only
         happen is never negative.""",
         ["inputs", "histories"],
         """all histories of marks, clock steps down to fractions of a second,
         and flushes, in every mode""",
         """the tests use whole-second clocks and at most two reports; a meter
         first seen within the second of a flush is not tested""",
         [P, CP, M + "metermetric.py"],
         [("accumulate and report", M + "metermetric.py:MeterMetricReporter")],
         ["*.count and *.rate in the flush output"],
         "model-based histories against a reference meter",
         "Values are compared within the published six decimals.")

    prop("C07", "Messages arriving during a flush are not lost or counted twice",
         """A flush publishes bit by bit while messages keep arriving, and the
         next flush may begin before it ends: whatever the interleaving, every
         flush runs to its end, publishes every key known when it began exactly
         once, and over all flushes together every counter increment, timing,
         meter mark, service level reading and received-message count appears
         exactly once, while gauges show a value they had during the
         flush.""",
         ["schedules", "histories"],
         """all interleavings of message arrivals, clock steps and flushes
         between the single datapoints of one or more flushes under way, for
         every metric type and mode""",
         """every test drains a flush at once; no test delivers a message
         between two datapoints or lets two flushes overlap""",
         [P, CP, M + "metermetric.py", SV],
         [("snapshot of keys, state taken when published", P + ":flush_*"),
          ("summary counters swapped out", P + ":flush_metrics_summary"),
          ("cooperative publishing", SV + ":StatsDService.flushProcessor")],
         ["output of each flush"],
         "generated schedules, conservation invariants over the history",
         """The harness owns the schedule: flushes under way take turns as in
         the service's cooperator. Thread-level interleaving does not exist
         here (single reactor thread).""")

    prop("C08", "Whatever was accepted, later flushes complete",
         """After any history of accepted messages, with values up to the
         limits of floating point, extreme sample rates, any interval and
         percentile threshold, and a clock that may stand still or jump back,
         every flush completes without an error, still publishing every
         counter, gauge and configurable timer seen so far.""",
         ["inputs", "histories", "configurations"],
         """all histories mixing extreme, non-finite and ordinary values with
         flushes and clock jumps, in every mode""",
         """no test sends an extreme or non-finite value, and no test flushes
         with one in the state""",
         [P, CP, M + "countermetric.py", M + "timermetric.py",
          M + "histogrammetric.py", M + "metermetric.py"],
         [("finite values only", P + ":finite_float"),
          ("reporters", M)],
         ["flush output, list of names"],
         "adversarial value fuzzing with a no-failure and completeness oracle",
         "Only completion and completeness are judged here, not the values.")

    prop("C09", "The daemon's own series count what it did",
         """Every flush publishes, once each and under the internal prefix: how
         many metrics it published in total and per category, how long each
         category took, and for each message type received since the previous
         flush the number of messages and the time spent on them. These numbers
         equal what was actually received, published and spent.""",
         ["histories", "inputs"],
         """all histories of messages of any mix of types and any number of
         flushes, in every mode, with plugins whose work takes known time""",
         """one test checks a preset count for one type in one flush; totals
         over mixed traffic and over several flushes are not tested""",
         [P], [("per-category counting", P + ":flush"),
               ("per-type counting", P + ":process_message"),
               ("summary", P + ":flush_metrics_summary")],
         ["numStats, flush.* and receive.* in the flush output"],
         "model-based histories against reference self-metrics",
         """A discarded message of a known type may or may not count as
         received; durations are checked through a plugin with known cost.""")

    prop("C10", "Configurable counters and timers publish what they document",
         """In the configurable mode a counter publishes the last value received
         for it, cut to a whole number, in every flush. A timer publishes in
         every flush the minimum, maximum, mean, sample standard deviation and
         the 99 and 99.9 percentiles of the non-negative timings since the last
         flush (zeros when there were none), the number of timings ever
         received, and the timings per second since the last flush.""",
         ["inputs", "histories"],
         """all histories of counter readings and timings, from none to more
         than the sample size per interval, over any number of flushes""",
         """the tests flush one timer once with one or two values; the reset
         between intervals, many values and cumulative counts are not
         tested""",
         [CP, M + "countermetric.py", M + "timermetric.py",
          M + "histogrammetric.py", "txstatsd/stats/uniformsample.py"],
         [("timer reporter", M + "timermetric.py:TimerMetricReporter"),
          ("histogram", M + "histogrammetric.py"),
          ("counter reporter", M + "countermetric.py:CounterMetricReporter")],
         ["flush output of the configurable mode"],
         "model-based histories against reference statistics",
         """Beyond 1028 timings per interval the percentiles are only required
         to lie in the range of the timings.""")

    prop("C11", "Series are named by mode, prefix and key; processors are isolated",
         """Every datapoint of a flush carries the whole-second time at which
         the flush began and the name its mode, configured prefixes, metric
         type and key prescribe; the set of names published is exactly the one
         the received messages call for. Several processors in one process
         never see each other's data.""",
         ["configurations", "histories", "inputs"],
         """all prefixes and internal prefixes, keys, message histories and
         flushes, and all interleavings of histories on several processors""",
         """the tests look at one metric type at a time under one or two fixed
         prefixes, and never run two processors side by side""",
         [P, CP, "twisted/plugins/sli_plugin.py",
          "twisted/plugins/distinct_plugin.py", M],
         [("prefixes", P + ":MessageProcessor.__init__, " + CP),
          ("reporters' names", M)],
         ["flush output"],
         "model-based histories; whole flushes compared with the reference",
         "Prefixes ending in a dot are left out.")

    CL = "txstatsd/client.py"
    HS = "txstatsd/hashing.py"
    PT = "txstatsd/protocol.py"
    SP = "txstatsd/server/protocol.py"
    RP = "txstatsd/report.py"
    PR = "txstatsd/process.py"
    ST = "txstatsd/stats/"

    prop("C12", "Routing rules form a pipeline each message passes in order",
         """Each rule whose condition (any, not, metric_type, path_like) holds
         for a message applies its target to it: drop ends it, rewrite changes
         its key, set_metric_type its type, either keeping the original too
         with dup; rules that do not match leave it alone, and each rule sees
         what the rules before it produced. The processor behind the router
         gets exactly what comes out, each message under its new key and type,
         in order; rules that cannot be read are refused when the router is
         built.""",
         ["configurations", "inputs"],
         """all lists of rules over all conditions and targets, nested
         negations and blanks included, and all messages""",
         """each test has one or two rules and one or two messages; chains of
         rules that copy, change and drop are not tested, nor what a real
         processor publishes behind them""",
         [RT], [("rules", RT + ":Router.build_rules"),
                ("pipeline", RT + ":Router.process_message")],
         ["messages handed to the processor", "flush output"],
         "differential testing against a reference interpreter of rules",
         """Rewrite patterns that match the empty text are left out.""")

    prop("C13", "Redirects send a copy on, in order, and keep the message",
         """A message that a redirect rule matches is sent to its server as
         one UDP datagram or one CRLF-ended TCP line, in the order of arrival,
         and goes on through the rules unchanged. Over UDP it waits for the
         name of the server to be resolved; over TCP it is sent while the
         connection is up and not paused. Connections are made when the service
         starts and again, within seconds, when lost; after it stops none is
         open or being made.""",
         ["histories", "fault_sequences", "configurations"],
         """all rule lists with redirects, and all histories of messages,
         connections accepted, refused, lost, paused, resumed, names resolved
         and time passing""",
         """tests send one message over one healthy connection; losing,
         pausing and resuming, several redirects and queues before the name is
         known are not tested""",
         [RT, PT],
         [("redirect targets", RT + ":Router.build_target_redirect_tcp"),
          ("pausing", RT + ":TCPRedirectProtocol"),
          ("UDP queue", PT + ":TwistedStatsDClient")],
         ["bytes on the simulated connections", "datagrams"],
         "stateful testing on a simulated network, with injected faults",
         """Messages that meet a TCP redirect that is down are not sent at all
         (as the code does). Two TCP rules with one server are judged by their
         routing only.""")

    prop("C14", "Every datagram and every line is processed once, in order",
         """Each UDP datagram and each CRLF-ended TCP line, however the stream
         is cut into chunks, is handed to the processor exactly once,
         unchanged, in order of arrival, over any number of connections, which
         stay open. The monitor message, and nothing else, is answered with
         the monitor response to whoever sent it and not processed.""",
         ["inputs", "schedules"],
         """all mixes of datagrams and TCP connections, contents and
         cuttings of streams, and all monitor messages and responses""",
         """tests send one datagram and one line; several lines in a chunk,
         lines cut anywhere and interleaved connections are not tested""",
         [SP], [("datagrams", SP + ":StatsDServerProtocol"),
                ("lines", SP + ":StatsDTCPServerProtocol")],
         ["messages handed to the processor", "answers on the wire"],
         "stateful testing with arbitrarily cut streams against a line model",
         """Lines beyond LineReceiver's 16384 bytes are left out.""")

    prop("C15", "Every client call sends one line that says what was called",
         """Each call of a client (increment, decrement, timing, gauge, meter,
         distinct, sli and its decorators, report, and metrics of plugins) sends
         exactly one message of the documented form: the namespace and name,
         the value (timings in milliseconds) and the type of that call,
         whatever other kinds of calls used the name before. Counters of the
         extended client send their running total.""",
         ["histories", "inputs"],
         """all histories of calls of all kinds on shared and separate names,
         text or bytes, with and without namespace""",
         """tests make one call per kind on names of their own; names shared by
         kinds, histories and names beyond ASCII are not tested""",
         [M + "metrics.py", M + "extendedmetrics.py", M + "metric.py",
          M + "slimetric.py", M + "distinctmetric.py", M + "gaugemetric.py",
          M + "metermetric.py", M + "timermetric.py", M + "countermetric.py"],
         [("calls", M + "metrics.py:Metrics"),
          ("running totals", M + "countermetric.py:CounterMetric")],
         ["messages written to the connection"],
         "model-based histories of client calls",
         "Sampled calls are in C17.")

    prop("C16", "What the client is told is what the server publishes",
         """Told through the client and carried over UDP or in process, counters,
         timings, gauges, meters, service levels and distinct items come out of
         the server's flushes as the values and series the calls describe: what
         one side writes, the other side reads.""",
         ["histories", "inputs", "configurations"],
         """all histories of calls, flushes and waits, both pairs of client and
         server modes, with the name of the server resolved early or late""",
         """the tests of the two sides share no message: each is checked
         against literal texts""",
         [M + "metrics.py", M + "extendedmetrics.py", CL, P, CP],
         [("writing", M), ("carrying", CL), ("reading", P)],
         ["flush output after client calls"],
         "end-to-end model-based testing (client to flush)",
         """The simulated network loses and reorders nothing.""")

    prop("C17", "Sampling sends the given fraction of calls, marked @rate",
         """With a sample rate below one a call is sent with exactly that
         chance, independently of other calls, and its message carries the
         rate; with a rate of one or more every call is sent, without one.""",
         ["inputs", "histories"],
         """all rates, kinds of calls, and numbers of calls""",
         """the one test mocks the random generator""",
         [M + "metric.py"], [("sampling", M + "metric.py:Metric.send")],
         ["messages written to the connection"],
         "statistical testing of generated runs, seeded",
         """The number sent may be off by six standard deviations.""")

    prop("C18", "Names hash to servers consistently; each message to one server",
         """Every name goes to the one of the current servers that comes first
         after the name's MD5 place on the ring of replicas, for ever and in
         every process, whatever the order in which servers were added or
         removed; adding or removing a server moves names only to or from it.
         Listing the servers of a name gives each exactly once, beginning with
         that one, and the hashing client sends every message to exactly the
         server of its name.""",
         ["histories", "inputs", "configurations"],
         """all sets of servers, numbers of replicas, histories of adding and
         removing, and names of any bytes""",
         """tests look up a few names on one ring of three fixed nodes""",
         [HS, CL], [("ring", HS + ":ConsistentHashRing"),
                    ("client", CL + ":ConsistentHashingClient")],
         ["get_node, get_nodes", "writes of the servers' clients"],
         "stateful testing against an independently computed ring",
         "Nodes that share a 32-bit place may come in either order there.")

    prop("C19", "The UDP client queues until ready, then sends each in order",
         """Messages written before the server's name is resolved and the port
         is open wait in order, up to a thousand (later ones are dropped), and
         go out once it is, before later ones; after that each is sent at once,
         exactly once, unchanged, to the resolved address. A write's callback
         is called once with the number of bytes sent, connect and disconnect
         callbacks once per event, and a name that cannot be resolved is
         reported once.""",
         ["histories", "fault_sequences", "schedules"],
         """all histories of writes, lookups succeeding or failing, the port
         opening and closing, and sends failing""",
         """tests cover one order of resolve, connect and write; the queue's
         limit, order and reconnecting are not tested""",
         [PT], [("queue", PT + ":DataQueue"),
                    ("client", PT + ":TwistedStatsDClient"),
                    ("port", PT + ":StatsDClientProtocol")],
         ["datagrams", "callbacks"],
         "stateful testing on a simulated network, with injected faults",
         "The reactor turns before the port closes.")

    prop("C20", "The plain UDP client sends or drops each message, and never raises",
         """Once made, the plain socket client sends each message it is given
         while connected as one datagram, unchanged, to its address, on a
         non-blocking socket, and drops it when sending fails or it is not
         connected or has no address; no write ever raises. An address that
         cannot be resolved is refused when the client is made.""",
         ["histories", "fault_sequences"],
         """all histories of writes, connects and disconnects, with every kind
         of failing lookup and send""",
         """tests cover one write with one patched socket""",
         [CL], [("client", CL + ":UdpStatsDClient")],
         ["calls on the simulated socket"],
         "stateful testing with injected socket failures", "")

    prop("C21", "Service levels count readings, errors and conditions per interval",
         """Every flush publishes, for each service level ever received, the
         number of readings and of errors since the last flush and, for each
         label of the rules whose pattern matches its full name, how many
         readings met the label's condition (above or below a limit, itself
         growing with the size given, or between two). Configuring rules
         makes each line of them count; a line that cannot be read is
         refused.""",
         ["histories", "configurations", "inputs"],
         """all sets of rules and histories of readings with and without size,
         errors, and flushes, in every mode""",
         """tests check each condition with two values and one flush of one
         series""",
         ["twisted/plugins/sli_plugin.py", M + "slimetric.py"],
         [("conditions", M + "slimetric.py"),
          ("rules", "twisted/plugins/sli_plugin.py:SLIMetricFactory.configure"),
          ("flush", M + "slimetric.py:SLIMetricReporter.flush")],
         ["flush output", "configure accepting or refusing"],
         "model-based histories; grammar-based configurations",
         """When two matching patterns define one label either may win.""")

    prop("C22", "Distinct items are counted in each of four time windows",
         """Every flush publishes for each distinct counter estimates of how
         many different items came ever and within the last minute, hour and
         day: each within the accuracy of the sketch of the true number, at most
         one when no item came, never counting an item twice for
         coming twice, and no smaller for a longer window.""",
         ["histories", "inputs"],
         """all histories of items new and repeated, with waits from seconds
         to days, and flushes""",
         """tests check the totals of two fixed streams, and one window with
         a patched clock""",
         ["twisted/plugins/distinct_plugin.py", M + "distinctmetric.py"],
         [("sketch", M + "distinctmetric.py:SlidingDistinctCounter"),
          ("windows", M + "distinctmetric.py:DistinctMetricReporter")],
         ["flush output"],
         "model-based histories with exact sets; metamorphic repeats",
         """An estimate may be off by a factor of 2.5.""")

    prop("C23", "A uniform sample holds values of the stream, equally likely",
         """After any stream since the last clear, the sample holds every value
         while they fit, and otherwise exactly as many as fit, none more often
         than it came; every value of the stream is equally likely to be
         held.""",
         ["histories", "inputs"],
         """all capacities and streams with clearing in between; odds over
         thousands of seeded runs per case""",
         """tests add 10 or 100 values once and look at the size and range""",
         [ST + "uniformsample.py"],
         [("reservoir", ST + "uniformsample.py:UniformSample.update")],
         ["get_values, size"],
         "invariants over generated histories; statistical bound on odds",
         """Odds are judged by a Chernoff bound of 1 in 10^10.""")

    prop("C24", "A decaying sample prefers newer values, exponentially",
         """The sample holds every value while they fit, and otherwise exactly
         as many as fit, none more often than it came; a value's chance to be
         held falls with its age in the documented exponential way, also
         across the regular rescaling, clearing and long idle times, and never
         fails.""",
         ["histories", "inputs", "schedules"],
         """all capacities, decay factors, streams with waits from
         milliseconds to days, and clearing""",
         """tests add 10 to 1000 values and look at the size and range; two
         look at one long idle period""",
         [ST + "exponentiallydecayingsample.py"],
         [("weights", ST + "exponentiallydecayingsample.py:"
           "ExponentiallyDecayingSample.update"),
          ("rescaling", ST + "exponentiallydecayingsample.py:"
           "ExponentiallyDecayingSample.rescale")],
         ["get_values, size"],
         "invariants over histories; comparison with a simulated reference",
         """A value must not outlive one e^45 times as heavy; shares are
         compared within six standard errors and half a percent.""")

    prop("C25", "A histogram's statistics describe the values it got",
         """After any stream since the last clear a histogram gives the exact
         count, minimum and maximum, the mean and sample standard deviation to
         rounding, percentiles interpolated between neighbouring values of its
         sample, and a binning (as many bins as Sturges' rule says, equally
         wide) that holds each sampled value once; zeros when there was
         nothing.""",
         ["inputs", "histories"],
         """all streams of numbers, equal, close together or far apart, over
         both samples and any size, with clearing and reading in between""",
         """tests use one stream of 1 to 10000 and one of equal values""",
         [M + "histogrammetric.py"],
         [("moments", M + "histogrammetric.py:update_variance"),
          ("percentiles", M + "histogrammetric.py:percentiles"),
          ("bins", M + "histogrammetric.py:histogram")],
         ["the histogram's readings"],
         "comparison with exact rational arithmetic",
         """A value within rounding of the edge of a bin may be in either.""")

    prop("C26", "Moving averages decay as load averages do",
         """A moving average starts at the first interval's rate and then moves
         by its factor towards the rate of every five seconds' ticks; the one,
         five and fifteen minute averages use the factors of the Unix load
         averages, and what is not ticked yet counts in the next tick only.""",
         ["histories", "inputs"],
         """all histories of updates and ticks, and all factors and
         intervals""",
         """tests follow one update of 3 through fifteen minutes""",
         [ST + "ewma.py"], [("average", ST + "ewma.py:Ewma.tick")],
         ["rate"], "comparison with the closed formula", "")

    prop("C27", "Command line over configuration file over defaults, per option",
         """Every option has the value the command line gives it (in its long
         or short spelling), else the one of the configuration file, else its
         default, converted to its type either way; carbon caches and plugin
         sections of the file arrive whole. A number that is none, an option
         there is not, and a program's own option in the place of --config
         are refused.""",
         ["configurations"],
         """all command lines and configuration files over all options, and
         generated sets of options""",
         """tests set one or two options either way""",
         [SV], [("merging", SV + ":OptionsGlue"),
                ("options", SV + ":StatsDOptions")],
         ["the parsed options"],
         "differential testing against a reference of precedence",
         "An option is given once per section.")

    prop("C28", "All that arrives is delivered to carbon, once per flush interval",
         """What the daemon receives over UDP and TCP reaches the configured
         carbon caches, flush by flush at the configured interval, as the
         datapoints its mode prescribes: each exactly once, each series always
         at one of the caches, whatever connections are refused, lost or
         paused meanwhile, and while new messages keep coming. Every configured
         cache is connected to; what waits for one that cannot be reached is
         at most max-queue-size datapoints. The ports, monitor message and
         pages are those configured, and after stopping nothing is sent and
         nothing listens.""",
         ["histories", "configurations", "fault_sequences", "schedules"],
         """all configurations of modes, prefixes, intervals and caches, and
         histories of traffic, time and carbon connections coming and
         going""",
         """tests build the service and look at its parts; one real flush is
         tested with a fake processor""",
         [SV, P, CP, RT, SP],
         [("wiring", SV + ":createService"),
          ("flushing", SV + ":StatsDService.flushProcessor")],
         ["pickled datapoints on the simulated carbon connections"],
         "whole-system model-based testing on a simulated reactor",
         """Carbon's own client runs as installed; what a lost connection took
         counts as delivered.""")

    prop("C29", "Reports keep coming at their interval, whatever fails",
         """Every scheduled function is called at its interval from the start
         of the service (or, when scheduled on a running one, from then on, the
         first time at once), its metrics reported under the instance's
         name once per call, late answers included; a function that fails is
         logged and called again, without effect on others. Stopping ends
         all calls, and starting again resumes them.""",
         ["histories", "fault_sequences", "schedules"],
         """all histories of scheduling, starting, stopping, time passing and
         functions answering, failing or answering late""",
         """tests schedule one function and look at one call""",
         [RP], [("schedule", RP + ":ReportingService.schedule"),
                ("calls", RP + ":ReportingService")],
         ["calls of functions and of the report function, with times"],
         "stateful testing on a simulated clock against a simulation",
         """Functions without a report function are not called again after a
         failure until the service starts anew.""")

    prop("C30", "The inspector reports how long the reactor kept a call waiting",
         """In each of its loops the inspector asks the reactor for one call
         and reports the delay until it was made; while the reactor is stuck it
         keeps reporting how long the oldest call has waited and logs where
         every other thread is, and is back to normal once it goes on.""",
         ["schedules", "histories"],
         """all histories of loops in which the reactor is prompt, late or
         stuck for any number of loops""",
         """tests look at one prompt and one stuck loop""",
         [RP, "txstatsd/process.py"],
         [("inspector", RP + ":ReactorInspector")],
         ["reported delays"],
         "stateful testing with simulated scheduling", "")

    prop("C31", "Readings of system and process are published as they are",
         """Memory, load and network figures in the layout of Linux' /proc, and
         figures of the process, its threads, connections and the reactor, are
         published completely, under their documented names and in their
         documented units, whatever their values and however many there
         are.""",
         ["inputs", "configurations"],
         """all figures, interfaces, processors, connection states, thread
         pools and presences or absences of entries""",
         """tests have one sample text or one set of figures each""",
         [PR], [("texts", PR + ":parse_meminfo, parse_loadavg, parse_netdev"),
                ("process", PR + ":ProcessReport"),
                ("reactor", PR + ":report_reactor_stats")],
         ["returned names and values"],
         "round-trip from generated figures", "psutil is a stand-in.")

    prop("C32", "The HTTP pages tell the truth about the processor",
         """The status page is an error exactly when the last flush and the
         processing of the messages it covered took more than 70 percent of the
         flush interval, and shows these times; the list shows the name of every
         metric received and no other; the page of a timer shows minimum,
         maximum and histogram of the timings since the last flush. Every other
         page is not found, and without a port nothing listens.""",
         ["histories", "inputs", "configurations"],
         """all histories of messages taking any time, flushes and requests,
         in every mode""",
         """tests ask with stand-ins for the processor that have fixed
         figures""",
         ["txstatsd/server/httpinfo.py", P, M + "timermetric.py"],
         [("pages", "txstatsd/server/httpinfo.py"),
          ("durations", P + ":MessageProcessor.flush_metrics_summary")],
         ["HTTP responses"],
         "stateful testing over simulated HTTP connections",
         "Pages are asked for between flushes.")

    prop("C33", "Dump mode logs all that comes and goes, and changes nothing",
         """The logging processor logs every accepted message once as it comes
         in and every datapoint of a flush once as it goes out, in order and
         with its name, value and time; everything it publishes is what the
         configurable processor would have published.""",
         ["histories", "inputs", "schedules"],
         """all histories of messages and of flushes, pulled whole or in
         pieces with messages between""",
         """tests log one message and one flush of one kind""",
         ["txstatsd/server/loggingprocessor.py"],
         [("logging", "txstatsd/server/loggingprocessor.py")],
         ["lines logged", "flush output"],
         "differential testing against the configurable processor",
         "A message discarded for its value may be logged or not.")

    prop("C34", "The daemon reports of itself what it is asked to, once a minute",
         """For every name in the report option the daemon publishes the
         readings of that group, taken anew every minute, as gauges under its
         instance name (the node's name when none is given) in the form of its
         mode, counters as differences; with any report asked for it publishes
         the readers and writers of the reactor, with "reactor" the delays its
         inspector measures until the daemon stops. Unknown names, and no
         option, add nothing.""",
         ["configurations", "histories"],
         """all lists of reports, modes, prefixes and instance names, with
         readings that change all the time""",
         """tests count the services that were made and never take a
         reading""",
         [SV, PR, "txstatsd/report.py"],
         [("selection", SV + ":createService"),
          ("groups", PR + ":PROCESS_STATS and others"),
          ("schedule", "txstatsd/report.py:ReportingService.schedule")],
         ["pickled datapoints on the simulated carbon connections"],
         "whole-system model-based testing on a simulated reactor",
         "psutil and the files of /proc are stand-ins.")

    prop("C35", "Counters are reported as differences between readings",
         """Reporting counters of the system gives for every reading the
         difference of each counter to the last successful reading, nothing for
         a counter that was not in it, and goes on after a reading
         fails, counters vanish or jump back; two reporters never share what
         they remember.""",
         ["histories", "fault_sequences"],
         """all histories of readings, with counters appearing, vanishing and
         failing""",
         """one test reads the same counters twice""",
         [PR], [("differences", PR + ":report_counters")],
         ["returned metrics"],
         "model-based histories", "")

    prop("C36", "Statistics of carbon connections are reported once, then reset",
         """Each report of the carbon connections gives for every destination
         exactly what carbon's client counted since the report before, with
         names graphite takes, and starts every count at zero again; other
         counts are not reported.""",
         ["histories"],
         """all histories of counted events and reports""",
         """the tests look at one report""",
         [SV], [("report", SV + ":report_client_manager_stats")],
         ["returned metrics"],
         "model-based histories", "")

    prop("C37", "Plugins get the messages of their type, and publish theirs",
         """Every plugin found is configured once, with the daemon's options,
         when the service is made. Each message of its type, whatever other
         types use the name, goes once and with all its fields, in order, to
         the one metric the plugin makes for that name, under the prefix of
         the mode and with the processor's clock; what the metric refuses is
         discarded. Every flush asks each metric once, with the interval in
         seconds and the time of the flush, and publishes exactly what it
         gives.""",
         ["histories", "configurations", "inputs"],
         """all sets of plugins, histories of messages accepted and refused
         and of flushes, in every mode, alone, behind the router and in the
         whole daemon""",
         """tests have one plugin, one message and one flush; several plugins,
         names they share, and refusals in between are not tested""",
         [P, CP, SV, "txstatsd/itxstatsd.py"],
         [("messages", P + ":MessageProcessor.process_plugin_metric"),
          ("flushes", P + ":MessageProcessor.flush_plugin_metrics"),
          ("configuration", SV + ":createService")],
         ["calls of the plugins' methods", "flush output"],
         "model-based histories with recording plugins",
         "Two plugins of one type are left out.")
