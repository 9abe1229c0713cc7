"""The runner: Hypothesis generates cases, Jython runs them, oracles judge.

A property is a module of pbt/props with a list of parts.  A part names a
scenario of pbt/jython (what is done with a case on the code of /repo), a
strategy (which cases), and an oracle (what must be seen).
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

warnings.simplefilter("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

CASE_TIMEOUT = 60.0      # a case takes milliseconds; this is a hang
START_TIMEOUT = 240.0
SHRINK_SECONDS = {"quick": 45.0, "thorough": 90.0}
BUDGET_SECONDS = {"quick": 240.0, "thorough": 700.0}
WORKERS = {"quick": 3, "thorough": 7}


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, message, finding=None):
        Exception.__init__(self, message)
        self.finding = finding


class HarnessError(Exception):
    """The check could not judge."""


class PeerDied(Exception):
    pass


class PeerHung(Exception):
    pass


class StopRun(BaseException):
    """Ends a Hypothesis run: time is up, or enough was shrunk."""


def ensure(condition, message, *args, **kwargs):
    if not condition:
        raise Violation(message % args if args else message, **kwargs)


class Part(object):
    def __init__(self, name, scenario, strategy, check, classify,
                 quick=300, thorough=6000, allow_exc=None):
        self.name = name
        self.scenario = scenario
        self.strategy = strategy
        self.check = check
        self.classify = classify
        self.cases = {"quick": quick, "thorough": thorough}
        self.allow_exc = allow_exc


def dumps(value):
    return json.dumps(value, sort_keys=True, separators=(",", ":"))


class Peer(object):
    """A Jython process with the code of /repo loaded."""

    def __init__(self, modules):
        self.modules = modules
        self.process = None
        self.buffer = b""
        self.stderr = None

    def start(self):
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": os.environ.get("HOME", "/root"),
            "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
            "JYTHONPATH": "/opt/jy/compat:%s:/opt/jy/lib" % REPO,
            "PYTHONDONTWRITEBYTECODE": "1",
            "VERIF_REPO": REPO,
        }
        self.stderr = tempfile.TemporaryFile()
        self.scratch = tempfile.mkdtemp(prefix="pbt-")
        self.process = subprocess.Popen(
            ["java", "-Xmx1200m", "-Xss4m", "-XX:+UseSerialGC",
             "-XX:TieredStopAtLevel=1", "-Djava.io.tmpdir=" + self.scratch,
             "-jar", "/usr/share/java/jython.jar",
             "-Dpython.home=/usr/share/jython"
             if os.path.isdir("/usr/share/jython")
             else "-Dpython.home=/usr",
             "-Dpython.executable=/usr/bin/jython",
             os.path.join(HERE, "jython", "server.py")] + self.modules,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.stderr, env=env, cwd=self.scratch,
            start_new_session=True)
        self.buffer = b""
        try:
            self.read(START_TIMEOUT)
        except (PeerDied, PeerHung):
            text = self.log_tail()
            self.stop()
            raise HarnessError("Jython did not start: " + text)

    def log_tail(self):
        if self.stderr is None:
            return ""
        self.stderr.seek(0, 2)
        size = self.stderr.tell()
        self.stderr.seek(max(0, size - 4000))
        return self.stderr.read().decode("utf-8", "replace")

    def read(self, timeout):
        deadline = time.monotonic() + timeout
        fd = self.process.stdout.fileno()
        while True:
            index = self.buffer.find(b"\n")
            if index >= 0:
                line, self.buffer = self.buffer[:index], self.buffer[index + 1:]
                return json.loads(line)
            left = deadline - time.monotonic()
            if left <= 0:
                raise PeerHung()
            ready, _, _ = select.select([fd], [], [], left)
            if not ready:
                raise PeerHung()
            data = os.read(fd, 1 << 16)
            if not data:
                raise PeerDied()
            self.buffer += data

    def stop(self):
        process, self.process = self.process, None
        if process is not None:
            try:
                os.killpg(process.pid, signal.SIGKILL)
            except OSError:
                pass
            process.wait()
            process.stdin.close()
            process.stdout.close()
            try:
                for name in os.listdir(self.scratch):
                    path = os.path.join(self.scratch, name)
                    if os.path.isfile(path):
                        os.remove(path)
                os.rmdir(self.scratch)
            except OSError:
                pass
        if self.stderr is not None:
            self.stderr.close()
            self.stderr = None

    def call(self, scenario, case, seed, timeout=CASE_TIMEOUT):
        if self.process is None:
            self.start()
        request = json.dumps({"scenario": scenario, "case": case,
                              "seed": seed})
        try:
            self.process.stdin.write(request.encode("utf-8") + b"\n")
            self.process.stdin.flush()
        except OSError:
            raise PeerDied()
        return self.read(timeout)


def case_seed(case):
    return zlib.crc32(dumps(case).encode("utf-8")) & 0x7fffffff


HARNESS_FAULTS = ("ImportError", "NameError", "UnboundLocalError",
                  "SyntaxError", "IndentationError")


def judge(part, case, answer):
    """Raise Violation, or return the observation."""
    exc = answer.get("exc")
    if exc is not None:
        if part.allow_exc is not None and part.allow_exc(case, exc):
            return None
        if not exc["sut"] and exc["type"] in HARNESS_FAULTS:
            raise HarnessError("scenario %s: %s" % (part.scenario, exc))
        raise Violation("%s: %s came out of the code: %s" % (
            exc["type"], exc["msg"], "; ".join(exc["tb"])))
    obs = answer["ok"]
    try:
        part.check(case, obs)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("what was observed makes no sense (%s: %s) %s" % (
            type(e).__name__, e,
            traceback.format_exc().strip().splitlines()[-3].strip()))
    return obs


class Runner(object):
    """One worker: its own Jython process and its own seed."""

    def __init__(self, prop, tier, seed, worker, workers, known):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.worker = worker
        self.workers = workers
        self.known = known
        self.peer = Peer(prop.MODULES)
        self.history = []
        self.started = time.monotonic()

    def run(self):
        result = {"parts": [], "failure": None}
        try:
            self.peer.start()
            for index, part in enumerate(self.prop.PARTS):
                stats = self.run_part(index, part)
                result["parts"].append(stats)
                if stats.pop("failure_data", None) is not None:
                    result["failure"] = stats.pop("failure")
                    break
                stats.pop("failure", None)
        finally:
            self.peer.stop()
        return result

    def run_part(self, index, part):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, settings

        total = part.cases[self.tier]
        n = max(1, (total + self.workers - 1) // self.workers)
        stats = {"part": part.name, "evaluations": 0, "nontrivial": [],
                 "labels": {}, "samples": [], "known": {},
                 "truncated": False, "shrink_calls": 0}
        state = {"fail": None, "since": None}
        seen = set()
        strategy = part.strategy
        if callable(strategy) and not hasattr(strategy, "example"):
            strategy = strategy(self.tier)

        def one(case):
            now = time.monotonic()
            if state["since"] is not None:
                stats["shrink_calls"] += 1
                if now - state["since"] > SHRINK_SECONDS[self.tier]:
                    raise StopRun()
            elif now - self.started > BUDGET_SECONDS[self.tier]:
                stats["truncated"] = True
                raise StopRun()
            text = dumps(case)
            try:
                answer = self.ask(part, case, text)
                obs = judge(part, case, answer)
            except Violation as v:
                if v.finding is not None and v.finding in self.known:
                    stats["known"][v.finding] = \
                        stats["known"].get(v.finding, 0) + 1
                    return
                best = state["fail"]
                if best is None or (len(text), text) < (len(best[0]), best[0]):
                    state["fail"] = (text, str(v), len(self.history) - 1)
                if state["since"] is None:
                    state["since"] = time.monotonic()
                    state["first"] = (text, str(v), len(self.history) - 1)
                raise
            if state["since"] is not None:
                return
            stats["evaluations"] += 1
            nontrivial, labels = part.classify(case, obs)
            for label in labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if nontrivial:
                digest = hashlib.md5(text.encode("utf-8")).hexdigest()[:16]
                if digest not in seen:
                    seen.add(digest)
                    if len(seen) in (1, 7, 40) and len(text) < 6000:
                        stats["samples"].append(case)

        test = hypothesis.given(strategy)(one)
        test = settings(
            max_examples=n, database=None, deadline=None,
            derandomize=False, report_multiple_bugs=False,
            phases=(Phase.explicit, Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet, print_blob=False)(test)
        test = hypothesis.seed(
            (self.seed * 1009 + self.worker) * 101 + index)(test)
        try:
            test()
        except StopRun:
            pass
        except Violation:
            pass
        except HarnessError:
            raise
        except Exception as e:
            # Hypothesis calls a case that fails only sometimes "flaky".
            if state["fail"] is None:
                raise HarnessError("Hypothesis: %s: %s" % (
                    type(e).__name__, e))
        stats["nontrivial"] = sorted(seen)
        if state["fail"] is not None:
            stats["failure_data"] = True
            stats["failure"] = self.confirm(index, part, state)
        return stats

    def ask(self, part, case, text):
        self.history.append((part.scenario, text))
        for attempt in (1, 2, 3):
            try:
                return self.peer.call(part.scenario, case, case_seed(case))
            except PeerHung:
                self.peer.stop()
                if attempt == 3:
                    raise Violation("no answer within %d s, three times, "
                                    "each in a fresh process" % CASE_TIMEOUT)
            except PeerDied:
                tail = self.peer.log_tail()
                self.peer.stop()
                if attempt == 3:
                    raise Violation("the process died three times on this "
                                    "case: " + tail[-500:])

    def confirm(self, index, part, state):
        """Reproduce without Hypothesis, in a fresh process."""
        for text, message, position in (state["fail"], state["first"]):
            again = self.fresh(part, [], text)
            if again is not None:
                return {"part": index, "case": json.loads(text),
                        "message": again, "prefix": []}
        # Not reproduced alone: state left by earlier cases matters.
        text, message, position = state["first"]
        for length in (1, 4, 16, 64, 256, 1 << 30):
            prefix = self.history[max(0, position - length):position]
            again = self.fresh(part, prefix, text)
            if again is not None:
                return {"part": index, "case": json.loads(text),
                        "message": again + " (after %d earlier cases "
                        "in the same process)" % len(prefix),
                        "prefix": prefix}
            if length >= position:
                break
        raise HarnessError("a failure did not reproduce: %s %s" % (
            message, text[:3000]))

    def fresh(self, part, prefix, text):
        return replay_case(self.prop, part, prefix, json.loads(text),
                           self.known)


def replay_case(prop, part, prefix, case, known):
    peer = Peer(prop.MODULES)
    try:
        peer.start()
        for scenario, text in prefix:
            earlier = json.loads(text)
            try:
                peer.call(scenario, earlier, case_seed(earlier))
            except (PeerHung, PeerDied):
                peer.stop()
                peer.start()
        try:
            answer = peer.call(part.scenario, case, case_seed(case))
        except PeerHung:
            return "no answer within %d s" % CASE_TIMEOUT
        except PeerDied:
            return "the process died: " + peer.log_tail()[-500:]
        try:
            judge(part, case, answer)
        except Violation as v:
            if v.finding is not None and v.finding in known:
                return None
            return str(v)
        return None
    finally:
        peer.stop()


def read_known(prop_id):
    """Known findings: lines 'finding: property=ID key=KEY text'."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            words = line.split()
            if len(words) > 2 and words[0] == "finding:" and \
                    words[1] == "property=" + prop_id:
                known[words[2].split("=", 1)[1]] = " ".join(words[3:])
    return known


def work(args):
    prop_id, tier, seed, worker, workers = args
    try:
        prop = load(prop_id)
        runner = Runner(prop, tier, seed, worker, workers,
                        read_known(prop_id))
        return runner.run()
    except HarnessError as e:
        return {"error": str(e)}
    except BaseException:
        return {"error": traceback.format_exc()}


def load(prop_id):
    sys.path.insert(0, HERE)
    return importlib.import_module("props." + prop_id.lower())


def clean_plugin_cache():
    path = os.path.join(REPO, "twisted", "plugins", "dropin.cache")
    try:
        os.remove(path)
    except OSError:
        pass


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER",
                                                         "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--workers", type=int)
    args = parser.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load(args.property)
    known = read_known(args.property)
    clean_plugin_cache()
    try:
        if args.replay:
            return do_replay(prop, args.property, args.replay, known)
        return do_run(prop, args.property, tier, seed, known,
                      args.workers or WORKERS[tier])
    finally:
        clean_plugin_cache()


def do_replay(prop, prop_id, path, known):
    data = json.load(open(path))
    part = prop.PARTS[data["part"]]
    message = replay_case(prop, part, data.get("prefix", []), data["case"],
                          known)
    if message is None:
        print("replayed %s: the property holds on it" % path)
        return 0
    print("%s: %s" % (part.name, message))
    print("VIOLATION property=%s replay=%s" % (prop_id, path))
    return 1


def do_run(prop, prop_id, tier, seed, known, workers):
    start = time.monotonic()
    workers = min(workers, getattr(prop, "MAX_WORKERS", workers))
    jobs = [(prop_id, tier, seed, i, workers) for i in range(workers)]
    if workers == 1:
        results = [work(jobs[0])]
    else:
        context = multiprocessing.get_context("fork")
        with context.Pool(workers) as pool:
            results = pool.map(work, jobs, chunksize=1)
    failures = [r["failure"] for r in results if r.get("failure")]
    errors = [r["error"] for r in results if r.get("error")]
    wall = time.monotonic() - start

    evaluations = 0
    nontrivial = set()
    samples = []
    parts = []
    findings = {}
    for index, part in enumerate(prop.PARTS):
        merged = {"part": part.name, "evaluations": 0, "labels": {},
                  "distinct_nontrivial": 0, "stopped_early": False}
        digests = set()
        for r in results:
            for stats in r.get("parts", []):
                if stats["part"] != part.name:
                    continue
                merged["evaluations"] += stats["evaluations"]
                merged["stopped_early"] |= stats["truncated"]
                digests.update(stats["nontrivial"])
                for label, count in stats["labels"].items():
                    merged["labels"][label] = \
                        merged["labels"].get(label, 0) + count
                for key, count in stats["known"].items():
                    findings[key] = findings.get(key, 0) + count
                if sum(s["part"] == part.name for s in samples) < 3:
                    for case in stats["samples"][:1]:
                        samples.append({"part": part.name, "case": case})
        merged["distinct_nontrivial"] = len(digests)
        merged["labels"] = dict(sorted(merged["labels"].items()))
        evaluations += merged["evaluations"]
        nontrivial.update((index, d) for d in digests)
        parts.append(merged)

    evidence = {
        "property": prop_id, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": " ".join(prop.RULE.split()),
            "samples": samples,
            "parts": parts,
            "workers": workers,
            "known_findings_met": findings,
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop_id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for merged in parts:
        print("%s %-14s cases=%d distinct_nontrivial=%d%s %s" % (
            prop_id, merged["part"], merged["evaluations"],
            merged["distinct_nontrivial"],
            " STOPPED-EARLY" if merged["stopped_early"] else "",
            merged["labels"]))
    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop_id, text))
    print("%s %s wall=%.1fs" % (prop_id, tier, wall))
    if failures:
        failure = min(failures, key=lambda f: (len(dumps(f["case"])),
                                               dumps(f["case"])))
        folder = os.path.join(VERIF, "replays")
        os.makedirs(folder, exist_ok=True)
        digest = hashlib.md5(dumps(failure["case"]).encode()).hexdigest()[:10]
        path = os.path.join(folder, "%s-%s.json" % (prop_id, digest))
        with open(path, "w") as f:
            json.dump(failure, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%s: %s" % (prop.PARTS[failure["part"]].name,
                          failure["message"]))
        print("case: " + dumps(failure["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop_id, path))
        return 1
    if errors:
        for error in errors:
            print("ERROR: " + error, file=sys.stderr)
        return 2
    return 0
