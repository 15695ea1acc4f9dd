"""Engine for the in-process world: b2sim searches, this file distributes the
seeds, confirms and minimises what it finds, and reports."""
import array, concurrent.futures, json, os, re, subprocess, tempfile, time

from common import *
import minimise as mini

TAILS = {"ub": (5, 3), "hb": (5, 1), "copy": (4, 1), "batch": (0, 2), "jobs": (0, 1)}

# Runs per tier and build, chosen for the quick tier to search for well under
# a minute on eight cores.
RUNS = {
    "C01": (1_600_000, 40_000_000), "C02": (1_000_000, 30_000_000), "C03": (3_000_000, 80_000_000),
    "C04": (1_800_000, 50_000_000), "C05": (2_500_000, 60_000_000), "C06": (2_000_000, 50_000_000),
    "C08": (1_000_000, 25_000_000), "C13": (3_000_000, 80_000_000), "C14": (1_100_000, 30_000_000),
    "C15": (800_000, 20_000_000), "C16": (500_000, 14_000_000), "C19": (600_000, 15_000_000),
    "C20": (2_500_000, 70_000_000),
}

# Single-stepping through the calls takes twenty milliseconds a run.
RUNS["C07"] = (4_000, 150_000)
RUNS["C21"] = (1_500, 60_000)
RUNS["C22"] = (1_500_000, 40_000_000)
RUNS["C23"] = (1_100_000, 30_000_000)
RUNS_TRACED = (60_000, 2_000_000)

# Runs executed again for comparison; single-stepped ones are slow.
RERUNS = {"C21": 40}

HANG = 60


def binary_for(prop, bins):
    """Threads have an executable of their own, built alongside."""
    if prop != "C07":
        return bins
    return {k: os.path.join(os.path.dirname(v), "b2thread") for k, v in bins.items()}


def exec_text(binary, text, timeout=HANG):
    """Execute a replay text in a fresh process. -> (class or None, message)"""
    with tempfile.NamedTemporaryFile("w", suffix=".replay", dir=TARGET, delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run([binary, "exec", f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, env=env(), errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    finally:
        os.unlink(f.name)
    return classify(p.returncode, p.stdout, p.stderr)


def classify(code, out, err):
    if code == 0:
        return None, out.strip()
    if code == 1:
        m = re.search(r"BROKEN class=(\S+) (.*)", out)
        if m:
            return m.group(1), m.group(2)
    if code == 77:
        m = re.search(r"MEMORY-FAULT.*", err)
        return "memory", m.group(0) if m else "memory fault"
    if code == 78:
        return "work", re.search(r"(?:WORK-LIMIT (.*))?", err[err.find("WORK-LIMIT"):]).group(1) or "work limit"
    if code < 0:
        return "abort", "killed by signal %d: %s" % (-code, err[-400:].replace("\n", " "))
    raise HarnessError("b2sim ended with %d: %s %s" % (code, out[-500:], err[-500:]))


def gen(binary, prop, seed, index, tier):
    return subprocess.run([binary, "gen", prop, str(seed), str(index), tier], stdout=subprocess.PIPE,
                          text=True, env=env(), check=True).stdout


class Batch:
    """One search over `count` seeds with one build."""

    def __init__(self, prop, build, binary, seed, count, tier, workers, cap):
        self.prop, self.build, self.binary, self.seed, self.tier = prop, build, binary, seed, tier
        self.count, self.workers, self.cap = count, workers, cap
        self.procs = []

    def start(self, scratch):
        self.scratch = scratch
        for w in range(self.workers):
            prefix = os.path.join(scratch, "%s-%d" % (self.build, w))
            out = open(prefix + ".out", "w")
            err = open(prefix + ".err", "w")
            p = subprocess.Popen([self.binary, "search", self.prop, str(self.seed), str(w), str(self.workers),
                                  str(self.count), self.tier, prefix, str(self.cap)],
                                 stdout=out, stderr=err, env=env())
            out.close()
            err.close()
            self.procs.append((p, prefix))

    def current(self, prefix):
        try:
            with open(prefix + ".cur", "rb") as f:
                return int.from_bytes(f.read(8), "little")
        except OSError:
            return 0

    def wait(self):
        """-> (merged stats, [candidate violations])"""
        progress = {}
        live = list(self.procs)
        found = []
        self.stats = {"runs": 0, "steps": 0, "nontrivial": 0, "capped": False, "counters": {}}
        self.transitions, self.run_sigs = set(), set()
        first = None
        while live:
            time.sleep(0.05)
            now = time.time()
            for p, prefix in list(live):
                if p.poll() is None:
                    c = self.current(prefix)
                    if progress.get(prefix, (None, 0))[0] != c:
                        progress[prefix] = (c, now)
                    elif now - progress[prefix][1] > HANG:
                        p.kill()
                        p.wait()
                        live.remove((p, prefix))
                        found.append((c, "hang", "no progress for %d s" % HANG))
                    # Once something is found, do not search on for long.
                    if first and now - first > 10:
                        p.kill()
                    continue
                live.remove((p, prefix))
                self.collect(p, prefix, found, first is not None)
            if found and first is None:
                first = time.time()
        return found

    def collect(self, p, prefix, found, stopping):
        out, err = open(prefix + ".out").read(), open(prefix + ".err", errors="replace").read()
        if p.returncode == 0:
            d = json.loads(out.strip().splitlines()[-1])
            for k in ("runs", "steps", "nontrivial"):
                self.stats[k] += d[k]
            self.stats["capped"] |= d["capped"]
            for k, v in d["counters"].items():
                c = self.stats["counters"]
                c[k] = max(c.get(k, 0), v) if k.startswith("largest") else c.get(k, 0) + v
            for name, dest in (("transitions", self.transitions), ("runs", self.run_sigs)):
                a = array.array("Q")
                with open(prefix + "." + name, "rb") as f:
                    a.frombytes(f.read())
                dest.update(a)
            if "violation" in d:
                v = d["violation"]
                found.append((v["index"], v["class"], v["msg"]))
        elif p.returncode == -9 and stopping:
            return
        else:
            cls, msg = classify(p.returncode, out, err)
            if cls is None:
                raise HarnessError("worker gave no result: " + out + err)
            found.append((self.current(prefix), cls, msg))

    def logs(self, w):
        a = array.array("Q")
        with open(os.path.join(self.scratch, "%s-%d.logs" % (self.build, w)), "rb") as f:
            a.frombytes(f.read())
        return a


def confirm(batch, index, cls, msg, seconds):
    """Reproduce in a fresh process, minimise, return (replay text, message)."""
    text = gen(batch.binary, batch.prop, batch.seed, index, batch.tier)
    got, m = exec_text(batch.binary, text)
    parts = [text]
    if got is None:
        # It needs what earlier runs of the same worker left in the process.
        prior = list(range(index % batch.workers, index, batch.workers))
        n = 1
        while got is None and prior:
            hist = prior[-n:]
            parts = [gen(batch.binary, batch.prop, batch.seed, i, batch.tier) for i in hist] + [text]
            got, m = exec_text(batch.binary, "".join(parts))
            if n >= len(prior) or n >= 20000:
                break
            n *= 8
        if got is None:
            raise HarnessError("%s run %d (%s: %s) does not reproduce in a fresh process" % (
                batch.prop, index, cls, msg))
    cls = got
    end = time.time() + seconds
    if len(parts) > 1:
        parts = mini.ddmin(parts, lambda p: bool(p) and exec_text(batch.binary, "".join(p))[0] == cls,
                           lambda: time.time() < end)
    if cls == "hang":
        small = "".join(parts)
    elif len(parts) == 1:
        small = mini.minimise(parts[0], lambda t: exec_text(batch.binary, t, 20)[0] == cls, seconds, TAILS)
    else:
        for i in range(len(parts)):
            parts[i] = mini.minimise(
                parts[i],
                lambda t: exec_text(batch.binary, "".join(parts[:i] + [t] + parts[i + 1:]), 20)[0] == cls,
                max(1, end - time.time()) / len(parts), TAILS)
        small = "".join(parts)
    got, m = exec_text(batch.binary, small)
    if got != cls:
        raise HarnessError("minimised replay does not reproduce: %s instead of %s" % (got, cls))
    return small, "%s: %s" % (cls, m)


def check(prop, tier, seed, clock):
    if prop == "C16":
        names = [b for b in BUILDS if b not in ("traced", "counted")] if tier == "thorough" else [
            "checked", "shipped", "uninline", "nostd", "nostd-checked", "nostd-avx2"]
    elif prop == "C07":
        names = ["traced", "checked", "shipped"]
    elif prop == "C23":
        names = ["counted"]
    elif prop == "C19":
        names = ["checked", "shipped", "uninline", "nostd"]
    else:
        names = ["checked", "shipped"]
    bins = binary_for(prop, build_sim(names))
    built = clock()
    count = RUNS[prop][0 if tier == "quick" else 1]
    cap = 240 if tier == "quick" else 3000
    violations = []
    merged = {"runs": 0, "steps": 0, "nontrivial": 0, "capped": False, "counters": {}}
    transitions, sigs = set(), set()
    per_build = {}
    determinism = 0
    batches = []
    with tempfile.TemporaryDirectory(dir=TARGET) as scratch:
        started = clock()
        for k, name in enumerate(names):
            # The same seeds in every configuration for C16, different ones
            # otherwise.
            s = seed if prop == "C16" else seed * 2 + k
            n = RUNS_TRACED[0 if tier == "quick" else 1] if name == "traced" else count
            b = Batch(prop, name, bins[name], s, n, tier, CPUS, cap)
            b.start(scratch)
            found = b.wait()
            batches.append(b)
            for key in ("runs", "steps", "nontrivial"):
                merged[key] += b.stats[key]
            merged["capped"] |= b.stats["capped"]
            for c, v in b.stats["counters"].items():
                old = merged["counters"].get(c, 0)
                merged["counters"][c] = max(old, v) if c.startswith("largest") else old + v
            transitions |= b.transitions
            sigs |= b.run_sigs
            per_build[name] = b.stats["runs"]
            if found:
                index, cls, msg = min(found)
                small, m = confirm(b, index, cls, msg, 45 if tier == "quick" else 200)
                violations.append((name, small, m))
                break
            # Determinism: the first runs again, one process, other grouping.
            few = min(RERUNS.get(prop, 400), n)
            again = subprocess.run([b.binary, "log", prop, str(s), "0", str(few), tier, "1"],
                                   stdout=subprocess.PIPE, text=True, env=env(), check=True).stdout.split()
            logs = [b.logs(w) for w in range(b.workers)]
            for i in range(few):
                if "%016x" % logs[i % b.workers][i // b.workers] != again[2 * i + 1]:
                    raise HarnessError("run %d of %s is not deterministic" % (i, prop))
                determinism += 1
        search_s = clock() - started
        if prop == "C16" and not violations:
            v = compare_builds(batches, tier)
            if v:
                violations.append(v)
    extra = {}
    if prop in GIANTS and not violations:
        violations, extra = giants(bins, prop, tier)
    samples = [gen(bins[names[0]], prop, seed * 2 if prop != "C16" else seed, i, tier) for i in (0, 1)]
    r = {
        "violations": violations,
        "evaluations": merged["runs"],
        "distinct": len(sigs),
        "samples": [s[:3000] for s in samples],
        "detail": {
            "simulated_runs": merged["runs"],
            "simulated_steps": merged["steps"],
            "simulated_time": "%d instructions executed step by step" % merged["counters"].pop("simulated instructions")
                              if prop == "C21" else
                              "none: the code has no clock or timer; progress is counted in steps",
            "search_seconds": round(search_s, 1),
            "build_seconds": round(built, 1),
            "seeds_per_hour": int(merged["runs"] / max(search_s, 0.1) * 3600),
            "runs_per_build": per_build,
            "distinct_abstract_transitions": len(transitions),
            "distinct_run_schedules": len(sigs),
            "events": {k: v for k, v in sorted(merged["counters"].items()) if not k.startswith("fault:")},
            "faults_fired": {k[6:].strip(): v for k, v in sorted(merged["counters"].items()) if k.startswith("fault:")},
            "determinism_reruns_compared": determinism,
            "wall_clock_cap_reached": merged["capped"],
        },
    }
    r["detail"].update(extra)
    return r


# What the giants of a property are given to (sim/src/giant.rs): one-call
# hashes, updates, batched updates, jobs, writers, vectored writers.
GIANTS = {"C01": (0, 1), "C02": (0, 1, 2, 3, 4), "C04": (2, 4), "C05": (3,), "C15": (5, 6)}


def giants(bins, prop, tier):
    """Designated runs with inputs longer than 4 GiB, several at a time."""
    with open(os.path.join(ROOT, "lib", "giants.json")) as f:
        w = json.load(f)["world"]

    def wanted(kind):
        out = []
        for line in w[kind]:
            word = line.split()
            for mode in GIANTS[prop]:
                # A writer does what an update does.
                if word[2] == (str(mode) if mode < 5 else "1"):
                    out.append(" ".join(word[:2] + [str(mode)] + word[3:]))
        # The very long one is for the accounting of C02 alone.
        return [l for l in out if prop == "C02" or int(l.split()[3]) < 1 << 33]

    lines = [("shipped", l) for l in wanted("quick")]
    if tier == "thorough":
        lines += [("checked", l) for l in wanted("quick")] + [("shipped", l) for l in wanted("thorough")]
    # The longest first.
    lines.sort(key=lambda x: (x[1].split()[2] != "4", -int(x[1].split()[3])))
    texts = [(b, "b2sim 1\nproperty %s\nseed 0\n%s\n" % (prop, l)) for b, l in lines]
    with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
        res = list(pool.map(lambda t: exec_text(bins[t[0]], t[1], 400), texts))
    bad = [(t[0], t[1], "%s: %s" % r) for t, r in zip(texts, res) if r[0]]
    return bad[:1], {"runs_with_inputs_over_4_GiB": len(texts)}


def compare_builds(batches, tier):
    """The observation logs of the same seeds must agree in all builds."""
    base = batches[0]
    for other in batches[1:]:
        for w in range(base.workers):
            a, b = base.logs(w), other.logs(w)
            for k in range(min(len(a), len(b))):
                if a[k] != b[k]:
                    index = w + k * base.workers
                    text = gen(base.binary, base.prop, base.seed, index, tier)

                    def differs(t):
                        x, y = exec_text(base.binary, t), exec_text(other.binary, t)
                        return x != y

                    small = mini.minimise(text, differs, 45, TAILS) if differs(text) else text
                    if not differs(small):
                        raise HarnessError("a difference between builds does not reproduce")
                    return ("%s,%s" % (base.build, other.build), small,
                            "the builds %s and %s behave differently: %s / %s" % (
                                base.build, other.build, exec_text(base.binary, small)[1],
                                exec_text(other.binary, small)[1]))
    return None


def replay(names, text):
    """-> (class or None, message) of a replay text under the named builds."""
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    bins = binary_for(prop, build_sim(names))
    res = [exec_text(bins[n], text, 400) for n in names]
    for r in res:
        if r[0]:
            return r
    if len(set(res)) > 1:
        return "builds", "the builds differ: %s" % (res,)
    return res[0]
