"""Engine for the command line tool: the unmodified binary inside a simulated
operating system."""
import array, hashlib, json, multiprocessing, os, pickle, re, signal, subprocess, time

from common import *
import cligen, minimise as mini
from clirun import Model, Outcome, Runner, Scenario, execute_text, judge, transitions

RUNS = {"C09": (60_000, 3_000_000), "C10": (60_000, 3_000_000), "C11": (60_000, 3_000_000), "C12": (60_000, 3_000_000),
        "C17": (50_000, 2_000_000), "C18": (1_600, 60_000), "C24": (30_000, 1_000_000), "C25": (40_000, 1_500_000)}


def build(prop=None):
    tool, simos = build_cli(prop == "C24")
    so = os.path.join(TARGET, "model.so")
    p = subprocess.run(["gcc", "-O2", "-Wall", "-fPIC", "-shared", "-o", so, os.path.join(ROOT, "simos", "model.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
    if p.returncode != 0:
        raise HarnessError("building the model failed:\n" + p.stdout)
    return tool, simos, Model(so)


def sig64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little")


def run_hash(o):
    # Backtraces contain addresses, and those are the kernel's choice.
    return sig64((o.events, o.streams[1], re.sub(rb"0x[0-9a-f]+", b"0x", o.streams[2]), o.code))


def work(conn, tool, simos, model, prop, seed, worker, workers, count, tier, cap, tags):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    runner = Runner(tool, simos, model)
    res = {"runs": 0, "slept": 0, "steps": 0, "nontrivial": 0, "counters": {}, "capped": False, "violation": None, "hashes": {}}
    cnt = res["counters"]
    trans, sigs = set(), set()
    end = time.time() + cap
    try:
        for index in range(worker, count, workers):
            if time.time() > end:
                res["capped"] = True
                break
            sc, o, bad = execute_text(runner, cligen.generate(prop, seed, index, tier))
            res["runs"] += 1
            res["steps"] += len(o.events)
            ts = transitions(sc, o)
            if len(ts) >= 3:
                res["nontrivial"] += 1
                sigs.add(sig64(ts))
            prev = None
            for t in ts:
                trans.add(hash_t(prev, t))
                prev = t
            for e in o.events:
                k = e[0].lower()
                cnt[k] = cnt.get(k, 0) + 1
                if k in ("open_fail", "read_fail", "stat_fail", "mmap_fail", "write_fail"):
                    k = "%s errno %d" % (k, e[3] if k == "read_fail" else e[2])
                    cnt[k] = cnt.get(k, 0) + 1
                if k == "steps":
                    k = "largest share of the allowed steps, per mille"
                    cnt[k] = max(cnt.get(k, 0), e[2] * 1000 // e[3])
            res["slept"] += sum(e[2] for e in o.events if e[0] == "WAIT" and e[2] < 1 << 60)
            k = "exit " + str(o.code)
            cnt[k] = cnt.get(k, 0) + 1
            if index < 200:
                res["hashes"][index] = run_hash(o)
            if bad:
                res["violation"] = (index, bad[0], bad[1])
                break
    except HarnessError as e:
        res["error"] = str(e)
    res["transitions"] = trans
    res["sigs"] = sigs
    conn.send_bytes(pickle.dumps(res))
    conn.close()


def hash_t(a, b):
    return sig64((a, b))


class Fresh:
    """Executes texts one at a time."""

    def __init__(self, tool, simos, model):
        self.runner = Runner(tool, simos, model)

    def __call__(self, text):
        try:
            sc, o, bad = execute_text(self.runner, text)
        except (HarnessError, ValueError, IndexError):
            return None, "not executable", None
        return (bad[0], bad[1], o) if bad else (None, "held", o)


def check(prop, tier, seed, clock):
    tool, simos, model = build(prop)
    checked = model.selfcheck()
    built = clock()
    count = RUNS[prop][0 if tier == "quick" else 1]
    cap = 200 if tier == "quick" else 3000
    fresh = Fresh(tool, simos, model)
    started = clock()
    procs = []
    for w in range(CPUS):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=work, args=(b, tool, simos, model, prop, seed, w, CPUS, count, tier, cap, None))
        p.start()
        b.close()
        procs.append((p, a))
    merged = {"runs": 0, "slept": 0, "steps": 0, "nontrivial": 0, "counters": {}, "capped": False}
    trans, sigs, hashes, found = set(), set(), {}, []
    for p, a in procs:
        try:
            res = pickle.loads(a.recv_bytes())
        except EOFError:
            raise HarnessError("a worker ended early")
        p.join()
        if res.get("error"):
            raise HarnessError(res["error"])
        for k in ("runs", "steps", "slept", "nontrivial"):
            merged[k] += res[k]
        merged["capped"] |= res["capped"]
        for k, v in res["counters"].items():
            old = merged["counters"].get(k, 0)
            merged["counters"][k] = max(old, v) if k.startswith("largest") else old + v
        trans |= res["transitions"]
        sigs |= res["sigs"]
        hashes.update(res["hashes"])
        if res["violation"]:
            found.append(res["violation"])
    search_s = clock() - started
    violations, determinism = [], 0
    if found:
        index, cls, msg = min(found)
        violations.append(confirm(fresh, prop, seed, index, tier, cls, msg))
    else:
        for i in sorted(hashes):
            _, _, o = fresh(cligen.generate(prop, seed, i, tier))
            if o is None or run_hash(o) != hashes[i]:
                raise HarnessError("run %d of %s is not deterministic" % (i, prop))
            determinism += 1
    extra = {}
    if not violations:
        violations, extra = giants(fresh, prop)
    known = []
    for k in known_findings(prop):
        cls, msg, _ = fresh("\n".join(k["scenario"]) + "\n")
        if cls == k["class"]:
            known.append(k["what"])
        elif cls is not None:
            violations.append(("cli", "\n".join(k["scenario"]) + "\n", "%s: %s" % (cls, msg)))
    fault_names = ("open_fail", "read_fail", "stat_fail", "mmap_fail", "write_fail", "read_eintr", "write_eintr", "open_eintr",
                   "read_short", "write_short", "stat_lie", "mutate", "kill", "malloc_fail", "noent", "cpu")
    is_fault = lambda k: k.split()[0] in fault_names
    samples = [cligen.generate(prop, seed, i, tier) for i in (0, 1)]
    detail = {
        "simulated_runs": merged["runs"],
        "simulated_steps": merged["steps"],
        "simulated_time": "a millisecond for each event, and what the tool sleeps (not at all on the unchanged tree); %d s in all"
                          % (merged["steps"] // 1000 + merged["slept"] // 10 ** 9),
        "search_seconds": round(search_s, 1),
        "build_seconds": round(built, 1),
        "seeds_per_hour": int(merged["runs"] / max(search_s, 0.1) * 3600),
        "distinct_abstract_transitions": len(trans),
        "distinct_run_schedules": len(sigs),
        "events": {k: v for k, v in sorted(merged["counters"].items()) if not is_fault(k)},
        "faults_fired": {k: v for k, v in sorted(merged["counters"].items()) if is_fault(k)},
        "determinism_reruns_compared": determinism,
        "model_known_answers": checked,
        "wall_clock_cap_reached": merged["capped"],
    }
    detail.update(extra)
    return {"violations": violations, "evaluations": merged["runs"], "distinct": len(sigs),
            "samples": [s[:3000] for s in samples], "known": known, "detail": detail}


def confirm(fresh, prop, seed, index, tier, cls, msg):
    text = cligen.generate(prop, seed, index, tier)
    got, m, _ = fresh(text)
    if got != cls:
        raise HarnessError("%s run %d (%s: %s) does not reproduce: %s" % (prop, index, cls, msg, got))
    small = mini.minimise(text, lambda t: fresh(t)[0] == cls, 45)
    got, m, _ = fresh(small)
    if got != cls:
        raise HarnessError("minimised replay does not reproduce")
    return "cli", small, "%s: %s" % (got, m)


def giants(fresh, prop):
    """Designated runs with inputs longer than 4 GiB."""
    with open(os.path.join(ROOT, "lib", "giants.json")) as f:
        lists = json.load(f)["cli"]
    if prop == "C18":
        # The same within bounded memory: as standard input, as a file of
        # another size according to its metadata, and mapped.
        some = lists["C09"][:3] + lists["C11"][:1]
        for t in lists["C09"][:2]:
            f = t[-1].split()
            some.append(t[:-1] + ["arg 1 0", "statsize 1 0", "file 1 %s %s" % (f[2], f[3])])
        lists[prop] = [[l.replace("C09", prop).replace("C11", prop) for l in t] + ["heap %d" % cligen.HEAP] for t in some]
    texts = ["\n".join(t) + "\n" for t in lists.get(prop, [])]
    if not texts:
        return [], {}
    with multiprocessing.Pool(min(CPUS, len(texts)), initializer=giant_init,
                              initargs=(fresh.runner.tool, fresh.runner.simos, fresh.runner.model.so)) as pool:
        res = pool.map(giant_run, texts, 1)
    return ([("cli", t, "%s: %s" % r) for t, r in zip(texts, res) if r[0]],
            {"runs_with_inputs_over_4_GiB": len(texts)})


def giant_init(tool, simos, so):
    global GIANT
    GIANT = Fresh(tool, simos, Model(so))


def giant_run(text):
    return GIANT(text)[:2]


def replay(names, text):
    prop = [l.split()[1] for l in text.splitlines() if l.startswith("property ")]
    cls, msg, o = Fresh(*build(prop[0] if prop else None))(text)
    if o is not None:
        for e in o.events[:200]:
            print("  ", *e)
        print("  stdout %r\n  stderr %r\n  status %d" % (o.streams[1], o.streams[2], o.code))
    return cls, msg
