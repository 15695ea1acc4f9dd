"""Shared by all engines: paths, builds, evidence, known findings."""
import fcntl, json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("B2SIM_REPO", "/repo")
TARGET = os.path.join(ROOT, "target")
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
CPUS = max(1, min(8, os.cpu_count() or 1))


class HarnessError(Exception):
    pass


def env(**extra):
    e = {
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": "/root",
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": "",
        "LC_ALL": "C",
    }
    e.update(extra)
    return e


TRIPLE = "x86_64-unknown-linux-gnu"

# name: (cargo profile, cargo feature flags, extra rustflags)
BUILDS = {
    "checked": ("checked", [], ""),
    "shipped": ("shipped", [], ""),
    "uninline": ("shipped", ["--features", "uninline"], ""),
    "nostd": ("shipped", ["--no-default-features"], ""),
    "nostd-checked": ("checked", ["--no-default-features"], ""),
    "nostd-sse41": ("shipped", ["--no-default-features"], " -C target-feature=+sse4.1"),
    "nostd-avx2": ("checked", ["--no-default-features"], " -C target-feature=+avx2"),
    # Scheduling points at the edges of the control flow graph and at accesses
    # to static data, for the simulation of threads.
    "traced": ("shipped", ["--bin", "b2thread", "--target", TRIPLE], " --cfg b2traced -C passes=sancov-module"
               + "".join(" -C llvm-args=-sanitizer-coverage-" + x for x in (
                   "level=3", "trace-pc-guard", "trace-loads", "trace-stores"))),
    # Counts the steps of every call.
    "counted": ("shipped", ["--bin", "b2sim", "--target", TRIPLE], " --cfg b2counted -C passes=sancov-module"
                " -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"),
    "std-avx2": ("shipped", [], " -C target-feature=+avx2"),
}


def build_sim(names):
    """Build the simulator with the crates of the working tree; returns
    {name: binary}. Different configurations build in parallel."""
    os.makedirs(TARGET, exist_ok=True)
    procs = []
    out = {}
    for name in names:
        profile, feats, flags = BUILDS[name]
        tdir = os.path.join(TARGET, "sim-" + name)
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile] + feats
        e = env(CARGO_TARGET_DIR=tdir, RUSTFLAGS="--cfg blake2_sim" + flags)
        log = open(os.path.join(TARGET, "build-%s.log" % name), "w+")
        procs.append((name, log, subprocess.Popen(cmd, cwd=os.path.join(ROOT, "sim"), env=e,
                                                  stdout=log, stderr=subprocess.STDOUT)))
        out[name] = os.path.join(tdir, TRIPLE if TRIPLE in feats else "", profile, "b2sim")
    bad = []
    for name, log, p in procs:
        if p.wait() != 0:
            log.seek(0)
            bad.append("building %s failed:\n%s" % (name, log.read()[-3000:]))
        log.close()
    if bad:
        raise HarnessError("\n".join(bad))
    return out


COUNTED = "-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"


def build_cli(counted=False):
    """Build the command line tool as shipped (no hooks) and the simulated
    operating system that is preloaded into it; counted: the tool is
    instrumented by the compiler, and the simulated system counts its steps."""
    os.makedirs(TARGET, exist_ok=True)
    tdir = os.path.join(TARGET, "cli-counted" if counted else "cli")
    cmd = ["cargo", "build", "--offline", "--quiet", "--release"]
    e = env(CARGO_TARGET_DIR=tdir)
    if counted:
        cmd += ["--target", TRIPLE]
        e["RUSTFLAGS"] = COUNTED + " -C link-arg=-Wl,--unresolved-symbols=ignore-all"
    # The tool's own lock file is used as it is.
    p = subprocess.run(cmd, cwd=os.path.join(REPO, "blake2_bin"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("building blake2 failed:\n" + p.stdout[-3000:])
    so = os.path.join(TARGET, "simos.so")
    p = subprocess.run(["gcc", "-O2", "-fno-delete-null-pointer-checks", "-fPIC", "-shared", "-o", so,
                        os.path.join(ROOT, "simos", "simos.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
    if p.returncode != 0:
        raise HarnessError("building simos failed:\n" + p.stdout[-3000:])
    return os.path.join(tdir, TRIPLE if counted else "", "release", "blake2"), so


def known_findings(prop):
    """Entries of the committed known-findings file for one property."""
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def write_evidence(prop, tier, seed, coverage, assumptions, wall, violations, level="exploration"):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    tmp = os.path.join(EVIDENCE, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVIDENCE, prop + ".json"))


def save_replay(prop, text):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d.replay" % (prop, os.getpid()))
    with open(path, "w") as f:
        f.write(text)
    return path


class Clock:
    """Real time, used only to bound a slow machine and for the report."""

    def __init__(self):
        self.start = time.time()

    def __call__(self):
        return time.time() - self.start
