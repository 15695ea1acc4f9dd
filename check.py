#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE       execute a replay file again
check.py --setup             build everything"""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from common import *
import catalogue


def engine_of(prop):
    name = catalogue.ENGINE[prop]
    return __import__(name)


def run_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0xFFFFFFFF
    clock = Clock()
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    r = engine_of(prop).check(prop, tier, seed, clock)
    coverage = {
        "evaluations": r["evaluations"],
        "distinct_nontrivial": r["distinct"],
        "rule": catalogue.RULE[catalogue.ENGINE[prop]],
        "samples": r["samples"],
        "components": catalogue.COMPONENTS[catalogue.ENGINE[prop]],
    }
    coverage.update(r["detail"])
    paths = []
    for build, text, msg in r["violations"]:
        head = "# engine %s\n# build %s\n# %s\n" % (catalogue.ENGINE[prop], build, msg[:2000].replace("\n", " "))
        paths.append((save_replay(prop, head + text), msg))
    write_evidence(prop, tier, seed, coverage, catalogue.ASSUMPTIONS[catalogue.ENGINE[prop]], clock(),
                   len(paths), catalogue.LEVEL.get(prop, "exploration"))
    for line in r.get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    if paths:
        for path, msg in paths:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("held: %d runs, %d distinct schedules, %.1f s" % (r["evaluations"], r["distinct"], clock()))
    return 0


def run_replay(path):
    text = open(path).read()
    head = {l.split()[1]: l.split()[2] for l in text.splitlines() if l.startswith("# ") and len(l.split()) > 2}
    cls, msg = __import__(head["engine"]).replay(head["build"].split(","), text)
    print("%s %s" % (cls or "held", msg))
    return 1 if cls else 0


def main():
    try:
        if sys.argv[1] == "--setup":
            import setup_all
            setup_all.main()
            return 0
        if sys.argv[1] == "--replay":
            return run_replay(sys.argv[2])
        return run_check(sys.argv[1])
    except HarnessError as e:
        print("harness error: %s" % e)
    except Exception:
        traceback.print_exc()
    return 2


sys.exit(main())
