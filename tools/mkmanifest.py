#!/usr/bin/env python3
"""Write MANIFEST.json from lib/catalogue.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import catalogue
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = [h for h in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], stdout=subprocess.PIPE,
                                   text=True).stdout.splitlines() if "hook" in h]
na = dict(catalogue.NOT_APPLICABLE)
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    if i not in catalogue.ENGINE:
        na[i] = "no check built yet"
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": catalogue.TECHNIQUE[catalogue.ENGINE[i]],
        "level": catalogue.LEVEL.get(i, "exploration"),
        "level_note": catalogue.NOTE[i],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "--cfg blake2_sim (rustc cfg flag, off by default)",
        "enable": "RUSTFLAGS=\"--cfg blake2_sim\" cargo build (lib/common.py build_sim); the command line tool is "
                  "simulated without hooks, as shipped, behind a preloaded simulated operating system",
        "source_commits": [h.split()[0] for h in hooks],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
    "notes": "Deterministic simulation with fault injection; see DESIGN.md. Any check: python3 check.py ID. "
             "Replay: python3 check.py --replay FILE.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
