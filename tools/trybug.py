#!/usr/bin/env python3
"""trybug.py ID... | all [--no-tests] [--checks C01,C02] : apply a planted change
to /repo, build, run the tests, the demonstration and the checks, undo it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def sh(cmd, timeout=1200, **k):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace", **k)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--no-tests" not in sys.argv
    demo = "--no-demo" not in sys.argv
    only = [a[9:].split(",") for a in sys.argv if a.startswith("--checks=")]
    ids = sorted(os.listdir(SEEDED)) if args == ["all"] else args
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        assert sh("git -C /repo status --porcelain")[1] == "", "repo not clean"
        out = []
        if demo:
            c, o = sh("bash %s/demo.sh" % d, 300, cwd="/repo")
            out.append("demo-clean=%d" % c)
            if c:
                print(o[-1500:])
        c, o = sh("git -C /repo apply %s/patch.diff" % d)
        if c:
            print(i, "does not apply", o)
            continue
        try:
            if tests:
                c, o = sh("bash /opt/vp/build.sh")
                out.append("build=%d" % c)
                if c:
                    print(o[-1500:])
                sh("bash /opt/vp/test.sh /tmp/bugs/out.json")
                base = json.load(open("/opt/vp/BASELINE.json"))
                base = set(base["stable"])
                got = set(json.load(open("/tmp/bugs/out.json"))["passed"])
                out.append("tests-lost=%d" % len(base - got))
                for l in sorted(base - got)[:5]:
                    print("   lost:", l)
            if demo:
                c, o = sh("bash %s/demo.sh" % d, 300, cwd="/repo")
                out.append("demo-patched=%d" % c)
                open("/tmp/bugs/%s.demo" % i, "w").write(o)
            for p in (only[0] if only else [meta["property"]]):
                t = time.time()
                c, o = sh("python3 check.py %s" % p, 900, cwd=ROOT,
                          env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                caught = c == 1 and "VIOLATION property=%s " % p in o
                out.append("%s:%s(%d) %.0fs" % (p, "CAUGHT" if caught else "missed", c, time.time() - t))
                open("/tmp/bugs/%s-%s.check" % (i, p), "w").write(o)
        finally:
            sh("git -C /repo checkout -- .")
        print(i, " ".join(out), flush=True)


main()
